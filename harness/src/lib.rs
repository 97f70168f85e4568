pub mod util; pub mod re; pub mod lex; pub mod der; pub mod lr; pub mod gram;
