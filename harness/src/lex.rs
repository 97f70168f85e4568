//! Runs the real tokenizer and records what it does.
use crate::obj;
use crate::util::{guarded, hint, J};
use std::cell::Cell;
use std::rc::Rc;
use tokenizer::{DFATokenizer, Tokenize};

#[derive(Clone, Debug)]
pub struct Item {
    pub c: char,
    pub i: usize,
}

/// A token as seen by its callback.
#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub pat: usize,
    pub text: Vec<u32>,
    /// source indices of the items (tokenize_with) or the characters themselves (tokenize)
    pub items: Vec<u32>,
    pub pulled: usize,
}

impl Tok {
    pub fn json(&self) -> J {
        obj! {"p" => J::I(self.pat as i64), "x" => J::ints(&self.text), "i" => J::ints(&self.items), "u" => J::I(self.pulled as i64)}
    }
}

pub struct Src {
    v: Vec<u32>,
    n: Rc<Cell<usize>>,
    k: usize,
}
impl Iterator for Src {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        if self.k < self.v.len() {
            let i = self.k;
            self.k += 1;
            self.n.set(self.k);
            Some(Item { c: char::from_u32(self.v[i]).unwrap(), i })
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.v.len() + self.v.first().map_or(0, |c| *c as usize), self.v.len() - self.k)
    }
}

pub struct Run {
    pub toks: Vec<Tok>,
    pub created: usize,
    pub pulled: usize,
    pub end: &'static str, // "none" | "cap"
}

pub fn run_json(r: &Result<Run, String>) -> (J, J, J, J) {
    match r {
        Ok(r) => (J::A(r.toks.iter().map(|t| t.json()).collect()), J::s(r.end), J::I(r.pulled as i64), J::I(r.created as i64)),
        Err(e) => (J::A(vec![]), J::S(format!("panic: {}", e)), J::I(0), J::I(0)),
    }
}

pub type TokW = (usize, Vec<u32>, Vec<u32>);

pub fn build_with(pats: &[String]) -> Result<(DFATokenizer<TokW, Item>, Vec<String>), String> {
    let mut b = DFATokenizer::<TokW, Item>::builder();
    for (i, p) in pats.iter().enumerate() {
        b = b.pattern(p, move |s: &str, v: Vec<Item>| (i, s.chars().map(|c| c as u32).collect(), v.iter().map(|x| x.i as u32).collect()));
    }
    match b.build() {
        Ok((t, w)) => Ok((t, w.iter().map(|x| format!("{:?}", x)).collect())),
        Err(e) => Err(format!("{:?}", e)),
    }
}

pub fn build_chars(pats: &[String]) -> Result<(DFATokenizer<TokW, char>, Vec<String>), String> {
    let mut b = DFATokenizer::<TokW, char>::builder();
    for (i, p) in pats.iter().enumerate() {
        b = b.pattern(p, move |s: &str, v: Vec<char>| (i, s.chars().map(|c| c as u32).collect(), v.iter().map(|x| *x as u32).collect()));
    }
    match b.build() {
        Ok((t, w)) => Ok((t, w.iter().map(|x| format!("{:?}", x)).collect())),
        Err(e) => Err(format!("{:?}", e)),
    }
}

macro_rules! drive {
    ($it:expr, $n:expr, $cap:expr) => {{
        let mut it = $it;
        let created = $n.get();
        let mut toks = vec![];
        let mut end = "cap";
        while toks.len() < $cap {
            match it.next() {
                Some((pat, text, items)) => toks.push(Tok { pat, text, items, pulled: $n.get() }),
                None => {
                    end = "none";
                    break;
                }
            }
        }
        Run { toks, created, pulled: $n.get(), end }
    }};
}

/// tokenize_with over indexed items
pub fn run_with(t: &DFATokenizer<TokW, Item>, src: &[u32], desc: &dyn Fn() -> String) -> Result<Run, String> {
    let n = Rc::new(Cell::new(0));
    let cap = src.len() + 3;
    let s = Src { v: src.to_vec(), n: n.clone(), k: 0 };
    guarded(desc, || drive!(s.tokenize_with(t, |x: &Item| x.c), n, cap))
}

/// tokenize over plain characters
pub fn run_chars(t: &DFATokenizer<TokW, char>, src: &[u32], desc: &dyn Fn() -> String) -> Result<Run, String> {
    let n = Rc::new(Cell::new(0));
    let cap = src.len() + 3;
    let s = Src { v: src.to_vec(), n: n.clone(), k: 0 };
    guarded(desc, || drive!(s.map(|x| x.c).tokenize(t), n, cap))
}

/// tokenizer passed by value
pub fn run_owned(t: DFATokenizer<TokW, Item>, src: &[u32], desc: &dyn Fn() -> String) -> Result<Run, String> {
    let n = Rc::new(Cell::new(0));
    let cap = src.len() + 3;
    let s = Src { v: src.to_vec(), n: n.clone(), k: 0 };
    guarded(desc, || drive!(s.tokenize_with(t, |x: &Item| x.c), n, cap))
}


/// any item type
pub fn run_any<C: 'static>(t: &DFATokenizer<TokW, C>, src: Vec<C>, map: fn(&C) -> char, desc: &dyn Fn() -> String) -> Result<Run, String> {
    let n = Rc::new(Cell::new(0));
    let cap = src.len() + 3;
    let m = n.clone();
    let mut v = src;
    v.reverse();
    let s = std::iter::from_fn(move || {
        let x = v.pop();
        if x.is_some() {
            m.set(m.get() + 1);
        }
        x
    });
    guarded(desc, || drive!(s.tokenize_with(t, map), n, cap))
}

/// an item type that callbacks of generated tokenizers can handle
pub trait Chr: 'static + Sized {
    fn mk(c: char, i: usize) -> Self;
    fn ch(&self) -> char;
    fn ix(&self) -> u32;
}
impl Chr for char {
    fn mk(c: char, _: usize) -> char {
        c
    }
    fn ch(&self) -> char {
        *self
    }
    fn ix(&self) -> u32 {
        *self as u32
    }
}
impl Chr for Item {
    fn mk(c: char, i: usize) -> Item {
        Item { c, i }
    }
    fn ch(&self) -> char {
        self.c
    }
    fn ix(&self) -> u32 {
        self.i as u32
    }
}
impl Chr for (usize, char) {
    fn mk(c: char, i: usize) -> Self {
        (i, c)
    }
    fn ch(&self) -> char {
        self.1
    }
    fn ix(&self) -> u32 {
        self.0 as u32
    }
}
impl Chr for Box<(char, u32)> {
    fn mk(c: char, i: usize) -> Self {
        Box::new((c, i as u32))
    }
    fn ch(&self) -> char {
        self.0
    }
    fn ix(&self) -> u32 {
        self.1
    }
}
pub fn callback<C: Chr>(i: usize, s: &str, v: Vec<C>) -> TokW {
    (i, s.chars().map(|c| c as u32).collect(), v.iter().map(|x| x.ix()).collect())
}

/// runs a generated tokenizer and the one built at run time from the same patterns on the same inputs
pub fn pair<C: Chr>(g: usize, j: &J, made: DFATokenizer<TokW, C>, mode: &str, ro: &mut dyn std::io::Write, so: &mut dyn std::io::Write) {
    let mut b = DFATokenizer::<TokW, C>::builder();
    for (i, p) in j.get("w").arr().iter().enumerate() {
        b = b.pattern(p.str(), move |s: &str, v: Vec<C>| callback(i, s, v));
    }
    let rt = b.build().map(|x| x.0).map_err(|e| format!("{:?}", e));
    for s in j.get("in").arr() {
        let src: Vec<u32> = s.arr().iter().map(|x| x.int() as u32).collect();
        let mk = || src.iter().enumerate().map(|(i, c)| C::mk(char::from_u32(*c).unwrap(), i)).collect::<Vec<C>>();
        let d = || format!("macro group={} patterns={} input={:?}", g, j.get("w").dump(), src);
        let one = |t: &DFATokenizer<TokW, C>| {
            let r = run_any(t, mk(), C::ch, &d);
            let (t, e, u, c) = run_json(&r);
            obj! {"g" => J::I(g as i64), "m" => J::s(mode), "s" => J::ints(&src), "t" => t, "e" => e, "u" => u, "c" => c}.dump()
        };
        let a = one(&made);
        let z = match &rt {
            Ok(t) => one(t),
            Err(e) => format!("does not build at run time: {}", e),
        };
        writeln!(ro, "{}", a).unwrap();
        writeln!(so, "{}", obj! {"g" => J::I(g as i64), "o" => J::A(vec![J::S(z), J::S(a)])}.dump()).unwrap();
    }
}
