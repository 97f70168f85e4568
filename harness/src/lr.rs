//! Builds real parsers from grammars given as data and records what they do.
use crate::obj;
use crate::util::{guarded, hint, J};
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::{Cell, RefCell};

pub const ERR: i64 = -1;
pub const EOI: i64 = -2;

/// symbols: terminals 0..999, nonterminals 1000.., error -1
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Gram {
    pub rules: Vec<(i64, Vec<i64>)>,
    pub start: i64,
}

impl Gram {
    pub fn rules_json(&self) -> J {
        J::A(self.rules.iter().map(|(l, r)| J::A(vec![J::I(*l), J::ints(r)])).collect())
    }
    pub fn of(j: &J) -> Gram {
        Gram { rules: j.get("g").arr().iter().map(|r| (r.arr()[0].int(), r.arr()[1].arr().iter().map(|x| x.int()).collect())).collect(), start: j.get("st").int() }
    }
    pub fn has_err(&self) -> bool {
        self.rules.iter().any(|r| r.1.contains(&ERR))
    }
}

/// How symbols are numbered for the real code: the numbers themselves must not matter.
#[derive(Clone, Copy)]
pub struct Num {
    pub nmul: usize,
    pub nadd: usize,
    pub tmul: usize,
    pub tadd: usize,
    pub flip: bool,
}
impl Num {
    pub fn pick(k: usize) -> Num {
        match k % 6 {
            0 => Num { nmul: 1, nadd: 0, tmul: 1, tadd: 0, flip: false },
            1 => Num { nmul: 1, nadd: 1, tmul: 1, tadd: 3, flip: false },
            2 => Num { nmul: 1, nadd: 0, tmul: 3, tadd: 1, flip: true },
            3 => Num { nmul: 2, nadd: 0, tmul: 1, tadd: 0, flip: false },
            4 => Num { nmul: (1 << 33) + 3, nadd: 255, tmul: (1 << 32) + 1, tadd: 65530, flip: false },
            _ => Num { nmul: 5, nadd: 2, tmul: 7, tadd: 0, flip: true },
        }
    }
    pub fn n(&self, x: i64) -> usize {
        let k = (x - 1000) as usize;
        let k = if self.flip { 999 - k } else { k };
        k * self.nmul + self.nadd
    }
    pub fn t(&self, x: i64) -> usize {
        let k = x as usize;
        let k = if self.flip { 999 - k } else { k };
        k * self.tmul + self.tadd
    }
}

pub struct V {
    pub nt: usize,
    pub id: usize,
}
impl EnumIndex for V {
    fn enum_index(&self) -> usize {
        self.nt
    }
}
pub struct T {
    pub k: usize,
    pub i: usize,
}
impl EnumIndex for T {
    fn enum_index(&self) -> usize {
        self.k
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Arg {
    N(usize),
    T(usize),
    E(Vec<usize>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Ev {
    pub r: usize,
    pub a: Vec<Arg>,
    pub n: usize,
    /// tokens handed over, when a tokenizer is the source
    pub m: usize,
}
pub struct Log {
    pub ev: Vec<Ev>,
    pub pulls: usize,
    pub toks: usize,
    pub fault: usize,
    pub cap: usize,
}
thread_local! {
    pub static LOG: RefCell<Log> = RefCell::new(Log { ev: vec![], pulls: 0, toks: 0, fault: 0, cap: 0 });
    static IN: Cell<usize> = Cell::new(0);
}

/// what every reducer does: write down the call, take the children, hand out a fresh value
pub fn reduce(rule: usize, nt: usize, a: &mut [Symbol<&mut V, &T, &[T]>]) -> Result<V, usize> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let (n, m) = (l.pulls, l.toks);
        let mut v = vec![];
        for s in a.iter_mut() {
            v.push(match s {
                Symbol::NonTerminal(x) => {
                    let id = x.id;
                    x.id = 0;
                    Arg::N(id)
                }
                Symbol::Terminal(t) => Arg::T(t.i),
                Symbol::Error(e) => Arg::E(e.iter().map(|t| t.i).collect()),
            });
        }
        l.ev.push(Ev { r: rule, a: v, n, m });
        let k = l.ev.len();
        if k == l.fault {
            return Err(k);
        }
        if k >= l.cap {
            return Err(1_000_000_000);
        }
        Ok(V { nt, id: k })
    })
}

pub struct Source {
    v: Vec<T>,
    style: usize,
}
impl Iterator for Source {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        LOG.with(|l| l.borrow_mut().pulls += 1);
        self.v.pop()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.style, self.v.len())
    }
}

pub type P = LR1Parser<V, T, usize>;

/// style: which of the public ways of writing rules is used
pub fn syntax(g: &Gram, num: Num, style: usize) -> Syntax<V, T, usize> {
    syntax_with(g, num, style, reduce)
}
pub type Reducer = fn(usize, usize, &mut [Symbol<&mut V, &T, &[T]>]) -> Result<V, usize>;
pub fn syntax_with(g: &Gram, num: Num, style: usize, reducer: Reducer) -> Syntax<V, T, usize> {
    let mut b = Syntax::<V, T, usize>::builder();
    for (i, (l, rhs)) in g.rules.iter().enumerate() {
        let nt = num.n(*l);
        let f = move |a: &mut [Symbol<&mut V, &T, &[T]>]| reducer(i + 1, nt, a);
        let v = |x: i64| V { nt: num.n(x), id: 0 };
        let t = |x: i64| T { k: num.t(x), i: 0 };
        let rule = match (style + i) % 3 {
            0 => {
                let s: Vec<Symbol<usize, usize, ()>> = rhs.iter().map(|x| if *x == ERR { Symbol::Error(()) } else if *x >= 1000 { Symbol::NonTerminal(num.n(*x)) } else { Symbol::Terminal(num.t(*x)) }).collect();
                Rule::new_raw(nt, &s, f)
            }
            1 => {
                let s: Vec<Symbol<V, T, ()>> = rhs.iter().map(|x| if *x == ERR { Symbol::Error(()) } else if *x >= 1000 { Symbol::NonTerminal(v(*x)) } else { Symbol::Terminal(t(*x)) }).collect();
                Rule::new(v(*l), &s, f)
            }
            _ => {
                let mut rb = Rule::<V, T, usize>::builder(v(*l));
                for x in rhs {
                    rb = if *x == ERR { rb.error() } else if *x >= 1000 { rb.non_terminal(v(*x)) } else { rb.terminal(t(*x)) };
                }
                rb.build(f)
            }
        };
        b = b.rule(rule);
    }
    if style % 2 == 0 {
        b.build_raw(num.n(g.start))
    } else {
        b.build(V { nt: num.n(g.start), id: 0 })
    }
}

/// a warning as (kind, rule, rule), rules 1-based as in the specification
pub fn warning(s: &str) -> (String, i64, i64) {
    let num = |t: &str| t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<i64>().unwrap_or(-1) + 1;
    if s.starts_with("ShiftReduce") {
        ("sr".into(), num(&s[s.rfind("reduce:").map_or(0, |x| x + 7)..]), 0)
    } else if s.starts_with("ReduceReduce") {
        let t = &s[s.rfind("actions:").map_or(0, |x| x + 8)..];
        let (a, b) = t.split_once(',').unwrap_or((t, ""));
        ("rr".into(), num(a), num(b))
    } else {
        ("?".into(), 0, 0)
    }
}

pub fn build(g: &Gram, num: Num, style: usize) -> (P, Vec<(String, i64, i64)>) {
    let s = syntax(g, num, style);
    let (p, w) = P::new(s);
    let mut w: Vec<_> = w.iter().map(|w| warning(&format!("{:?}", w))).collect();
    w.sort();
    w.dedup();
    (p, w)
}

#[derive(Clone, PartialEq, Debug)]
pub struct Run {
    pub ev: Vec<Ev>,
    pub end: String,
    pub v: usize,
    pub n: usize,
    pub m: usize,
}

pub fn run(p: &P, num: Num, src: &[i64], fault: usize, cap: usize, desc: &dyn Fn() -> String) -> Run {
    LOG.with(|l| *l.borrow_mut() = Log { ev: vec![], pulls: 0, toks: 0, fault, cap });
    let toks: Vec<T> = src.iter().enumerate().rev().map(|(i, t)| T { k: num.t(*t), i }).collect();
    let style = src.len() + src.iter().take(3).sum::<i64>() as usize;
    let r = guarded(desc, || Source { style, v: toks }.parse(p));
    finish(r)
}

pub fn finish(r: Result<Result<V, ParseError<usize>>, String>) -> Run {
    let (end, v) = match r {
        Ok(Ok(v)) => ("ok".to_string(), v.id),
        Ok(Err(ParseError::RecoveryRuleNotFound)) => ("rnf".to_string(), 0),
        // displaying the error shows the reducer's own message
        Ok(Err(ParseError::ErrorInReducer(e))) if e != 1_000_000_000 && ParseError::ErrorInReducer(e).to_string() != e.to_string() => ("masked".to_string(), e),
        Ok(Err(ParseError::ErrorInReducer(e))) => (if e == 1_000_000_000 { "cap".to_string() } else { "red".to_string() }, e),
        Err(_) => ("panic".to_string(), 0),
    };
    LOG.with(|l| {
        let l = l.borrow();
        Run { ev: l.ev.clone(), end, v, n: l.pulls, m: l.toks }
    })
}

impl Run {
    pub fn json(&self, g: usize, s: &[i64], fault: usize) -> J {
        let ev = self
            .ev
            .iter()
            .map(|e| {
                let k = e.a.iter().map(|x| J::s(match x { Arg::N(_) => "n", Arg::T(_) => "t", Arg::E(_) => "e" })).collect();
                let v = e.a.iter().map(|x| match x { Arg::N(i) => J::ints(&[*i]), Arg::T(i) => J::ints(&[*i]), Arg::E(v) => J::ints(v) }).collect();
                obj! {"r" => J::I(e.r as i64), "k" => J::A(k), "a" => J::A(v), "n" => J::I(e.n as i64), "m" => J::I(e.m as i64)}
            })
            .collect();
        obj! {"g" => J::I(g as i64), "s" => J::ints(s), "f" => J::I(fault as i64), "ev" => J::A(ev), "e" => J::s(&self.end), "v" => J::I(self.v as i64), "n" => J::I(self.n as i64), "m" => J::I(self.m as i64)}
    }
}

/// values and tokens of generated parsers
pub trait Val: EnumIndex {
    fn id(&mut self) -> &mut usize;
}
pub trait Kind: EnumIndex {
    fn i(&self) -> usize;
}

/// what every reducer of a generated parser does
pub fn rec<N: Val, K: Kind>(rule: usize, a: &mut [Symbol<&mut N, &K, &[K]>]) -> Result<usize, usize> {
    let mut v: Vec<&mut Symbol<&mut N, &K, &[K]>> = a.iter_mut().collect();
    rec_v(rule, &mut v)
}
pub fn rec_v<N: Val, K: Kind>(rule: usize, a: &mut [&mut Symbol<&mut N, &K, &[K]>]) -> Result<usize, usize> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let (n, m) = (l.pulls, l.toks);
        let mut v = vec![];
        for s in a.iter_mut() {
            v.push(match &mut **s {
                Symbol::NonTerminal(x) => Arg::N(std::mem::replace(x.id(), 0)),
                Symbol::Terminal(t) => Arg::T(t.i()),
                Symbol::Error(e) => Arg::E(e.iter().map(|t| t.i()).collect()),
            });
        }
        l.ev.push(Ev { r: rule, a: v, n, m });
        let k = l.ev.len();
        if k == l.fault {
            return Err(k);
        }
        if k >= l.cap {
            return Err(1_000_000_000);
        }
        Ok(k)
    })
}

fn run_any<N: Val, K: Kind>(p: &LR1Parser<N, K, usize>, src: Vec<K>, fault: usize, cap: usize, desc: &dyn Fn() -> String) -> Run {
    LOG.with(|l| *l.borrow_mut() = Log { ev: vec![], pulls: 0, toks: 0, fault, cap });
    let mut v = src;
    v.reverse();
    let it = std::iter::from_fn(move || {
        LOG.with(|l| l.borrow_mut().pulls += 1);
        v.pop()
    });
    let r = guarded(desc, || it.parse(p));
    finish(r.map(|r| r.map(|mut v| V { nt: v.enum_index(), id: *v.id() })))
}

/// runs a generated parser and the one built at run time from the same rules on the same inputs
pub fn pair<N: Val + 'static, K: Kind + 'static>(gi: usize, j: &J, made: LR1Parser<N, K, usize>, tk: fn(i64, usize) -> K, nt: fn(i64, usize) -> N, ro: &mut dyn std::io::Write, so: &mut dyn std::io::Write) {
    let g = Gram::of(j);
    let mut b = Syntax::<N, K, usize>::builder();
    for (i, (l, rhs)) in g.rules.iter().enumerate() {
        let s: Vec<Symbol<N, K, ()>> = rhs.iter().map(|x| if *x == ERR { Symbol::Error(()) } else if *x >= 1000 { Symbol::NonTerminal(nt(*x, 0)) } else { Symbol::Terminal(tk(*x, 0)) }).collect();
        let l = *l;
        b = b.rule(Rule::new(nt(l, 0), &s, move |a: &mut [Symbol<&mut N, &K, &[K]>]| rec(i + 1, a).map(|id| nt(l, id))));
    }
    let d = || format!("build macro group={} grammar={:?}", gi, g);
    let s = b.build(nt(g.start, 0));
    let rt = guarded(&d, || LR1Parser::<N, K, usize>::new(s).0);
    for (n, w) in j.get("in").arr().iter().enumerate() {
        let src: Vec<i64> = w.arr().iter().map(|x| x.int()).collect();
        let d = || format!("macro group={} grammar={:?} input={:?}", gi, g, src);
        let toks = || src.iter().enumerate().map(|(i, x)| tk(*x, i)).collect::<Vec<K>>();
        let cap = 300.max(12 * src.len());
        let base = run_any(&made, toks(), 0, cap, &d);
        let faults = if n % 7 == 3 && base.ev.len() > 0 { vec![0, 1 + n % base.ev.len()] } else { vec![0] };
        for f in faults {
            let a = run_any(&made, toks(), f, cap, &d).json(gi, &src, f).dump();
            let z = match &rt {
                Ok(p) => run_any(p, toks(), f, cap, &d).json(gi, &src, f).dump(),
                Err(e) => format!("does not build at run time: {}", e),
            };
            writeln!(ro, "{}", a).unwrap();
            writeln!(so, "{}", obj! {"g" => J::I(gi as i64), "o" => J::A(vec![J::S(z), J::S(a)])}.dump()).unwrap();
        }
    }
}
