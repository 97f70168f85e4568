//! Several runs over one tokenizer or parser, driven by a schedule (see spec/Shared.tla).
//! cmd=solo: every run alone on a fresh object: yield points per call and observations.
//! cmd=play: schedules replayed, all those of a group on one object.
use harness::lex::{Item, TokW};
use harness::lr::*;
use harness::obj;
use harness::util::*;
use parser::{LR1Parser, Parse, ParseError, Symbol};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tokenizer::{DFATokenizer, Tokenize};

type Tz = DFATokenizer<TokW, Item>;

enum Job {
    Lex(Box<dyn Iterator<Item = TokW>>),
    Par(&'static P, Vec<T>),
}

#[derive(Default)]
struct Ctx {
    cmds: Vec<i64>,
    at: usize,
    stack: Vec<usize>,
    jobs: Vec<Option<Job>>,
    logs: Vec<Vec<String>>,
    values: Vec<usize>,
    yields: Vec<Vec<usize>>,
    solo: bool,
}
thread_local! { static C: RefCell<Ctx> = RefCell::new(Ctx::default()); }

fn cx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    C.with(|c| f(&mut c.borrow_mut()))
}

/// user code runs here: whatever the schedule says happens now
fn point(what: String) {
    cx(|c| {
        let t = *c.stack.last().unwrap();
        c.logs[t].push(what);
        *c.yields[t].last_mut().unwrap() += 1;
    });
    loop {
        let cmd = cx(|c| {
            let x = c.cmds.get(c.at).copied().unwrap_or(0);
            c.at += 1;
            x
        });
        match cmd {
            0 => return,
            99 => panic!("planned"),
            x => order(x),
        }
    }
}

fn order(x: i64) {
    let i = x.unsigned_abs() as usize - 1;
    if x < 0 {
        let j = cx(|c| c.jobs[i].take());
        drop(j);
    } else {
        enter(i)
    }
}

fn enter(i: usize) {
    let Some(mut job) = cx(|c| {
        let j = c.jobs[i].take();
        if j.is_some() {
            c.stack.push(i);
            c.yields[i].push(0);
        }
        j
    }) else {
        return;
    };
    let depth = cx(|c| c.stack.len());
    let r = catch_unwind(AssertUnwindSafe(|| match job {
        Job::Lex(ref mut it) => {
            let t = it.next();
            let more = t.is_some();
            (format!("{:?}", t), if more { Some(job) } else { None })
        }
        Job::Par(p, v) => {
            let r = Toks { all: v.len(), v }.parse(p);
            let s = match r {
                Ok(v) => format!("ok {}", v.id),
                Err(ParseError::RecoveryRuleNotFound) => "rnf".to_string(),
                Err(ParseError::ErrorInReducer(e)) => format!("red {}", e),
            };
            (s, None)
        }
    }));
    cx(|c| {
        c.stack.truncate(depth - 1);
        match r {
            Ok((s, j)) => {
                c.logs[i].push(s);
                // endless empty tokens: the recording is cut off
                let cut = c.yields[i].len() >= 12 && c.solo || c.yields[i].len() >= 40;
                c.jobs[i] = if cut { None } else { j };
            }
            Err(e) => {
                let s = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                c.logs[i].push(format!("panic {}", s));
            }
        }
    });
}

struct Src {
    v: Vec<u32>,
    k: usize,
}
impl Iterator for Src {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let i = self.k;
        self.k += 1;
        point(format!("pull {}", i));
        self.v.get(i).map(|c| Item { c: char::from_u32(*c).unwrap(), i })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.v.len(), self.v.len().saturating_sub(self.k))
    }
}

struct Toks {
    v: Vec<T>,
    all: usize,
}
impl Iterator for Toks {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        point("pull".into());
        self.v.pop()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.all, self.v.len())
    }
}

fn red(rule: usize, nt: usize, a: &mut [Symbol<&mut V, &T, &[T]>]) -> Result<V, usize> {
    let mut s = format!("call {}", rule);
    for x in a.iter_mut() {
        match x {
            Symbol::NonTerminal(x) => s += &format!(" n{}", std::mem::replace(&mut x.id, 0)),
            Symbol::Terminal(t) => s += &format!(" t{}", t.i),
            Symbol::Error(e) => s += &format!(" e{:?}", e.iter().map(|t| t.i).collect::<Vec<_>>()),
        }
    }
    let (id, long) = cx(|c| {
        let t = *c.stack.last().unwrap();
        c.values[t] += 1;
        (c.values[t], c.values[t] > 400)
    });
    if long {
        return Err(1_000_000_000);
    }
    point(s);
    Ok(V { nt, id })
}

fn tokenizer(w: &[String]) -> Tz {
    let mut b = Tz::builder();
    for (i, p) in w.iter().enumerate() {
        b = b.pattern(p, move |s: &str, v: Vec<Item>| {
            let t = (i, s.chars().map(|c| c as u32).collect::<Vec<u32>>(), v.iter().map(|x| x.i as u32).collect::<Vec<u32>>());
            point(format!("callback {:?}", t));
            t
        });
    }
    b.build().map(|x| x.0).map_err(|e| format!("{:?}", e)).unwrap()
}

enum Obj {
    L(&'static Tz),
    P(&'static P, Num),
}
fn object(j: &J, k: usize) -> Obj {
    if j.has("w") {
        let w: Vec<String> = j.get("w").arr().iter().map(|x| x.str().to_string()).collect();
        Obj::L(Box::leak(Box::new(tokenizer(&w))))
    } else {
        let num = Num::pick(k);
        let p = LR1Parser::<V, T, usize>::new(syntax_with(&Gram::of(j), num, k, red)).0;
        Obj::P(Box::leak(Box::new(p)), num)
    }
}
fn job(o: &Obj, s: &[i64]) -> Job {
    match o {
        Obj::L(t) => Job::Lex(Box::new(Src { v: s.iter().map(|x| *x as u32).collect(), k: 0 }.tokenize_with(*t, |x: &Item| x.c))),
        Obj::P(p, num) => Job::Par(p, s.iter().enumerate().rev().map(|(i, t)| T { k: num.t(*t), i }).collect()),
    }
}

fn start(o: &Obj, ins: &[Vec<i64>], cmds: Vec<i64>, solo: bool) {
    let jobs = ins.iter().map(|s| Some(job(o, s))).collect();
    let n = ins.len();
    cx(|c| *c = Ctx { cmds, at: 0, stack: vec![], jobs, logs: vec![vec![]; n], values: vec![0; n], yields: vec![vec![]; n], solo });
}

fn main() {
    let a = Args::new();
    watchdog(a.num("hang", 20) as u64);
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let rows: Vec<J> = f.lines().map(|l| J::parse(&l.unwrap())).collect();
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let inputs = |j: &J| -> Vec<Vec<i64>> { j.get("in").arr().iter().map(|s| s.arr().iter().map(|x| x.int()).collect()).collect() };
    match a.get("cmd").as_deref() {
        Some("solo") => {
            for (k, j) in rows.iter().enumerate() {
                let (mut ys, mut logs) = (vec![], vec![]);
                for s in inputs(j) {
                    let d = || format!("solo group={} {} input={:?}", k + 1, j.dump(), s);
                    let r = guarded(&d, || {
                        start(&object(j, k), &[s.clone()], vec![], true);
                        while cx(|c| c.jobs[0].is_some()) {
                            enter(0);
                        }
                    });
                    if let Err(e) = r {
                        cx(|c| c.logs = vec![vec![format!("panic {}", e)]]);
                    }
                    cx(|c| {
                        ys.push(J::A(c.yields.pop().unwrap_or_default().iter().map(|x| J::I(*x as i64)).collect()));
                        logs.push(J::A(c.logs[0].iter().map(|x| J::s(x)).collect()));
                    });
                }
                writeln!(o, "{}", obj! {"y" => J::A(ys), "o" => J::A(logs)}.dump()).unwrap();
            }
        }
        Some("play") => {
            let f = std::io::BufReader::new(std::fs::File::open(a.get("sched").unwrap()).unwrap());
            let mut cur = (0, None);
            for l in f.lines() {
                let j = J::parse(&l.unwrap());
                let g = j.get("g").int() as usize;
                let cmds: Vec<i64> = j.get("s").arr().iter().map(|x| x.int()).collect();
                let row = &rows[g - 1];
                let d = || format!("schedule {} over {}", j.dump(), row.dump());
                let r = guarded(&d, || {
                    if cur.0 != g {
                        cur = (g, Some(object(row, g - 1)));
                    }
                    start(cur.1.as_ref().unwrap(), &inputs(row), cmds.clone(), false);
                    while let Some(x) = cx(|c| {
                        let x = c.cmds.get(c.at).copied();
                        c.at += 1;
                        x
                    }) {
                        if x != 0 && x != 99 {
                            order(x);
                        }
                    }
                });
                if let Err(e) = r {
                    cx(|c| c.logs.iter_mut().for_each(|l| l.push(format!("panic {}", e))));
                }
                cx(|c| {
                    let logs = J::A(c.logs.iter().map(|l| J::A(l.iter().map(|x| J::s(x)).collect())).collect());
                    writeln!(o, "{}", obj! {"g" => J::I(g as i64), "s" => J::ints(&cmds), "o" => logs}.dump()).unwrap();
                });
            }
        }
        _ => panic!("cmd"),
    }
}
