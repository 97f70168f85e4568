//! Dumps the tables of real parsers (public fields) in the numbering of the specification. Kept apart so that a change
//! of representation cannot take the behavioural checks with it.
use harness::lr::*;
use harness::obj;
use harness::util::*;
use parser::{Action, TerminalSymbol};
use std::collections::HashMap;
use std::io::{BufRead, Write};

fn main() {
    let a = Args::new();
    watchdog(a.num("hang", 20) as u64);
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    for (gi, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        let g = Gram::of(&j);
        let num = Num::pick(gi);
        let mut tback = HashMap::new();
        let mut nback = HashMap::new();
        for (l, r) in &g.rules {
            nback.insert(num.n(*l), *l);
            for x in r {
                if *x >= 0 && *x < 1000 {
                    tback.insert(num.t(*x), *x);
                }
            }
        }
        let d = || format!("build group={} grammar={:?}", gi + 1, g);
        if let Ok((p, _)) = guarded(&d, || build(&g, num, gi)) {
            let mut order = vec![p.start];
            let mut i = 0;
            let mut rows = vec![];
            while i < order.len() {
                let s = order[i];
                let mut push = |x: usize, order: &mut Vec<usize>| {
                    if let Some(k) = order.iter().position(|y| *y == x) {
                        k as i64 + 1
                    } else {
                        order.push(x);
                        order.len() as i64
                    }
                };
                let mut go = vec![];
                let mut red = vec![];
                let mut acc = 0;
                if let Some(m) = p.action_table.get(&s) {
                    for (t, act) in m {
                        let t = match t {
                            TerminalSymbol::Symbol(t) => *tback.get(t).unwrap_or(&900),
                            TerminalSymbol::Error(_) => ERR,
                            TerminalSymbol::EOI => EOI,
                        };
                        match act {
                            Action::Shift(x) => go.push(J::ints(&[t, push(*x, &mut order)])),
                            Action::Reduce(r) => red.push(J::ints(&[t, *r as i64 + 1])),
                            Action::Accept => acc = if t == EOI { 1 } else { 2 },
                        }
                    }
                }
                if let Some(m) = p.goto_table.get(&s) {
                    for (n, x) in m {
                        go.push(J::ints(&[*nback.get(n).unwrap_or(&999998), push(*x, &mut order)]));
                    }
                }
                let mut err: Vec<i64> = p.error_rules.get(&s).map(|e| e.iter().map(|x| *x as i64 + 1).collect()).unwrap_or_default();
                err.sort();
                rows.push(obj! {"go" => J::A(go), "red" => J::A(red), "acc" => J::I(acc), "err" => J::ints(&err)});
                i += 1;
            }
            writeln!(o, "{}", obj! {"g" => J::I(gi as i64 + 1), "rows" => J::A(rows)}.dump()).unwrap();
        }
    }
}
