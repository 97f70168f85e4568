//! Dumps the transition tables of real tokenizers (public fields). Kept apart so that a change of the tables'
//! representation cannot take the behavioural checks with it.
use harness::lex::*;
use harness::obj;
use harness::util::*;
use std::io::{BufRead, Write};

fn main() {
    let a = Args::new();
    watchdog(a.num("hang", 20) as u64);
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let times = a.num("times", 1);
    let mut g = 0;
    for l in f.lines() {
        let j = J::parse(&l.unwrap());
        g += 1;
        let w: Vec<String> = j.get("w").arr().iter().map(|s| s.str().to_string()).collect();
        let mut seen: Vec<String> = vec![];
        for _ in 0..times {
            let d = || format!("build group={} patterns={:?}", g, w);
            if let Ok(Ok((t, _))) = guarded(&d, || build_chars(&w)) {
                // canonical numbering: breadth first from the begin state
                let mut order = vec![t.begin];
                let mut i = 0;
                while i < order.len() {
                    for n in t.goto[order[i]].values() {
                        if !order.contains(n) {
                            order.push(*n);
                        }
                    }
                    i += 1;
                }
                let id = |s: usize| order.iter().position(|x| *x == s).unwrap() as i64 + 1;
                let goto = J::A(order.iter().map(|s| J::A(t.goto[*s].iter().map(|(r, n)| J::A(vec![J::I(r.range.start as i64), J::I(r.range.end as i64), J::I(id(*n))])).collect())).collect());
                let end = J::A(order.iter().map(|s| J::I(t.end.get(s).map_or(0, |p| *p as i64 + 1))).collect());
                let out = obj! {"g" => J::I(g), "p" => j.get("p").clone(), "goto" => goto, "end" => end}.dump();
                if !seen.contains(&out) {
                    writeln!(o, "{}", out).unwrap();
                    seen.push(out);
                }
            }
        }
    }
}
