//! A tokenizer feeding a parser.  cmd=gen: choose pattern lists, grammars and texts.  cmd=run: run the real code and record.
use harness::gram::*;
use harness::lex::Item;
use harness::lr::*;
use harness::obj;
use harness::re::*;
use harness::util::*;
use parser::Parse;
use std::cell::Cell;
use std::io::{BufRead, Write};
use tokenizer::{DFATokenizer, Tokenize};

fn main() {
    let a = Args::new();
    watchdog(a.num("hang", 20) as u64);
    match a.get("cmd").as_deref() {
        Some("gen") => gen(&a),
        Some("run") => run_cmd(&a),
        _ => panic!("cmd"),
    }
}

/// a lexical family: patterns of symbols, in order, and skipped patterns
fn family(r: &mut Rng) -> (Vec<Re>, Vec<Re>) {
    let ops = |v: &str| v.chars().map(lit).collect::<Vec<_>>();
    match r.below(5) {
        // keywords that are prefixes of each other and of names
        0 => (vec![word("if"), word("ifx"), plus(cls('a', 'z')), lit('='), word("=="), word("===")], vec![plus(lit(' '))]),
        // numbers with optional parts: several characters of lookahead that may have to be given back
        1 => (vec![cat(plus(cls('0', '9')), opt(cat(lit('.'), plus(cls('0', '9'))))), lit('.'), word(".."), lit('-'), word("->"), lit('>')], vec![lit(' '), cats(vec![lit('/'), lit('*'), star(cls('a', 'z')), lit('*'), lit('/')])]),
        2 => (ops("abcdef"), vec![lit('_')]),
        // symbols outside ASCII, and overlapping classes
        3 => (vec![plus(cls('α', 'ω')), lit('λ'), word("λx"), cls('x', 'z'), lit('€'), word("€€€")], vec![alt(lit(' '), lit('\n'))]),
        _ => (vec![word("a"), word("aab"), word("ab"), lit('b'), cat(lit('c'), rep(2, 3, lit('c'))), lit('c')], vec![]),
    }
}

fn gen(a: &Args) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let n = a.num("n", 40);
    let per = a.num("inputs", 14);
    let mut done = 0;
    while done < n {
        let err = r.chance(40);
        let g = if r.chance(50) { Tmpl::gram(&mut r, err) } else { random(&mut r, err) };
        if g.rules.len() > 24 || g.has_err() != err {
            continue;
        }
        let f = Info::new(&g);
        if !f.clean() || f.terms.is_empty() || f.terms.len() > 6 {
            continue;
        }
        let au = match f.automaton(60) {
            Some(x) => x,
            None => continue,
        };
        if au.conflict && !r.chance(25) {
            continue;
        }
        let (pat, skip) = family(&mut r);
        let mut order: Vec<(Re, i64)> = pat.into_iter().enumerate().map(|(i, p)| (p, f.terms.iter().nth(i).copied().unwrap_or(7))).collect();
        if r.chance(40) {
            let k = r.below(order.len());
            let x = order.remove(k);
            order.push(x);
        }
        for s in skip {
            let k = r.below(order.len() + 1);
            order.insert(k, (s, -1));
        }
        let terms: Vec<i64> = f.terms.iter().copied().collect();
        let mut ins = vec![];
        for i in 0..per {
            let b = r.range(2, 30) as i64;
            let mut w = f.sentence(&mut r, b);
            if i % 3 == 1 {
                w = f.mutate(&w, &mut r);
            }
            if w.len() > 40 {
                w.truncate(40);
            }
            let mut t: Vec<u32> = vec![];
            for s in &w {
                let c: Vec<&Re> = order.iter().filter(|x| x.1 == *s).map(|x| &x.0).collect();
                if r.chance(50) {
                    for x in order.iter().filter(|x| x.1 == -1) {
                        if r.chance(60) {
                            x.0.sample(&mut r, &mut t, &mut 6);
                        }
                    }
                }
                if !c.is_empty() {
                    r.pick(&c).sample(&mut r, &mut t, &mut 6);
                }
            }
            if i % 5 == 2 && !t.is_empty() {
                let k = r.below(t.len());
                match r.below(3) {
                    0 => {
                        t.remove(k);
                    }
                    1 => t.insert(k, *r.pick(&['?' as u32, 'b' as u32, '.' as u32, 0x3bb, '9' as u32])),
                    _ => {
                        let x = t[r.below(t.len())];
                        t[k] = x
                    }
                }
            }
            // text that belongs to no token
            if i % 7 >= 4 {
                let k = r.below(t.len() + 1);
                t.insert(k, *r.pick(&['?' as u32, '?' as u32, '.' as u32, '\n' as u32]));
            }
            // garbage after a point of rejection: must not be read
            if i % 4 == 3 {
                for _ in 0..r.range(1, 30) {
                    let s = *r.pick(&terms);
                    let c: Vec<&Re> = order.iter().filter(|x| x.1 == s).map(|x| &x.0).collect();
                    if !c.is_empty() {
                        r.pick(&c).sample(&mut r, &mut t, &mut 6);
                    }
                }
            }
            ins.push(t);
        }
        let j = obj! {"g" => g.rules_json(), "st" => J::I(g.start), "p" => J::A(order.iter().map(|x| x.0.json()).collect()),
            "w" => J::A(order.iter().map(|x| J::S(x.0.render(&mut r, false))).collect()), "map" => J::A(order.iter().map(|x| J::I(x.1)).collect()),
            "in" => J::A(ins.iter().map(|v| J::ints(v)).collect())};
        writeln!(o, "{}", j.dump()).unwrap();
        done += 1;
    }
}

thread_local! { static OFF: Cell<usize> = Cell::new(0); }

fn tokenizer<C: 'static>(j: &J, num: Num) -> Result<DFATokenizer<Option<T>, C>, String> {
    let mut b = DFATokenizer::<Option<T>, C>::builder();
    for (p, s) in j.get("w").arr().iter().zip(j.get("map").arr()) {
        let s = s.int();
        b = b.pattern(p.str(), move |x: &str, v: Vec<C>| {
            let i = OFF.with(|o| o.replace(o.get() + v.len().max(x.chars().count())));
            if s < 0 {
                None
            } else {
                LOG.with(|l| l.borrow_mut().toks += 1);
                Some(T { k: num.t(s), i })
            }
        });
    }
    b.build().map(|x| x.0).map_err(|e| format!("{:?}", e))
}

struct Text {
    v: Vec<u32>,
    k: usize,
}
impl Iterator for Text {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let i = self.k;
        let c = char::from_u32(*self.v.get(i)?).unwrap();
        self.k += 1;
        LOG.with(|l| l.borrow_mut().pulls += 1);
        Some(Item { c, i })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.v.len(), self.v.len() - self.k)
    }
}

fn run_cmd(a: &Args) {
    let mut go = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let mut ro = std::io::BufWriter::new(std::fs::File::create(a.get("runs").unwrap()).unwrap());
    for (gi, l) in std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap()).lines().enumerate() {
        let j = J::parse(&l.unwrap());
        let g = Gram::of(&j);
        let num = Num::pick(gi);
        let d = || format!("build group={} grammar={:?} patterns={}", gi + 1, g, j.get("w").dump());
        let built = guarded(&d, || (build(&g, num, gi).0, tokenizer::<Item>(&j, num), tokenizer::<char>(&j, num)));
        let (p, ti, tc, b) = match built {
            Ok((p, Ok(ti), Ok(tc))) => (Some(p), Some(ti), Some(tc), "ok".to_string()),
            Ok((_, Err(e), _)) | Ok((_, _, Err(e))) => (None, None, None, e),
            Err(e) => (None, None, None, e),
        };
        writeln!(go, "{}", obj! {"g" => g.rules_json(), "st" => J::I(g.start), "p" => J::A(j.get("p").arr().to_vec()), "w" => J::A(j.get("w").arr().to_vec()), "map" => J::A(j.get("map").arr().to_vec()), "b" => J::S(b)}.dump()).unwrap();
        let (p, ti, tc) = match (p, ti, tc) {
            (Some(p), Some(ti), Some(tc)) => (p, ti, tc),
            _ => continue,
        };
        for (n, w) in j.get("in").arr().iter().enumerate() {
            let src: Vec<u32> = w.arr().iter().map(|x| x.int() as u32).collect();
            let cap = 300.max(12 * src.len());
            let one = |fault: usize, chars: bool| {
                LOG.with(|l| *l.borrow_mut() = Log { ev: vec![], pulls: 0, toks: 0, fault, cap });
                OFF.with(|o| o.set(0));
                let d = || format!("compose group={} grammar={:?} patterns={} text={:?}", gi + 1, g, j.get("w").dump(), src);
                let it = Text { v: src.clone(), k: 0 };
                // with and without an adaptor that remembers the end
                let r = match (chars, n / 2 % 2 == 0) {
                    (true, true) => guarded(&d, || it.map(|x| x.c).tokenize(&tc).flatten().parse(&p)),
                    (true, false) => guarded(&d, || it.map(|x| x.c).tokenize(&tc).filter_map(|x| x).parse(&p)),
                    (false, true) => guarded(&d, || it.tokenize_with(&ti, |x: &Item| x.c).flatten().parse(&p)),
                    (false, false) => guarded(&d, || it.tokenize_with(&ti, |x: &Item| x.c).filter_map(|x| x).parse(&p)),
                };
                finish(r)
            };
            let base = one(0, n % 2 == 0);
            let s: Vec<i64> = src.iter().map(|x| *x as i64).collect();
            writeln!(ro, "{}", base.json(gi + 1, &s, 0).dump()).unwrap();
            if n % 6 == 4 && base.ev.len() > 1 {
                let f = 1 + n % base.ev.len();
                writeln!(ro, "{}", one(f, n % 2 == 1).json(gi + 1, &s, f).dump()).unwrap();
            }
        }
    }
}
