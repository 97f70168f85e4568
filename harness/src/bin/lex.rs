//! cmd=gen: choose pattern lists and inputs.  cmd=run: run the real tokenizer on them and record.
use harness::der;
use harness::lex::*;
use harness::obj;
use harness::re::*;
use harness::util::*;
use std::collections::BTreeSet;
use std::io::{BufRead, Write};

fn main() {
    let a = Args::new();
    watchdog(a.num("hang", 20) as u64);
    match a.get("cmd").as_deref() {
        Some("gen") => gen(&a),
        Some("run") => run(&a),
        Some("rebuild") => rebuild(&a),
        _ => panic!("cmd"),
    }
}

fn words(al: &[u32], n: usize) -> Vec<Vec<u32>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for w in &last {
            for c in al {
                let mut v = w.clone();
                v.push(*c);
                nx.push(v);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

fn emit(o: &mut dyn Write, p: &[Re], w: &[String], k: &str, ins: &[Vec<u32>]) {
    let j = obj! {"p" => J::A(p.iter().map(|r| r.json()).collect()), "w" => J::A(w.iter().map(|s| J::s(s)).collect()), "k" => J::s(k), "in" => J::A(ins.iter().map(|v| J::ints(v)).collect())};
    writeln!(o, "{}", j.dump()).unwrap();
}

fn gen(a: &Args) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let fancy = !a.has("plain");
    match a.get("mode").as_deref().unwrap() {
        "enum" => {
            // every expression up to `nodes` nodes, every word up to `len` characters
            let by = enumerate(a.num("nodes", 4), &[lit('a'), lit('b'), cls('a', 'b')], &[(0, 1), (0, -1), (1, -1), (2, 3), (2, 2), (0, 2)]);
            let ws = words(&[97, 98], a.num("len", 4));
            let step = a.num("step", 1);
            let off = r.below(step);
            for (i, e) in by.into_iter().flatten().enumerate() {
                if i > 200 && i % step != off {
                    continue;
                }
                let s = e.render(&mut r, fancy);
                emit(&mut o, &[e], &[s], "enum", &ws);
            }
        }
        "pairs" => {
            // every pair of small expressions in both orders
            let by: Vec<Re> = enumerate(a.num("nodes", 2), &[lit('a'), lit('b'), cls('a', 'b')], &[(0, 1), (1, -1), (2, 2)]).into_iter().flatten().filter(|e| !e.nullable()).collect();
            let mut by = by;
            by.push(word("ab"));
            by.push(word("aab"));
            by.push(cat(star(lit('a')), lit('b')));
            let ws = words(&[97, 98], a.num("len", 4));
            for x in &by {
                for y in &by {
                    let s = [x.render(&mut r, fancy), y.render(&mut r, fancy)];
                    emit(&mut o, &[x.clone(), y.clone()], &s, "pairs", &ws);
                }
            }
        }
        "rand" => {
            let maxlen = a.num("maxlen", 40);
            let cov = a.num("cover", 40);
            let nin = a.num("inputs", 4);
            for _ in 0..a.num("n", 100) {
                let nullable = r.chance(12);
                let (p, k) = rand_patterns(&mut r, nullable);
                let s: Vec<String> = p.iter().map(|e| e.render(&mut r, fancy)).collect();
                let c = der::cover(&p, 40, 14);
                let tail = der::edges(&p, 30);
                let mut ws: Vec<Vec<u32>> = c.words(&tail);
                while ws.len() > cov {
                    let i = r.below(ws.len());
                    ws.swap_remove(i);
                }
                for _ in 0..nin {
                    ws.push(rand_input(&mut r, &p, maxlen));
                }
                let mut seen = BTreeSet::new();
                ws.retain(|w| seen.insert(w.clone()));
                emit(&mut o, &p, &s, k, &ws);
            }
        }
        "stress" => {
            for _ in 0..a.num("n", 1) {
                stress(&mut o, &mut r, a.num("big", 1500), fancy);
            }
        }
        "huge" => huge(&mut o, &mut r, a.num("n", 70000), fancy),
        "fixed" => fixed(&mut o, &mut r, fancy),
        "history" => {
            // texts put together from pieces of the same few long tokens: complete, broken off, repeated, in any order
            for _ in 0..a.num("n", 60) {
                let al: Vec<char> = "abcx".chars().collect();
                let nl = r.range(1, 3);
                let mut p = vec![];
                let mut pieces: Vec<Vec<u32>> = vec![];
                for _ in 0..nl {
                    let h: Vec<char> = (0..r.range(1, 2)).map(|_| *r.pick(&al)).collect();
                    let m: Vec<char> = (0..r.range(1, 2)).map(|_| *r.pick(&al)).collect();
                    let t = *r.pick(&['d', 'b', 'y', 'a']);
                    let w = |v: &[char]| cats(v.iter().map(|c| lit(*c)).collect());
                    let mid = match r.below(3) {
                        0 => plus(w(&m)),
                        1 => star(Re::Cls(vec![(m[0] as u32, m[0] as u32)])),
                        _ => star(w(&m)),
                    };
                    p.push(cats(vec![w(&h), mid, lit(t)]));
                    let u = |v: &[char], k: usize| -> Vec<u32> { v.iter().cycle().take(v.len() * k).map(|c| *c as u32).collect() };
                    for _ in 0..4 {
                        let k = r.range(1, 5);
                        let mut v = u(&h, 1);
                        v.extend(u(&m, k));
                        if r.chance(45) {
                            v.push(t as u32);
                        }
                        pieces.push(v);
                    }
                    pieces.push(u(&m, 2));
                    match r.below(4) {
                        0 => p.push(plus(w(&m))),
                        1 => p.push(w(&h)),
                        2 => p.push(plus(cls('a', 'c'))),
                        _ => {}
                    }
                }
                for c in "abcdxy".chars() {
                    pieces.push(vec![c as u32]);
                    if r.chance(85) {
                        p.push(lit(c));
                    }
                }
                if r.chance(30) {
                    p.push(Re::Cls(vec![(0, MAXC)]));
                }
                for i in (1..p.len()).rev() {
                    let j = r.below(i + 1);
                    if r.chance(50) {
                        p.swap(i, j);
                    }
                }
                let s: Vec<String> = p.iter().map(|e| e.render(&mut r, fancy)).collect();
                let ws: Vec<Vec<u32>> = (0..a.num("inputs", 12))
                    .map(|_| {
                        let few: Vec<Vec<u32>> = (0..r.range(2, 4)).map(|_| r.pick(&pieces).clone()).collect();
                        let mut v: Vec<u32> = vec![];
                        for _ in 0..r.range(3, 14) {
                            v.extend(if r.chance(80) { r.pick(&few) } else { r.pick(&pieces) });
                        }
                        v
                    })
                    .collect();
                emit(&mut o, &p, &s, "history", &ws);
            }
        }
        "text" => {
            let n = a.num("n", 100);
            let mut done = 0;
            while done < n {
                let k = r.range(1, 4);
                let d = r.range(1, 4);
                let s: Vec<String> = (0..k).map(|_| rand_text(&mut r, d)).collect();
                let Some(mut p) = s.iter().map(|x| of_text(x)).collect::<Option<Vec<Re>>>() else { continue };
                let mut s = s;
                if p.iter().map(|e| e.size()).sum::<usize>() > 150 || p.iter().any(|e| { let mut v = vec![]; e.classes(&mut v); v.len() > 90 }) {
                    continue;
                }
                if r.chance(40) {
                    s.push("(?s:.)".into());
                    p.push(of_text("(?s:.)").unwrap());
                }
                let tail = der::edges(&p, 40);
                let mut ws = der::cover(&p, 30, 14).words(&tail);
                while ws.len() > a.num("cover", 30) {
                    let i = r.below(ws.len());
                    ws.swap_remove(i);
                }
                for _ in 0..a.num("inputs", 4) {
                    ws.push(rand_input(&mut r, &p, 30));
                }
                let mut ed = der::edges(&p, 60);
                let cut = r.below(ed.len());
                ed.rotate_left(cut);
                ws.push(ed);
                emit(&mut o, &p, &s, "text", &ws);
                done += 1;
            }
        }
        "uni" => {
            // classes of several hundred ranges, every boundary of every one of them
            let mut ts = vec![r"\w", r"\p{L}", r"\p{Ll}", r"(?i:\p{Lu})", r"\W", r"[^\pL\pN]", r"\p{Greek}", r"[\w&&[^\d]]"];
            while ts.len() > a.num("n", 3).max(1) {
                // \w is the largest and always taken
                let i = r.range(1, ts.len() - 1);
                ts.swap_remove(i);
            }
            for t in ts {
                let s = vec![format!("x{}y", t), format!("{}{{2}}", t), t.to_string(), "(?s:.)".to_string()];
                let p: Vec<Re> = s.iter().map(|x| of_text(x).unwrap()).collect();
                let ed = der::edges(&p, 100000);
                // alone, doubled, framed
                let one: Vec<u32> = ed.iter().flat_map(|c| [*c, 33]).collect();
                let two: Vec<u32> = ed.iter().flat_map(|c| [*c, *c]).collect();
                let three: Vec<u32> = ed.iter().rev().step_by(3).flat_map(|c| [120, *c, 121, 33]).collect();
                let mut ws = vec![];
                for w in [&one, &two, &three] {
                    for v in w.chunks(400) {
                        ws.push(v.to_vec());
                    }
                }
                emit(&mut o, &p, &s, "uni", &ws);
                // every member again with nothing else that could match it: one that is missed ends the stream
                for (k, t) in [t.to_string(), format!("x{}", t)].into_iter().enumerate() {
                    let p = of_text(&t).unwrap();
                    let ws: Vec<Vec<u32>> = ed.iter().filter(|c| der::St::start(&[of_text(&s[2]).unwrap()]).step(**c).accepts()).cloned().collect::<Vec<u32>>()
                        .chunks(200)
                        .map(|v| if k == 0 { v.to_vec() } else { v.iter().flat_map(|c| [120, *c]).collect() })
                        .collect();
                    emit(&mut o, &[p], &[t], "uni", &ws);
                }
            }
        }
        "twins" => {
            for k in 0..a.num("n", 20) {
                twins(&mut o, &mut r, fancy, k);
            }
        }
        "support" => support(&mut o, &mut r, a.num("n", 300)),
        _ => panic!("mode"),
    }
}

/// states that differ far away only: in one of many ranges, or many steps later
fn twins(o: &mut dyn Write, r: &mut Rng, fancy: bool, k: usize) {
    let n = [5, 40, 70, 140, 270][k % 5] + r.below(9);
    let heads = r.range(2, 4);
    let mut all = vec![];
    let mut mark: BTreeSet<u32> = BTreeSet::new();
    let mut p = vec![];
    let one = |c: u32| Re::Cls(vec![(c, c)]);
    if k % 4 == 3 {
        // alike for many steps
        let w = if r.chance(50) { lit('a') } else { word("ab") };
        let mut m = vec![];
        for h in 0..heads as u32 {
            let e = if h == 0 || r.chance(50) { 120 } else { 121 };
            all.push(cats(vec![one(65 + h), rep(n as u32, n as i64, w.clone()), one(e)]));
            for e in [120, 121] {
                let mut v = vec![65 + h];
                rep(n as u32, n as i64, w.clone()).sample(r, &mut v, &mut 10000);
                v.push(e);
                m.push(v);
            }
        }
        p.push(all.into_iter().reduce(|x, y| Re::Alt(Box::new(x), Box::new(y))).unwrap());
        p.push(cls('A', 'Z'));
        p.push(cls('a', 'z'));
        let s: Vec<String> = p.iter().map(|e| e.render(r, fancy)).collect();
        emit(o, &p, &s, "twins", &m);
        return;
    }
    let base: Vec<(u32, u32)> = (0..n as u32).map(|i| (0x1000 + 8 * i, 0x1000 + 8 * i + r.below(4) as u32)).collect();
    let at = match r.below(3) {
        0 => n - 1,
        1 => 0,
        _ => r.below(n),
    };
    mark.extend([base[at].0 - 1, base[at].0, base[at].0 + 1, base[at].1, base[at].1 + 1, base[at].1 + 2, base[0].0, base[n - 1].1, base[n - 1].1 + 1]);
    for h in 0..heads as u32 {
        let mut b = base.clone();
        let i = at;
        match if h == 0 { 9 } else { r.below(5) } {
            0 => {
                b.remove(i);
            }
            1 => b[i].1 += 1,
            2 => b[i].0 += if b[i].1 > b[i].0 { 1 } else { 0 },
            3 => b.push((0x9000 + h, 0x9000 + h)),
            4 => b.insert(0, (0x300 + h, 0x300 + h)),
            _ => {}
        }
        mark.extend([0x9000 + h, 0x300 + h]);
        let c = Re::Cls(b);
        let t = match k % 3 {
            0 => c,
            1 => cat(c, one(0x79)),
            // one of the ranges leads elsewhere
            _ => {
                let mut rest = base.clone();
                let x = rest.remove(i);
                alt(Re::Cls(rest), cat(Re::Cls(vec![x]), one(0x79 + h % 2)))
            }
        };
        all.push(cat(one(65 + h), t));
    }
    if r.chance(60) {
        p.push(all.into_iter().reduce(|x, y| Re::Alt(Box::new(x), Box::new(y))).unwrap());
    } else {
        p = all;
    }
    if r.chance(60) {
        p.push(cls('A', 'Z'));
        p.push(Re::Cls(vec![(0, 64), (91, MAXC)]));
    }
    let mut ws = vec![];
    for h in 0..heads as u32 {
        for m in &mark {
            for t in [None, Some(0x79), Some(0x7a)] {
                let mut v = vec![65 + h, *m];
                v.extend(t);
                ws.push(v);
            }
        }
    }
    let s: Vec<String> = p.iter().map(|e| e.render(r, fancy)).collect();
    emit(o, &p, &s, "twins", &ws);
}

fn num() -> Re {
    let d = || cls('0', '9');
    cat(alts(vec![plus(d()), cats(vec![plus(d()), lit('.'), star(d())]), cats(vec![star(d()), lit('.'), plus(d())])]), opt(cats(vec![Re::Cls(vec![(69, 69), (101, 101)]), opt(Re::Cls(vec![(43, 43), (45, 45)])), plus(d())])))
}

fn fixed(o: &mut dyn Write, r: &mut Rng, fancy: bool) {
    let dot = || Re::Cls(vec![(0, 9), (11, MAXC)]);
    let any = || Re::Cls(vec![(0, MAXC)]);
    let ident = || cat(Re::Cls(vec![(65, 90), (95, 95), (97, 122)]), star(Re::Cls(vec![(48, 57), (65, 90), (95, 95), (97, 122)])));
    let text = |s: &str| s.chars().map(|c| c as u32).collect::<Vec<u32>>();
    let lists: Vec<(Vec<Re>, Vec<&str>)> = vec![
        (vec![num(), lit('+'), lit('-'), lit('*'), lit('/'), lit('('), lit(')'), word("sqrt"), any()], vec!["1+2.5e-3*(4.-.5)", "12e", "1e+", "sqrt sqr", "1.2.3", "..5", "1e5e5", "", "\n", "sqrtsqrt2"]),
        (vec![word("int"), word("long"), ident(), dot()], vec!["int inte longlong long lon int0 _int", "intlong", "i in int", "\nint"]),
        (vec![ident(), alts(vec![cats(vec![lit('0'), alt(cat(Re::Cls(vec![(88, 88), (120, 120)]), plus(Re::Cls(vec![(48, 57), (65, 70), (97, 102)]))), cat(lit('b'), plus(cls('0', '1'))))]), cat(cls('1', '9'), star(cls('0', '9'))), lit('0')]), any()], vec!["let mut test = 0xFF;", "01+0b2+0xg", "0x", "0b", "00x1"]),
        // comments and strings: closing delimiter far away, or missing
        (vec![cats(vec![word("/*"), star(alt(Re::Cls(vec![(0, 41), (43, MAXC)]), cat(plus(lit('*')), Re::Cls(vec![(0, 41), (43, 46), (48, MAXC)])))), plus(lit('*')), lit('/')]), lit('/'), lit('*'), plus(cls('a', 'z')), lit(' ')], vec!["/* abc */ x", "/* abc * / x", "/**/", "/***/", "/*/ */", "/* never closed", "/ * /", "/* a */ b */"]),
        (vec![cats(vec![lit('"'), star(alt(Re::Cls(vec![(0, 33), (35, 91), (93, MAXC)]), cat(lit('\\'), dot()))), lit('"')]), lit('"'), any()], vec!["\"a\\\"b\" c", "\"unterminated", "\"\"\"", "\"\\\\\" x\""]),
        (vec![word("a"), word("ab"), word("abc"), word("abcd"), word("bcde")], vec!["abcdabcde", "abcabcabcdab", "abab", "aabbcc", "abcde"]),
        (vec![rep(3, 3, cls('a', 'c')), rep(2, 5, lit('a')), rep(3, -1, lit('b')), rep(1, 2, lit('c'))], vec!["aaaaaaaaaaabbbbbcccc", "abcabcaab", "aabb", "ccccc"]),
        (vec![cls('\u{3042}', '\u{3093}'), plus(cls('\u{30A2}', '\u{30F3}')), word("\u{6F22}\u{5B57}"), dot()], vec!["\u{3042}\u{30A2}\u{30A4}\u{6F22}\u{5B57}\u{6F22}", "\u{1F600}\u{3042}"]),
        (vec![word("//"), cats(vec![word("//"), star(dot())]), dot(), lit('\n')], vec!["// x\n// y\n", "/\n/", "//"]),
        (vec![opt(lit('a')), lit('b')], vec!["", "a", "ab", "aab", "c"]),
        (vec![star(lit('a')), plus(lit('b'))], vec!["aabb", "", "bba"]),
        (vec![cat(star(word("ab")), opt(lit('a'))), lit('b')], vec!["ababa", "abb", "bb", "aba"]),
    ];
    for (p, ins) in lists {
        for _ in 0..2 {
            let s: Vec<String> = p.iter().map(|e| e.render(r, fancy)).collect();
            let mut ws: Vec<Vec<u32>> = ins.iter().map(|s| text(s)).collect();
            for _ in 0..4 {
                ws.push(rand_input(r, &p, 40));
            }
            let c = der::cover(&p, 30, 16);
            let mut cw = c.words(&der::edges(&p, 30));
            while cw.len() > 60 {
                let i = r.below(cw.len());
                cw.swap_remove(i);
            }
            ws.extend(cw);
            emit(o, &p, &s, "fixed", &ws);
        }
    }
}

fn stress(o: &mut dyn Write, r: &mut Rng, big: usize, fancy: bool) {
    let a = 97u32;
    let b = 98u32;
    let wr = |o: &mut dyn Write, r: &mut Rng, p: Vec<Re>, ins: Vec<Vec<u32>>| {
        let s: Vec<String> = p.iter().map(|e| e.render(r, fancy)).collect();
        emit(o, &p, &s, "stress", &ins);
    };
    // long give-back: only the very end decides
    let mut v = vec![a; big];
    let mut ins = vec![v.clone()];
    v.push(b);
    ins.push(v.clone());
    let mut w = vec![a; 300];
    w.push(99);
    w.extend(vec![a; 40]);
    w.push(b);
    ins.push(w);
    // one quadratic case is enough: keep the input short where every token rescans
    ins[0].truncate(60);
    wr(o, r, vec![lit('a'), cat(star(lit('a')), lit('b'))], ins);
    // long single token
    let n = r.range(big / 2, big);
    wr(o, r, vec![plus(cls('a', 'c')), lit(' ')], vec![(0..n).map(|i| a + (i % 3) as u32).collect(), (0..n).map(|i| if i % 7 == 6 { 32 } else { a + (i % 3) as u32 }).collect()]);
    // many tokens
    let n = r.range(big, big + 200);
    wr(o, r, vec![word("aa"), lit('a'), cats(vec![lit('a'), lit('b'), lit('a'), lit('c')])], vec![(0..n).map(|i| if (i * i + 3 * i) % 5 == 3 { b } else { a }).collect(), (0..n / 2).flat_map(|_| [a, b, a]).collect(), vec![a; n]]);
    // many patterns, the index does not fit in a byte
    let pats: Vec<Re> = (0..300).map(|i| word(&format!("{}{}", (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26) as u8) as char))).chain([cls('a', 'z'), rep(2, 2, cls('a', 'z')), Re::Cls(vec![(0, MAXC)])]).collect();
    let ins: Vec<Vec<u32>> = (0..8)
        .map(|_| {
            let mut v: Vec<u32> = vec![];
            for _ in 0..12 {
                let i = r.below(320) as u32;
                v.extend([97 + i % 26, 97 + i / 26]);
            }
            if r.chance(50) {
                v.push(33);
            }
            v
        })
        .collect();
    wr(o, r, pats, ins);
    // counted repetition with many copies
    let k = r.range(30, 60) as i64;
    wr(o, r, vec![rep(k as u32, k + 5, lit('a')), rep(2, -1, word("ba")), lit('a'), lit('b')], vec![vec![a; k as usize - 1], vec![a; k as usize], vec![a; k as usize + 5], vec![a; k as usize + 6], vec![b, a, b, a, b, a, b]]);
    // numbers beyond a thousand, in every form of counted repetition
    let n = 1020 + r.below(40) as u32;
    for e in [rep(1, n as i64, lit('a')), rep(0, n as i64, lit('a')), rep(n, n as i64, lit('a')), rep(n, -1, lit('a')), rep(n - 3, n as i64, lit('a'))] {
        let m = n as usize;
        wr(o, r, vec![e, lit('b')], vec![vec![a; m - 4], vec![a; m - 3], vec![a; m - 1], vec![a; m], vec![a; m + 2]]);
    }
    // a class of many ranges, with and without single-character gaps
    let mut rs = vec![];
    let mut c = 0x100;
    for _ in 0..300 {
        let w = r.below(3) as u32;
        rs.push((c, c + w));
        c += w + 2 + r.below(2) as u32;
    }
    let all: Vec<u32> = (0x100..c).collect();
    wr(o, r, vec![plus(Re::Cls(rs.clone())), Re::Cls(vec![(0, MAXC)])], vec![all[..200].to_vec(), all[all.len() - 150..].to_vec(), vec![0x100, c - 2]]);
    // one alternation of many words
    let ws: Vec<Re> = (0..120).map(|i| word(&format!("{:x}", i * 37 + 11))).collect();
    wr(o, r, vec![ws.clone().into_iter().reduce(|x, y| Re::Alt(Box::new(x), Box::new(y))).unwrap(), plus(Re::Cls(vec![(48, 57), (97, 102)]))], (0..6).map(|i| format!("{:x}", (i * 17) * 37 + 11 + (i & 1)).chars().map(|c| c as u32).collect()).collect());
    // all of Unicode in ranges
    let mut cuts: Vec<u32> = (0..20).map(|_| loop {
        let c = (r.next() % (MAXC as u64 + 1)) as u32;
        if der::good(c) && c > 0 && der::good(c - 1) {
            break c;
        }
    }).collect();
    cuts.extend([0, 0x80, 0x800, 0x10000, 0xE000]);
    cuts.sort();
    cuts.dedup();
    let mut pats = vec![];
    for i in 0..cuts.len() {
        let hi = if i + 1 < cuts.len() { cuts[i + 1] - 1 } else { MAXC };
        let hi = if der::good(hi) { hi } else { 0xD7FF };
        pats.push(if i % 3 == 0 { plus(Re::Cls(vec![(cuts[i], hi)])) } else { Re::Cls(vec![(cuts[i], hi)]) });
    }
    let ed = der::edges(&pats, 1000);
    let mut ins = vec![ed.clone()];
    for _ in 0..3 {
        let mut e2 = vec![];
        for _ in 0..60 {
            e2.push(*r.pick(&ed));
        }
        ins.push(e2);
    }
    wr(o, r, pats, ins);
}

/// lengths beyond 16 bits: one long token, many tokens, a long give-back
fn huge(o: &mut dyn Write, r: &mut Rng, n: usize, fancy: bool) {
    let (a, b, x) = (97u32, 98u32, 120u32);
    let n = n + r.below(500);
    let p = vec![lit('x'), cats(vec![lit('x'), star(lit('a')), lit('b')]), plus(lit('a')), lit('b')];
    let s: Vec<String> = p.iter().map(|e| e.render(r, fancy)).collect();
    let mut back = vec![b, x];
    back.extend(vec![a; n]);
    let mut long = back.clone();
    long.extend([b, b, x]);
    let many: Vec<u32> = (0..n).map(|i| if i % 3 == 0 { x } else { b }).collect();
    emit(o, &p, &s, "huge", &[long, back, many]);
}

fn run(a: &Args) {
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let mut ro = std::io::BufWriter::new(std::fs::File::create(a.get("runs").unwrap()).unwrap());
    let rebuild = a.num("rebuild", 0);
    for (g, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        let w: Vec<String> = j.get("w").arr().iter().map(|s| s.str().to_string()).collect();
        let ins: Vec<Vec<u32>> = j.get("in").arr().iter().map(|v| v.arr().iter().map(|x| x.int() as u32).collect()).collect();
        let d = || format!("build group={} patterns={:?}", g + 1, w);
        let bw = guarded(&d, || build_with(&w));
        let bc = guarded(&d, || build_chars(&w));
        let mut runs = vec![];
        let (st, warn) = match (&bw, &bc) {
            (Ok(Ok((tw, warn))), Ok(Ok((tc, _)))) => {
                for (i, s) in ins.iter().enumerate() {
                    let d = || format!("run group={} run={} patterns={:?} input={:?}", g + 1, i + 1, w, s);
                    let (m, res) = match (g + i) % 5 {
                        0 | 2 => ("items", run_with(tw, s, &d)),
                        4 if i < 30 => ("items", match build_with(&w) { Ok((t, _)) => run_owned(t, s, &d), Err(e) => Err(e) }),
                        4 => ("items", run_with(tw, s, &d)),
                        _ => ("chars", run_chars(tc, s, &d)),
                    };
                    let (t, e, u, c) = run_json(&res);
                    runs.push(obj! {"g" => J::I(g as i64 + 1), "s" => J::ints(s), "m" => J::s(m), "t" => t, "e" => e, "u" => u, "c" => c});
                }
                for k in 0..rebuild {
                    // same patterns, built again: one of the inputs through the fresh object
                    if ins.is_empty() {
                        break;
                    }
                    let s = &ins[k % ins.len()];
                    let d = || format!("rebuild group={} input={:?}", g + 1, s);
                    if let Ok(Ok((t, _))) = guarded(&d, || build_with(&w)) {
                        let (t, e, u, c) = run_json(&run_with(&t, s, &d));
                        runs.push(obj! {"g" => J::I(g as i64 + 1), "s" => J::ints(s), "m" => J::s("items"), "t" => t, "e" => e, "u" => u, "c" => c});
                    }
                }
                ("ok".to_string(), warn.clone())
            }
            (Ok(Err(e)), _) | (_, Ok(Err(e))) => (format!("error: {}", e), vec![]),
            (Err(e), _) | (_, Err(e)) => (format!("panic: {}", e), vec![]),
        };
        let out = obj! {"p" => j.get("p").clone(), "w" => j.get("w").clone(), "k" => j.get("k").clone(), "b" => J::S(st), "warn" => J::A(warn.iter().map(|x| J::s(x)).collect())};
        writeln!(o, "{}", out.dump()).unwrap();
        for r in runs {
            writeln!(ro, "{}", r.dump()).unwrap();
        }
    }
}

/// Builds every list `times` times and writes the distinct observations (warnings and token streams).
fn rebuild(a: &Args) {
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let times = a.num("times", 20);
    let max = a.num("inputs", 12);
    for (g, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        let w: Vec<String> = j.get("w").arr().iter().map(|s| s.str().to_string()).collect();
        let ins: Vec<Vec<u32>> = j.get("in").arr().iter().map(|v| v.arr().iter().map(|x| x.int() as u32).collect()).take(max).collect();
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for _ in 0..times {
            let d = || format!("build group={} patterns={:?}", g + 1, w);
            let ob = match guarded(&d, || build_with(&w)) {
                Ok(Ok((t, warn))) => {
                    let warn: BTreeSet<String> = warn.into_iter().collect();
                    let mut s = format!("warnings {:?}", warn);
                    for i in &ins {
                        let (t, e, u, c) = run_json(&run_with(&t, i, &d));
                        s += &format!(" on {:?}: {} {} {} {}", i, t.dump(), e.dump(), u.dump(), c.dump());
                    }
                    s
                }
                Ok(Err(_)) => "error".to_string(),
                Err(_) => "panic".to_string(),
            };
            seen.insert(ob);
        }
        writeln!(o, "{}", obj! {"g" => J::I(g as i64 + 1), "o" => J::A(seen.iter().take(4).map(|s| J::s(s)).collect())}.dump()).unwrap();
    }
}

/// Lists with and without invalid or unsupported constructs, nested in all positions.
/// Leaves ["x", text] are rejected constructs, ["v", text] accepted ones.
fn support(o: &mut dyn Write, r: &mut Rng, n: usize) {
    const INVALID: &[&str] = &["a{2,1}", "[b-a]", "(?P<1a>x)", r"\p{Nope}", "(?z)", r"\8", r"\y", "(?=a)", "(?!a)", "a{99999999999}", "(?:*)", "(?:+a)", "(?:|*)", r"\xZZ", r"\u{110000}", r"\u{D800}", "(?ii:a)", "(?P<n>a)(?P<n>b)", "(?<=a)", r"\x{}", "[a-\\d]", "(?P<>a)", "(?-)", "[a&&b]", r"[^\x{0}-\x{10FFFF}]", r"(?-u:\xFF)", "(?-u:.)", r"(?-u:[^a])", r"\p{Script=Nope}", r"\1", r"\141", r"\k<n>", r"(?P=n)", r"\Q", r"\E", r"\G", r"\K", r"\R", r"\X", r"\h", "(?>a)", "(?#c)", "(?|a)", "(?R)", r"\cA", r"[\b]", "[[:nope:]]x[", "a{1 ,2}x{", "[]", "[^]", "a{,2}", "a{}", r"\<", r"\/", "(?<n>a)", "[a&&]", "[[a]", "(?i-i:a)"];
    const TAIL: &[&str] = &["(", ")", "[", "[a", "a{", "a{1", "a{1,", "(?", "(?:", "(?P<", "\\", "[^", "(a|", "a{,2}x)", "(?i"];
    const HEAD: &[&str] = &["*", "+", "?", "{2}", "*a", "|*", "a||+", "(?:a|*)"];
    const UNSUPPORTED: &[&str] = &["^", "$", r"\A", r"\z", r"\b", r"\B", "(?m:^)", "(?m:$)", "(?-u:[a-z])", r"(?-u:\w)", r"(?-u:\b)", r"(?-u:\d)", "(?m)^", "a^", "$a", "^*", r"\b+", "(?:^|a)", "(?-u:[ab])", r"(?-u:\B)"];
    const VALID: &[&str] = &["a", "ab", "[a-c]", "[^a]", ".", "(?s:.)", "(?i:ab)", "(?x: a b )", r"\d", r"\s", r"\D", r"[\d_]", "[[:alpha:]-z]", "[a-z&&[^b]]", "[a-z--m]", "(?P<n>a)", "a*?", "a+?", "a??", "a{2}", "a{2,}", "a{0}", "a{0,0}", "a{2,3}?", r"\x41", r"\u{1F600}", r"\U0001F600", "[[:alpha:]]", "[a~~b]", r"\^", r"\$", r"\.", "[$^]", r"\pN", "()", "", "|", "a|", "(?:)", "(?-u:a)", r"(?-u:\x61)", r"\n\t\r", "(a(b(c)))", "((((a))))", r"\*\+\?", "[*+?(){}|^$.]", "a{10}", r"\p{Greek}", "]", "-", "}", "(?i)a", "(?U)a+", r"[\x{10FFFF}]", r"\x{0}", "漢字", "[あ-ん]", "(?i:ß)", "a**", "(?:a*)*", "(?:a?){3}", "a{1}{2}{3}", "a{ 1}", "(?m:a)", "(?u:a)", r"\-", r"\p{L}{2}", r"\pLL", "[a-]", "[--a]", "[^^]",  r"[\w&&\pN]"];
    let leaf = |k: &str, t: &str| (t.to_string(), J::A(vec![J::s(k), J::s(t)]));
    fn one(t: &str) -> J {
        J::A(vec![J::s("v"), J::s(t)])
    }
    fn wrap(r: &mut Rng, x: (String, J)) -> (String, J) {
        let (s, j) = x;
        match r.below(14) {
            0 => (format!("(?:{})", s), j),
            1 => (format!("(?:{})*", s), J::A(vec![J::s("r"), J::I(0), J::I(-1), j])),
            2 => (format!("(?:{}){{0}}", s), J::A(vec![J::s("r"), J::I(0), J::I(0), j])),
            3 => (format!("({}){{2,3}}", s), J::A(vec![J::s("r"), J::I(2), J::I(3), j])),
            4 => (format!("(?:a|{})", s), J::A(vec![J::s("o"), one("a"), j])),
            5 => (format!("(?:{}|b)", s), J::A(vec![J::s("o"), j, one("b")])),
            6 => (format!("a(?:{})", s), J::A(vec![J::s("s"), one("a"), j])),
            7 => (format!("(?:{})b", s), J::A(vec![J::s("s"), j, one("b")])),
            8 => (format!("(?P<w{}>{})", r.next() % 100000000, s), j),
            9 => (format!("(?:{})+?", s), J::A(vec![J::s("r"), J::I(1), J::I(-1), j])),
            10 => (format!("(?:{})?", s), J::A(vec![J::s("r"), J::I(0), J::I(1), j])),
            11 => (format!("(?:{}){{1,}}", s), J::A(vec![J::s("r"), J::I(1), J::I(-1), j])),
            12 => (format!("(?:ab|cd|(?:{}))", s), J::A(vec![J::s("o"), one("ab"), J::A(vec![J::s("o"), one("cd"), j])])),
            _ => (format!("({})", s), j),
        }
    }
    fn valid(r: &mut Rng) -> (String, J) {
        if r.chance(40) {
            let e = rand_patterns(r, true).0;
            (e[0].render(r, true), e[0].json())
        } else {
            let t = *r.pick(VALID);
            let mut x = (t.to_string(), one(t));
            // wrapping a flag-setting or alternating text in a group keeps it valid
            for _ in 0..r.below(3) {
                x = wrap(r, x);
            }
            x
        }
    }
    let put = |o: &mut dyn Write, v: Vec<(String, J)>| {
        let j = obj! {"p" => J::A(v.iter().map(|x| x.1.clone()).collect()), "w" => J::A(v.iter().map(|x| J::s(&x.0)).collect()), "k" => J::s("support"), "in" => J::A(vec![])};
        writeln!(o, "{}", j.dump()).unwrap();
    };
    put(o, vec![]);
    for t in INVALID.iter().chain(TAIL).chain(HEAD).chain(UNSUPPORTED) {
        put(o, vec![leaf("x", t)]);
    }
    for t in VALID {
        put(o, vec![leaf("v", t)]);
    }
    for n in [60, 150, 250, 251, 400] {
        // regex-syntax refuses more than 250 levels
        for (l, r) in [("(", ")"), ("(?:", ")"), ("(?:a|", ")"), ("(?:a", ")?")] {
            let t = l.repeat(n) + "a" + &r.repeat(n);
            let k = if regex_syntax::Parser::new().parse(&t).is_ok() { "v" } else { "x" };
            put(o, vec![leaf(k, &t)]);
            if k == "v" {
                let t = l.repeat(n) + "$" + &r.repeat(n);
                put(o, vec![leaf("v", "a"), leaf("x", &t)]);
            }
        }
    }
    for t in UNSUPPORTED {
        for k in 0..14 {
            let _ = k;
            let x = wrap(r, leaf("x", t));
            put(o, vec![x]);
        }
    }
    for _ in 0..n {
        let mut v: Vec<(String, J)> = (0..r.range(0, 5)).map(|_| valid(r)).collect();
        let bad = r.chance(65);
        if bad || v.is_empty() {
            let mut x = match r.below(10) {
                0..=2 => leaf("x", *r.pick(INVALID)),
                3 => {
                    let t = *r.pick(TAIL);
                    (format!("ab{}", t), J::A(vec![J::s("s"), one("ab"), J::A(vec![J::s("x"), J::s(t)])]))
                }
                4 => leaf("x", *r.pick(HEAD)),
                _ => leaf("x", *r.pick(UNSUPPORTED)),
            };
            let tail = x.1.dump();
            if !TAIL.iter().chain(HEAD).any(|t| tail.contains(&J::s(t).dump())) {
                for _ in 0..r.below(5) {
                    x = wrap(r, x);
                }
            }
            let i = r.below(v.len() + 1);
            v.insert(i, x);
        }
        put(o, v);
    }
}
