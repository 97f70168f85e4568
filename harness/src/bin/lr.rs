//! cmd=gen: choose grammars and inputs.  cmd=run: run the real parser on them and record.
use harness::gram::*;
use harness::lr::*;
use harness::obj;
use harness::util::*;
use std::collections::BTreeSet;
use std::io::{BufRead, Write};

fn main() {
    let a = Args::new();
    watchdog(a.num("hang", 20) as u64);
    match a.get("cmd").as_deref() {
        Some("gen") => gen(&a),
        Some("run") => run_cmd(&a),
        Some("rebuild") => rebuild(&a),
        _ => panic!("cmd"),
    }
}

fn emit(o: &mut dyn Write, g: &Gram, k: &str, ins: &[Vec<i64>]) {
    let j = obj! {"g" => g.rules_json(), "st" => J::I(g.start), "k" => J::s(k), "in" => J::A(ins.iter().map(|v| J::ints(v)).collect())};
    writeln!(o, "{}", j.dump()).unwrap();
}

fn choose(r: &mut Rng, mut v: Vec<Vec<i64>>, n: usize) -> Vec<Vec<i64>> {
    while v.len() > n {
        let i = r.below(v.len());
        v.swap_remove(i);
    }
    let mut seen = BTreeSet::new();
    v.retain(|w| seen.insert(w.clone()));
    v
}

/// inputs for one grammar: state cover, short words, sentences and damaged sentences
fn inputs(r: &mut Rng, f: &Info, au: &Auto, cov: usize, nw: usize, nin: usize, budget: i64) -> Vec<Vec<i64>> {
    let c = f.cover(au, r, false);
    let mut ws = choose(r, c, cov);
    let short = f.words(5, 400);
    ws.extend(choose(r, short, nw));
    for _ in 0..nin {
        let b = r.range(2, budget as usize) as i64;
        let s = f.sentence(r, b);
        if s.len() > 60 {
            continue;
        }
        ws.push(f.mutate(&s, r));
        ws.push(s);
    }
    let mut seen = BTreeSet::new();
    ws.retain(|w| seen.insert(w.clone()));
    ws
}

fn gen(a: &Args) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let err = a.has("err");
    // conf: none = conflict-free grammars only, only = conflicting grammars only
    let conf = a.get("conf").unwrap_or("any".into());
    let (cov, nw, nin) = (a.num("cover", 40), a.num("words", 30), a.num("inputs", 4));
    let want = |c: bool| conf == "any" || (conf == "none") != c;
    match a.get("mode").as_deref().unwrap() {
        "rand" => {
            let n = a.num("n", 100);
            let mut done = 0;
            let mut seen = BTreeSet::new();
            let mut tries = 0;
            while done < n && tries < n * 400 {
                tries += 1;
                let tm = r.chance(if conf == "only" { 20 } else { 50 });
                let g = if tm { Tmpl::gram(&mut r, err) } else { random(&mut r, err) };
                if g.rules.len() > 24 || g.has_err() != err || !seen.insert(g.clone()) {
                    continue;
                }
                let f = Info::new(&g);
                if !f.clean() || f.terms.is_empty() {
                    continue;
                }
                if let Some(au) = f.automaton(a.num("maxstates", 70)) {
                    if want(au.conflict) {
                        let ws = inputs(&mut r, &f, &au, cov, nw, nin, 30);
                        emit(&mut o, &g, if tm { "tmpl" } else { "rand" }, &ws);
                        done += 1;
                    }
                }
            }
        }
        "tiny" => {
            // every grammar with two nonterminals (one or two rules each, right sides up to two symbols), thinned by step
            let syms: Vec<i64> = if err { vec![1000, 1001, 0, 1, ERR] } else { vec![1000, 1001, 0, 1] };
            let mut rhs: Vec<Vec<i64>> = vec![vec![]];
            for x in &syms {
                rhs.push(vec![*x]);
            }
            for x in &syms {
                for y in &syms {
                    rhs.push(vec![*x, *y]);
                }
            }
            let mut sets = vec![];
            for i in 0..rhs.len() {
                sets.push(vec![i]);
                for j in 0..rhs.len() {
                    if i != j {
                        sets.push(vec![i, j]);
                    }
                }
            }
            let step = a.num("step", 500);
            let off = r.below(step);
            let max = a.num("n", 1_000_000);
            let mut k = 0;
            let mut done = 0;
            let mut idx: Vec<usize> = (0..sets.len() * sets.len()).filter(|i| i % step == off).collect();
            for i in (1..idx.len()).rev() {
                let j = r.below(i + 1);
                idx.swap(i, j);
            }
            for id in idx {
                if done >= max {
                    break;
                }
                let (x, y) = (&sets[id / sets.len()], &sets[id % sets.len()]);
                let mut rules: Vec<(i64, Vec<i64>)> = x.iter().map(|i| (1000, rhs[*i].clone())).collect();
                rules.extend(y.iter().map(|i| (1001, rhs[*i].clone())));
                let g = Gram { rules, start: 1000 };
                let f = Info::new(&g);
                if !f.clean() || g.has_err() != err {
                    continue;
                }
                if let Some(au) = f.automaton(60) {
                    if want(au.conflict) {
                        k += 1;
                        let mut ws = f.words(a.num("len", 4), 10000);
                        if f.terms.is_empty() {
                            ws.push(vec![0]);
                        }
                        ws.push(vec![7]);
                        ws.push(vec![0, 7]);
                        emit(&mut o, &g, "tiny", &ws);
                        done += 1;
                    }
                }
            }
            let _ = k;
        }
        "nest" => {
            let n = a.num("n", 100);
            let (ring, alts, chain, rival) = (a.has("ring"), a.has("alts"), a.has("chain"), a.has("rival"));
            let mut done = 0;
            let mut seen = BTreeSet::new();
            while done < n {
                let ring = ring && r.chance(90);
                let g = if chain {
                    chains(&mut r, err)
                } else if rival {
                    rivals(&mut r, err)
                } else if alts {
                    alternatives(&mut r)
                } else if ring { rings(&mut r) } else { nested(&mut r) };
                if !(ring || alts || chain || rival) && g.rules.iter().filter(|x| x.1.contains(&ERR)).count() < 3 || !seen.insert(g.clone()) {
                    continue;
                }
                let f = Info::new(&g);
                if !f.clean() || f.terms.len() < if rival { 1 } else { 2 } || (chain || rival) && g.has_err() != err {
                    continue;
                }
                if let Some(au) = f.automaton(90) {
                    if conf == "any" && au.conflict && !r.chance(3) || !want(au.conflict) {
                        continue;
                    }
                    let mut ws = vec![];
                    if ring || rival {
                        let short = f.words(4, 3000);
                        ws.extend(choose(&mut r, short, a.num("words", 60)));
                    }
                    for i in 0..a.num("inputs", 40) {
                        let b = r.range(2, 20) as i64;
                        let mut w = f.sentence(&mut r, b);
                        if w.len() > 25 {
                            w.truncate(25);
                        }
                        for _ in 0..i % 4 {
                            w = f.mutate(&w, &mut r);
                        }
                        if alts && i % 3 == 0 {
                            // every now and then a token that fits nowhere
                            w = (0..r.range(3, 14)).map(|_| if r.chance(40) { 90 } else { *r.pick(&f.terms) }).collect();
                        }
                        if i % 9 == 0 {
                            w = (0..r.range(1, 9)).map(|_| *r.pick(&f.terms)).collect();
                        }
                        ws.push(w);
                    }
                    let c = f.cover(&au, &mut r, false);
                    ws.extend(choose(&mut r, c, 8));
                    let mut sn = BTreeSet::new();
                    ws.retain(|w| sn.insert(w.clone()));
                    emit(&mut o, &g, "nest", &ws);
                    done += 1;
                }
            }
        }
        "fixed" => {
            for (s, ins) in curated() {
                let g = text(s);
                let f = Info::new(&g);
                assert!(f.clean(), "{}", s);
                let au = f.automaton(2000).unwrap();
                if g.has_err() != err || !want(au.conflict) {
                    continue;
                }
                let mut ws = inputs(&mut r, &f, &au, a.num("cover", 150), a.num("words", 60), nin.max(if err { 40 } else { 10 }), 40);
                for w in ins {
                    ws.push(w.to_vec());
                }
                emit(&mut o, &g, "fixed", &ws);
            }
        }
        "witness" => {
            // words along given symbol paths, for confirming table differences on the real parser
            let grams: Vec<J> = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap()).lines().map(|l| J::parse(&l.unwrap())).collect();
            for l in std::io::BufReader::new(std::fs::File::open(a.get("paths").unwrap()).unwrap()).lines() {
                let j = J::parse(&l.unwrap());
                let gj = &grams[j.get("g").int() as usize - 1];
                let g = Gram::of(gj);
                let f = Info::new(&g);
                let path: Vec<i64> = j.get("path").arr().iter().map(|x| x.int()).collect();
                let mut ws = vec![];
                for k in 0..6 {
                    let mut w = vec![];
                    f.expand(&path, &mut r, &mut (k * 3), &mut w);
                    for t in &f.terms {
                        let mut v = w.clone();
                        v.push(*t);
                        ws.push(v.clone());
                        for u in &f.terms {
                            let mut x = v.clone();
                            x.push(*u);
                            ws.push(x);
                        }
                    }
                    ws.push(w);
                }
                if let Some(au) = f.automaton(2000) {
                    ws.extend(f.cover(&au, &mut r, true));
                    for _ in 0..60 {
                        let s = f.sentence(&mut r, 40);
                        ws.push(f.mutate(&s, &mut r));
                        ws.push(s);
                    }
                }
                emit(&mut o, &g, "witness", &choose(&mut r, ws, 4000));
            }
        }
        "deep" => deep(&mut o, a.num("n", 70000), err),
        "huge" => huge(&mut o, &mut r, a.num("n", 70000), err),
        "big" => big(&mut o, &mut r, a.num("big", 300), err),
        _ => panic!("mode"),
    }
}

/// textbook and awkward grammars; extra inputs by terminal number in order of appearance
fn curated() -> Vec<(&'static str, Vec<&'static [i64]>)> {
    vec![
        ("E -> E + T | E - T | T ; T -> T * F | T / F | F ; F -> i | ( E ) | - F | + F", vec![]),
        ("S -> L = R | R ; L -> * R | i ; R -> L", vec![]),
        // LR(1) but not LALR(1)
        ("S -> a E a | b E b | a F b | b F a ; E -> e ; F -> e", vec![]),
        ("S -> a A d | b B d | a B e | b A e ; A -> c ; B -> c", vec![]),
        ("S -> a X c | a Y d | b X d | b Y c ; X -> e X | e ; Y -> e Y | e", vec![]),
        // LALR but not SLR, nullable chains, hidden recursion
        ("S -> A a A b | B b B a ; A -> ; B ->", vec![]),
        ("S -> A B C d ; A -> a | ; B -> b | ; C -> c |", vec![]),
        ("S -> A S b | x ; A ->", vec![]),
        ("S -> A B | c ; A -> a A | ; B -> b S |", vec![]),
        ("S -> X Y Z ; X -> Y ; Y -> Z Z ; Z -> | z", vec![]),
        ("S -> N N N x ; N ->", vec![]),
        ("S -> a S a | b", vec![]),
        ("S -> a S b |", vec![]),
        ("S -> S S2 | ; S2 -> ( S )", vec![]),
        ("S -> S a | ", vec![]),
        ("S -> a S | ", vec![]),
        ("L -> L , I | I ; I -> x | [ L ] | [ ]", vec![]),
        ("S -> S ; S -> a", vec![]),
        ("S -> A ; A -> B ; B -> C ; C -> x | y C", vec![]),
        ("P -> D St ; D -> D d | ; St -> St s e | ", vec![]),
        ("J -> O | A | v ; O -> { } | { M } ; M -> R | M , R ; R -> k : J ; A -> [ ] | [ X ] ; X -> J | X , J", vec![]),
        ("B -> B or C | C ; C -> C and N | N ; N -> not N | ( B ) | t | f", vec![]),
        ("S -> i = E | c ( A ) ; A -> | E | A2 , E ; A2 -> E | A2 , E ; E -> i | n", vec![]),
        ("T -> a T2 ; T2 -> b T3 | ; T3 -> c T | d", vec![]),
        // the same right side reached by several rules with different lookahead
        ("S -> u A x | u B y | v A y | v B x | w A | w B z ; A -> p q ; B -> p q", vec![]),
        ("S -> A | B ; A -> x A2 1 ; B -> x B2 2 ; A2 -> y A2 | ; B2 -> y B2 |", vec![]),
        ("Q -> s I f T W ; I -> i | I , i ; T -> t ; W -> | w C ; C -> i e n | C a C2 ; C2 -> i e n", vec![]),
        // rule declaration order mixed up
        ("C -> D ; D -> D x | y E ; E -> | z C w", vec![]),
        // a recovery goes on only with productions it began with
        ("S -> A | B ; A -> ERR a X Y d ; X -> A | C ; B -> ERR b ; C -> ERR c ; Y -> ERR e | y f", vec![&[7, 0, 7, 3, 5, 7, 4, 1], &[7, 0, 7, 3, 5, 6, 1], &[7, 0, 7, 0, 7, 3, 5, 2, 4, 1]]),
        ("S -> A | s ; A -> ERR x | ERR y ERR A C w ; C -> ERR v | c", vec![&[0, 2, 0, 1, 0, 5, 3], &[0, 2, 0, 1, 4, 3], &[0, 2, 0, 2, 0, 1, 5, 5, 3], &[0, 2, 0, 1, 0, 5, 0, 1], &[0, 2, 0, 1, 0, 2, 0, 1, 5, 3], &[2, 2, 5, 1, 3, 5, 3, 3]]),
        ("S -> A C s ; A -> ERR x | ERR y ERR A ; C -> ERR c | ERR d ERR C", vec![]),
        ("S -> A | B | C | D ; A -> ERR a ERR x ; B -> ERR b ERR x ; C -> ERR c ERR x ; D -> ERR d E ; E -> e | ERR f", vec![&[1, 0, 0, 1], &[1, 2, 2, 1], &[1, 3, 1, 1], &[1, 4, 1, 5], &[1, 4, 1, 6]]),
        // conflicts
        ("S -> if S | if S else S | x", vec![]),
        ("E -> E + E | E * E | i", vec![]),
        ("E -> E + E | E - E | E * E | ( E ) | - E | i", vec![]),
        ("S -> A | B ; A -> a ; B -> a", vec![]),
        ("S -> B | A ; A -> a ; B -> a", vec![]),
        ("S -> A x | B x | C x ; C -> a ; B -> a ; A -> a", vec![]),
        ("S -> A | B | C ; C -> a b ; A -> a b ; B -> a b", vec![]),
        ("S -> S | a", vec![]),
        ("S -> S S | a |", vec![]),
        ("S -> S S | a", vec![]),
        ("S -> A S | b ; A -> | a", vec![]),
        ("S -> a S b S | b S a S |", vec![]),
        ("S -> A A ; A -> a | a a", vec![]),
        ("S -> I | O ; I -> if e S | if e S else S ; O -> o", vec![]),
        ("T -> p I | p J ; I -> x ; J -> x ; K -> q ; T -> K K2 ; K2 -> | q", vec![]),
        ("S -> a A | a B | A c ; A -> d ; B -> d", vec![]),
        ("S -> x A y | x B ; A -> z ; B -> z y | z", vec![]),
        ("S -> E ; E -> E o E | E o E E2 | n ; E2 -> n", vec![]),
        ("S -> A B ; A -> a A | ; B -> a B | b", vec![]),
        ("S -> L M ; L -> x | L x ; M -> x M |", vec![]),
        ("W -> A W | ; A -> a | B ; B -> a", vec![]),
        // error productions
        ("P -> P S | ; S -> i = E ; S -> ERR end ; E -> E + i | i", vec![]),
        ("P -> P S | ; S -> E end | { P } | ERR end ; E -> E + T | T ; T -> i | ( E ) | ( ERR )", vec![]),
        ("P -> S | P S ; S -> x end | ERR end", vec![]),
        ("L -> L , I | I ; I -> x | ERR", vec![]),
        ("A -> ERR A | x", vec![&[1, 1, 0], &[1, 0], &[1, 1], &[]]),
        ("S -> A a | B b ; A -> ERR A | x ; B -> ERR C | y ; C -> ERR D | y ; D -> ERR B | y", vec![&[], &[4], &[4, 4], &[4, 0, 1], &[4, 2], &[0, 4, 0, 1]]),
        ("S -> ERR", vec![&[], &[0], &[0, 1]]),
        ("S -> a | ERR", vec![&[]]),
        ("S -> a S | ERR | b", vec![]),
        ("S -> ( L ) ; L -> L E | ; E -> x | ERR y", vec![]),
        ("S -> ( L ) | ERR ; L -> L E | ; E -> x | ( ERR )", vec![]),
        ("S -> L e | ERR f ; L -> L I | ; I -> x s | ERR s", vec![]),
        ("S -> P y e | ERR e ; P -> A x ; A ->", vec![]),
        ("S -> L d k | ERR e ; L -> ERR s", vec![]),
        ("S -> L d k | ERR e ; L -> ERR s | L ERR t", vec![]),
        ("S -> A ERR B | c ; A -> a A | ; B -> b | d B", vec![]),
        ("S -> ERR ERR x | y", vec![]),
        ("S -> ERR A ; A -> ERR x | y", vec![]),
        ("S -> N ERR ; N ->", vec![]),
        ("S -> N a ERR b | N c ; N ->", vec![]),
        ("B -> { C } | { ERR } ; C -> B C | s end C | ERR end C |", vec![]),
        ("S -> x ( E ) end | x ERR end ; E -> E + n | n | ERR", vec![]),
        ("S -> A B C ; A -> a | ERR 1 ; B -> b | ERR 2 ; C -> c | ERR 3", vec![]),
        ("S -> D end | S D end | ERR end ; D -> t V | t ERR ; V -> i | V , i", vec![]),
        ("F -> f ( A ) { B } | f ERR { B } ; A -> | i ; B -> B s end | B ERR end |", vec![]),
        ("S -> x ERR", vec![]),
        ("S -> x ERR y ERR z | w", vec![]),
        ("S -> a A z ; A -> b B y | ERR y ; B -> c x | ERR x", vec![]),
        ("E -> E + T | T | ERR + T ; T -> n | ( E ) | ( ERR )", vec![]),
        ("M -> R | M nl R ; R -> C | R , C ; C -> v | ERR", vec![]),
        ("S -> U | V ; U -> p ERR q | p r ; V -> s ERR t | s r", vec![]),
        // error productions and conflicts
        ("E -> E + E | i | ERR", vec![]),
        ("S -> if S | if S else S | x | if ERR", vec![]),
        ("S -> A | B ; A -> ERR x ; B -> ERR x | y", vec![]),
        ("S -> A | B ; A -> ERR x | a ; B -> ERR y | b", vec![]),
    ]
}

/// lengths beyond 16 bits, depths beyond 12
/// families of inputs of growing depth: each in a small, a slightly larger and a very large size
fn deep(o: &mut dyn Write, n: usize, err: bool) {
    let rep = |v: &[i64], n: usize| v.repeat(n);
    let sizes = [30, 40, n];
    let mut fam = |s: &str, fs: &[&dyn Fn(usize) -> Vec<i64>]| {
        let g = text(s);
        assert!(Info::new(&g).clean(), "{}", s);
        let ws: Vec<Vec<i64>> = fs.iter().flat_map(|f| sizes.iter().map(move |n| f(*n))).collect();
        emit(o, &g, "deep", &ws);
    };
    if !err {
        // ( 0, ) 1, x 2
        fam("S -> ( S ) | x", &[
            &|n| [rep(&[0], n), vec![2], rep(&[1], n)].concat(),
            &|n| rep(&[0], n),
            &|n| [rep(&[0], n), vec![1]].concat(),
            &|n| [rep(&[0], n), vec![2], rep(&[1], n - 1)].concat(),
            &|n| [rep(&[0], n), vec![2], rep(&[1], n + 1)].concat(),
        ]);
        fam("S -> a S |", &[&|n| rep(&[0], n), &|n| [rep(&[0], n), vec![9]].concat()]);
        // + 0, x 1, ( 2, ) 3
        fam("E -> E + T | T ; T -> x | ( E )", &[
            &|n| [rep(&[2], n), vec![1], rep(&[0, 1, 3], n)].concat(),
            &|n| [rep(&[1, 0, 2], n), vec![1], rep(&[3], n)].concat(),
            &|n| [rep(&[1, 0, 2], n), vec![1, 1]].concat(),
        ]);
        fam("S -> A S | ; A -> B ; B -> a", &[&|n| rep(&[0], n)]);
    } else {
        // ( 0, ) 1, x 2, e 3
        fam("S -> ( S ) | x | ERR e", &[
            &|n| [rep(&[0], n), vec![3], rep(&[1], n)].concat(),
            &|n| [rep(&[0], n), vec![1, 2, 3], rep(&[1], n)].concat(),
            &|n| rep(&[0], n),
            &|n| [rep(&[0], n), vec![2], rep(&[1], n - 1)].concat(),
            &|n| [rep(&[0], n), vec![2], rep(&[1], n), vec![3]].concat(),
        ]);
        fam("S -> ( S ) | x | ( ERR )", &[
            &|n| rep(&[0], n).into_iter().chain(rep(&[1], n)).collect(),
            &|n| [rep(&[0], n), vec![2, 2], rep(&[1], n)].concat(),
            &|n| [rep(&[0], n), vec![2]].concat(),
        ]);
        // x 0, e 1
        fam("P -> S P | ; S -> x e | ERR e", &[&|n| rep(&[0, 1], n), &|n| rep(&[0, 0, 1], n), &|n| [rep(&[0, 1], n), vec![0]].concat()]);
        // e 0, x 1
        fam("S -> P e | ERR e ; P -> x P | x", &[&|n| [rep(&[1], n), vec![0]].concat(), &|n| [rep(&[1], n), vec![2, 0]].concat(), &|n| [rep(&[1], n), vec![2, 1]].concat()]);
        fam("S -> a S b | ERR b", &[&|n| [rep(&[0], n), rep(&[1], n + 1)].concat(), &|n| [rep(&[0], n), vec![2], rep(&[1], n + 1)].concat(), &|n| [rep(&[0], n), rep(&[1], n - 1)].concat()]);
    }
}

fn huge(o: &mut dyn Write, r: &mut Rng, n: usize, err: bool) {
    let n = n + r.below(500);
    if err {
        // terminals in order of appearance: x 0, e 1, y 2
        let g = text("P -> P S | ; S -> x e | ERR e");
        let mut v = vec![0, 1, 2];
        v.extend((0..n as i64).map(|i| if i % 5 < 2 { 0 } else { 2 }));
        v.extend([1, 0, 1, 2, 1]);
        emit(o, &g, "huge", &[v]);
        // an error that takes back everything there was
        let g = text("S -> P e | ERR e | b Q e | b ERR e f ; P -> P x | x ; Q -> x Q |");
        // e 0, b 1, f 2, x 3
        let mut ws = vec![];
        for n in [20, 70, 130, 260, 520, 1040, 4200] {
            let x = vec![3; n];
            ws.push([&x[..], &[2, 0]].concat());
            ws.push([&x[..], &[2, 3, 3, 2, 0]].concat());
            ws.push([&[1], &x[..], &[2, 0, 2]].concat());
            ws.push([&[1], &x[..], &[2, 3, 1, 0, 2]].concat());
        }
        emit(o, &g, "huge", &ws);
        let g = text("L -> L S | S ; S -> i ( A ) d | i ERR d ; A -> A , i | i");
        // i 0, ( 1, ) 2, d 3, "," 4
        let mut v = vec![];
        for k in 0..60 {
            v.extend([0, 1, 0]);
            for _ in 0..(k * 7) % 90 {
                v.extend([4, 0]);
            }
            v.extend(if k % 3 == 1 { vec![2, 3] } else { vec![0, 1, 3] });
        }
        emit(o, &g, "huge", &[v]);
        let g = text("S -> ( S ) | x | ERR e");
        let d = 4200 + r.below(100);
        let mut v = vec![0; d];
        v.extend([2, 2, 1, 1, 3]);
        emit(o, &g, "huge", &[v]);
        return;
    }
    let g = text("S -> S a | S b | ");
    let v: Vec<i64> = (0..n as i64).map(|i| (i * i + i / 3) % 2).collect();
    emit(o, &g, "huge", &[v]);
    let g = text("S -> a S b | c");
    let d = 4200 + r.below(100);
    let mut v = vec![0; d];
    v.push(2);
    v.extend(vec![1; d]);
    let mut w = v.clone();
    w.pop();
    emit(o, &g, "huge", &[v, w]);
}

fn big(o: &mut dyn Write, r: &mut Rng, n: usize, err: bool) {
    if err {
        // many broken statements in a row, long garbage
        let g = text("P -> P S | ; S -> i = E end | { P } | ERR end ; E -> E + T | T ; T -> i | ( E ) | ( ERR )");
        let f = Info::new(&g);
        let mut ins = vec![];
        for k in 0..4 {
            let mut v = vec![];
            for i in 0..n / 4 {
                match (i + k) % 4 {
                    0 => v.extend([0, 1, 0, 2]),
                    1 => v.extend([0, 0, 1, 2]),
                    2 => v.extend((0..r.below(12)).map(|_| *r.pick(&f.terms))),
                    _ => v.extend([2]),
                }
            }
            ins.push(v);
        }
        emit(o, &g, "big", &ins);
        let g = text("S -> ( S ) | x | ( ERR )");
        let d = n.min(120);
        let mut v = vec![0; d];
        v.push(0);
        v.extend(vec![1; d]);
        let mut w = vec![0; d];
        w.extend(vec![1; d / 2]);
        emit(o, &g, "big", &[v, w]);
        numbers(o, r, err);
        return;
    }
    // long inputs
    let g = text("E -> E + T | T ; T -> T * F | F ; F -> i | ( E )");
    let mut v = vec![2];
    for _ in 0..n {
        v.push(if r.chance(50) { 0 } else { 1 });
        v.push(2);
    }
    let mut w = v.clone();
    w.push(3);
    emit(o, &g, "big", &[v, w]);
    // deep stacks
    let g = text("S -> a S b | c");
    let d = n / 2;
    let mut v = vec![0; d];
    v.push(2);
    v.extend(vec![1; d]);
    let mut w = v.clone();
    w.push(1);
    let mut x = v.clone();
    x.pop();
    emit(o, &g, "big", &[v, w, x]);
    let g = text("S -> a S |");
    emit(o, &g, "big", &[vec![0; d], vec![0, 0, 1]]);
    // many terminals and rules: numbers above 256
    let mut rules: Vec<(i64, Vec<i64>)> = vec![(1000, vec![1000, 301, 1001, 302]), (1000, vec![])];
    for i in 0..300 {
        rules.push((1001, if i % 3 == 0 { vec![i, 1002] } else { vec![i] }));
    }
    rules.push((1002, vec![]));
    rules.push((1002, vec![300]));
    let g = Gram { rules, start: 1000 };
    let mut ins = vec![];
    for k in 0..8 {
        let mut v = vec![];
        for _ in 0..r.range(5, 20) {
            let t = r.below(300) as i64;
            v.extend([301, t]);
            if t % 3 == 0 && r.chance(50) {
                v.push(300);
            }
            v.push(302);
        }
        if k % 2 == 1 {
            let i = r.below(v.len());
            v[i] = r.below(303) as i64;
        }
        ins.push(v);
    }
    emit(o, &g, "big", &ins);
    // many nonterminals: chain
    let mut rules: Vec<(i64, Vec<i64>)> = vec![];
    for i in 0..60i64 {
        rules.push((1000 + i, vec![1001 + i]));
        rules.push((1000 + i, vec![i, 1001 + i]));
    }
    rules.push((1060, vec![60]));
    let g = Gram { rules, start: 1000 };
    let mut ins = vec![];
    for _ in 0..8 {
        let mut v = vec![];
        for i in 0..60i64 {
            if r.chance(30) {
                v.push(i);
            }
        }
        if r.chance(80) {
            v.push(60);
        }
        ins.push(v);
    }
    emit(o, &g, "big", &ins);
    numbers(o, r, err);
    // a rule with a long right side
    let long: Vec<i64> = (0..90).map(|i| if i % 9 == 4 { 1001 } else { i % 7 }).collect();
    let g = Gram { rules: vec![(1000, long.clone()), (1001, vec![]), (1001, vec![8])], start: 1000 };
    let f = Info::new(&g);
    let mut ins = vec![];
    for _ in 0..4 {
        let s = f.sentence(r, 500);
        ins.push(f.mutate(&s, r));
        ins.push(s);
    }
    emit(o, &g, "big", &ins);
}

/// rules, symbols and positions whose numbers are 2^k apart for many k, held apart by filling
fn numbers(o: &mut dyn Write, r: &mut Rng, err: bool) {
    // S and K(i) matter, F is filling: 8^3 rules of three tokens each
    let (q, y, z, x) = (40, 41, 42, 43);
    let mut rules: Vec<(i64, Vec<i64>)> = vec![(1000, vec![q, 1001]), (1000, vec![y])];
    let places = [3usize, 4, 11, 19, 35, 67, 131, 259, 515];
    let mut fill = (0..800i64).map(|i| (1001, vec![50 + i % 10, 50 + i / 10 % 10, 50 + i / 100]));
    let mut k = 0;
    for (i, p) in places.iter().enumerate() {
        while rules.len() < *p {
            let f = fill.next().unwrap();
            rules.push(f);
        }
        let i = i as i64;
        if err {
            rules.push((1000, vec![i, ERR, x, 1000, z]));
        } else {
            // alike but for the number of the rule and of the symbol
            rules.push((1100 + 1 + (1i64 << i), vec![x]));
        }
        k += 1;
    }
    if err {
        // a broken head, and another broken one inside
        let g = Gram { rules, start: 1000 };
        let mut ins = vec![];
        for i in 0..k {
            for j in 0..k {
                ins.push(vec![i, z, x, j, z, x, y, z, z]);
                if r.chance(40) {
                    ins.push(vec![i, z, x, j, z, q, x, i, y, x, y, z, z, z]);
                }
            }
        }
        emit(o, &g, "big", &ins);
    } else {
        for i in 0..k {
            rules.push((1000, vec![i, 1100 + 1 + (1i64 << i), i, 1000]));
        }
        let g = Gram { rules, start: 1000 };
        let mut ins = vec![];
        for i in 0..k {
            let j = r.below(k as usize) as i64;
            ins.push(vec![i, x, i, j, x, j, y]);
            ins.push(vec![i, x, j, y]);
            ins.push(vec![i, x, i, q, 50, 51, 52]);
        }
        emit(o, &g, "big", &ins);
        // 300 symbols
        let mut rules: Vec<(i64, Vec<i64>)> = vec![(1000, vec![0, 1001, 1000]), (1000, vec![])];
        for i in 0..300i64 {
            rules.push((1001, vec![1002 + i, 8 + i % 2]));
            rules.push((1002 + i, vec![2 + i % 6, 2 + i / 6 % 6, 2 + i / 36 % 6, 2 + i / 216]));
        }
        let g = Gram { rules, start: 1000 };
        let mut ins = vec![];
        for _ in 0..12 {
            let mut v = vec![];
            for _ in 0..r.range(1, 6) {
                let i = r.below(300) as i64;
                v.extend([0, 2 + i % 6, 2 + i / 6 % 6, 2 + i / 36 % 6, 2 + i / 216, 8 + if r.chance(90) { i % 2 } else { 1 - i % 2 }]);
            }
            ins.push(v);
        }
        emit(o, &g, "big", &ins);
        // a rule of 300 symbols
        let g = Gram { rules: vec![(1000, (0..300i64).map(|i| if i % 37 == 4 { 1001 } else { 0 }).collect()), (1001, vec![1]), (1001, vec![])], start: 1000 };
        let mut ins = vec![];
        let n = g.rules[0].1.iter().filter(|x| **x == 0).count();
        for m in [n, n - 1, n + 1, n - 128, n - 256] {
            ins.push(vec![0; m]);
        }
        ins.push(g.rules[0].1.iter().map(|x| if *x == 0 { 0 } else { 1 }).collect());
        emit(o, &g, "big", &ins);
    }
}

fn run_cmd(a: &Args) {
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let mut ro = std::io::BufWriter::new(std::fs::File::create(a.get("runs").unwrap()).unwrap());
    let rebuild = a.num("rebuild", 0);
    let faults = a.num("faults", 0);
    let cap0 = a.num("cap", 3000);
    let mut so = a.get("sum").map(|x| std::io::BufWriter::new(std::fs::File::create(x).unwrap()));
    for (gi, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        let g = Gram::of(&j);
        let ins: Vec<Vec<i64>> = j.get("in").arr().iter().map(|v| v.arr().iter().map(|x| x.int()).collect()).collect();
        let num = Num::pick(gi);
        let style = gi;
        let d = || format!("build group={} grammar={:?}", gi + 1, g);
        let b = guarded(&d, || build(&g, num, style));
        let (st, warn) = match &b {
            Ok((p, w)) => {
                let from: Option<P> = if gi % 3 == 0 { guarded(&d, || P::from(syntax(&g, num, style + 1))).ok() } else { None };
                for (i, s) in ins.iter().enumerate() {
                    let d = || format!("run group={} run={} grammar={:?} input={:?}", gi + 1, i + 1, g, s);
                    let cap = cap0.max(12 * s.len());
                    let q = if i % 4 == 3 { from.as_ref().unwrap_or(p) } else { p };
                    let r = run(q, num, s, 0, cap, &d);
                    if let Some(so) = &mut so {
                        let span: i64 = r.ev.iter().flat_map(|e| e.a.iter()).map(|x| if let Arg::E(v) = x { v.len() as i64 } else { 0 }).sum();
                        writeln!(so, "{}", obj! {"g" => J::I(gi as i64 + 1), "e" => J::s(&r.end), "n" => J::I(r.n as i64), "c" => J::I(r.ev.len() as i64), "sp" => J::I(span)}.dump()).unwrap();
                        if s.len() > 2000 {
                            continue;
                        }
                    }
                    if faults == 0 || (i + gi) % 5 == 0 {
                        writeln!(ro, "{}", r.json(gi + 1, s, 0).dump()).unwrap();
                    }
                    if faults > 0 {
                        let n = r.ev.len().min(cap);
                        let step = (n / faults).max(1);
                        let mut k = 1 + (gi + i) % step;
                        while k <= n {
                            let r = run(q, num, s, k, cap, &d);
                            writeln!(ro, "{}", r.json(gi + 1, s, k).dump()).unwrap();
                            k += step;
                        }
                    }
                }
                for k in 0..rebuild {
                    let s = &ins[k % ins.len()];
                    let cap = cap0.max(12 * s.len());
                    let d = || format!("rebuild group={} grammar={:?} input={:?}", gi + 1, g, s);
                    if let Ok((p, _)) = guarded(&d, || build(&g, num, style + k)) {
                        let r = run(&p, num, s, 0, cap, &d);
                        writeln!(ro, "{}", r.json(gi + 1, s, 0).dump()).unwrap();
                    }
                }
                ("ok".to_string(), w.clone())
            }
            Err(e) => (format!("panic: {}", e), vec![]),
        };
        let out = obj! {"g" => j.get("g").clone(), "st" => j.get("st").clone(), "k" => j.get("k").clone(), "b" => J::S(st),
        "warn" => J::A(warn.iter().map(|(k, x, y)| J::A(vec![J::s(k), J::I(*x), J::I(*y)])).collect())};
        writeln!(o, "{}", out.dump()).unwrap();
    }
}

/// Builds every grammar `times` times and writes the distinct observations (conflict reports and parses).
fn rebuild(a: &Args) {
    let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(a.get("out").unwrap()).unwrap());
    let times = a.num("times", 20);
    let max = a.num("inputs", 30);
    for (gi, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        let g = Gram::of(&j);
        let ins: Vec<Vec<i64>> = j.get("in").arr().iter().map(|v| v.arr().iter().map(|x| x.int()).collect()).take(max).collect();
        let num = Num::pick(gi);
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for _ in 0..times {
            let d = || format!("build group={} grammar={:?}", gi + 1, g);
            let ob = match guarded(&d, || build(&g, num, gi)) {
                Ok((p, w)) => {
                    let mut s = format!("warnings {:?}", w);
                    for i in &ins {
                        let r = run(&p, num, i, 0, 60.max(12 * i.len()), &d);
                        s += &format!(" on {:?}: {}", i, r.json(gi + 1, &[], 0).dump());
                    }
                    s
                }
                Err(_) => "panic".to_string(),
            };
            seen.insert(ob);
        }
        writeln!(o, "{}", obj! {"g" => J::I(gi as i64 + 1), "o" => J::A(seen.iter().take(4).map(|s| J::s(s)).collect())}.dump()).unwrap();
    }
}
