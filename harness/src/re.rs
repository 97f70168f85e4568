//! Regular-expression abstract syntax (the one Regex.tla gives meaning to), its concrete spellings, and generators.
use crate::util::{Rng, J};

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Cls(Vec<(u32, u32)>),
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Rep(u32, Option<u32>, Box<Re>),
}
use Re::*;

pub const MAXC: u32 = 0x10FFFF;

pub fn lit(c: char) -> Re {
    Cls(vec![(c as u32, c as u32)])
}
pub fn cls(a: char, b: char) -> Re {
    Cls(vec![(a as u32, b as u32)])
}
pub fn word(s: &str) -> Re {
    cats(s.chars().map(lit).collect())
}
pub fn cat(a: Re, b: Re) -> Re {
    Cat(Box::new(a), Box::new(b))
}
pub fn alt(a: Re, b: Re) -> Re {
    Alt(Box::new(a), Box::new(b))
}
pub fn cats(v: Vec<Re>) -> Re {
    let mut it = v.into_iter().rev();
    let l = it.next().unwrap();
    it.fold(l, |acc, r| cat(r, acc))
}
pub fn alts(v: Vec<Re>) -> Re {
    let mut it = v.into_iter().rev();
    let l = it.next().unwrap();
    it.fold(l, |acc, r| alt(r, acc))
}
pub fn rep(lo: u32, hi: i64, a: Re) -> Re {
    Rep(lo, if hi < 0 { None } else { Some(hi as u32) }, Box::new(a))
}
pub fn star(a: Re) -> Re {
    rep(0, -1, a)
}
pub fn plus(a: Re) -> Re {
    rep(1, -1, a)
}
pub fn opt(a: Re) -> Re {
    rep(0, 1, a)
}

fn good(c: u32) -> bool {
    c <= MAXC && !(0xD800..=0xDFFF).contains(&c)
}

impl Re {
    pub fn json(&self) -> J {
        match self {
            Cls(v) => J::A(vec![J::s("c"), J::A(v.iter().map(|r| J::ints(&[r.0, r.1])).collect())]),
            Cat(a, b) => J::A(vec![J::s("s"), a.json(), b.json()]),
            Alt(a, b) => J::A(vec![J::s("o"), a.json(), b.json()]),
            Rep(l, h, a) => J::A(vec![J::s("r"), J::I(*l as i64), J::I(h.map_or(-1, |h| h as i64)), a.json()]),
        }
    }
    pub fn from_json(j: &J) -> Re {
        let a = j.arr();
        match a[0].str() {
            "c" => Cls(a[1].arr().iter().map(|r| (r.arr()[0].int() as u32, r.arr()[1].int() as u32)).collect()),
            "s" => cat(Re::from_json(&a[1]), Re::from_json(&a[2])),
            "o" => alt(Re::from_json(&a[1]), Re::from_json(&a[2])),
            "r" => rep(a[1].int() as u32, a[2].int(), Re::from_json(&a[3])),
            _ => panic!(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Cls(_) => 1,
            Cat(a, b) | Alt(a, b) => 1 + a.size() + b.size(),
            Rep(l, h, a) => 1 + a.size() * (h.unwrap_or(*l + 1).max(1) as usize),
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Cls(_) => false,
            Cat(a, b) => a.nullable() && b.nullable(),
            Alt(a, b) => a.nullable() || b.nullable(),
            Rep(l, _, a) => *l == 0 || a.nullable(),
        }
    }
    pub fn classes(&self, out: &mut Vec<(u32, u32)>) {
        match self {
            Cls(v) => out.extend_from_slice(v),
            Cat(a, b) | Alt(a, b) => {
                a.classes(out);
                b.classes(out)
            }
            Rep(_, _, a) => a.classes(out),
        }
    }
    /// One random member of the language (best effort, bounded length).
    pub fn sample(&self, r: &mut Rng, out: &mut Vec<u32>, budget: &mut usize) {
        match self {
            Cls(v) => {
                if v.is_empty() {
                    return;
                }
                let (lo, hi) = *r.pick(v);
                let c = match r.below(4) {
                    0 => lo,
                    1 => hi,
                    2 => lo + (r.next() % (hi - lo + 1) as u64) as u32,
                    _ => lo + (r.next() % (1 + (hi - lo).min(3)) as u64) as u32,
                };
                out.push(if good(c) { c } else if good(lo) { lo } else { 0xE000 });
                *budget = budget.saturating_sub(1);
            }
            Cat(a, b) => {
                a.sample(r, out, budget);
                b.sample(r, out, budget)
            }
            Alt(a, b) => {
                if r.chance(50) {
                    a.sample(r, out, budget)
                } else {
                    b.sample(r, out, budget)
                }
            }
            Rep(l, h, a) => {
                let hi = h.unwrap_or(l + 1 + r.below(5) as u32);
                let n = if *budget == 0 { *l } else { l + (r.next() % (hi - l + 1) as u64) as u32 };
                for _ in 0..n {
                    a.sample(r, out, budget)
                }
            }
        }
    }
    /// Concrete regex syntax; `r` chooses among equivalent spellings.
    pub fn render(&self, r: &mut Rng, fancy: bool) -> String {
        match self {
            Cls(v) => render_class(v, r, fancy),
            Cat(a, b) => {
                let x = a.render(r, fancy);
                let y = b.render(r, fancy);
                let x = if matches!(**a, Alt(..)) { group(x, r, fancy) } else { x };
                let y = if matches!(**b, Alt(..)) { group(y, r, fancy) } else { y };
                x + &y
            }
            Alt(a, b) => {
                let x = a.render(r, fancy);
                let y = b.render(r, fancy);
                x + "|" + &y
            }
            Rep(l, h, a) => {
                let x = a.render(r, fancy);
                let x = if matches!(**a, Cls(_)) { x } else { group(x, r, fancy) };
                let mut sp: Vec<String> = vec![];
                match (l, h) {
                    (0, Some(1)) => sp.push("?".into()),
                    (0, None) => sp.push("*".into()),
                    (1, None) => sp.push("+".into()),
                    _ => {}
                }
                match h {
                    None => sp.push(format!("{{{},}}", l)),
                    Some(h) if h == l => {
                        sp.push(format!("{{{}}}", l));
                        sp.push(format!("{{{},{}}}", l, l));
                    }
                    Some(h) => sp.push(format!("{{{},{}}}", l, h)),
                }
                let q = r.pick(&sp).clone();
                let lazy = if fancy && r.chance(15) { "?" } else { "" };
                x + &q + lazy
            }
        }
    }
}

fn group(x: String, r: &mut Rng, fancy: bool) -> String {
    if fancy && r.chance(40) {
        if r.chance(30) {
            format!("(?P<g{}>{})", r.next() % 1_000_000_000, x)
        } else {
            format!("({})", x)
        }
    } else {
        format!("(?:{})", x)
    }
}

fn ch(c: u32, r: &mut Rng, in_class: bool, fancy: bool) -> String {
    let k = char::from_u32(c).unwrap();
    if fancy && r.chance(15) {
        return match r.below(3) {
            0 => format!("\\u{{{:X}}}", c),
            1 => format!("\\x{{{:x}}}", c),
            _ if c <= 0xFFFF => format!("\\u{:04X}", c),
            _ => format!("\\U{:08X}", c),
        };
    }
    if k.is_alphanumeric() || k == '_' || (c > 0xA0 && c != 0xAD && !k.is_whitespace() && !k.is_control() && in_class == false && (0x3040..0x30FF).contains(&c)) {
        k.to_string()
    } else if k.is_ascii_punctuation() && "\\.+*?()|[]{}^$#&-~".contains(k) {
        format!("\\{}", k)
    } else if c == 10 && !in_class && r.chance(50) {
        "\n".to_string()
    } else if k.is_ascii_punctuation() || k == ' ' {
        k.to_string()
    } else {
        format!("\\x{{{:X}}}", c)
    }
}

fn complement(v: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut s = v.to_vec();
    s.sort();
    let mut out = vec![];
    let mut next = 0u32;
    for (a, b) in s {
        if a > next {
            out.push((next, a - 1));
        }
        next = next.max(b.saturating_add(1));
    }
    if next <= MAXC {
        out.push((next, MAXC));
    }
    out
}

fn fix(v: &[(u32, u32)]) -> Vec<(u32, u32)> {
    // clip range ends away from surrogates
    v.iter()
        .filter_map(|&(a, b)| {
            let a2 = if good(a) { a } else { 0xE000 };
            let b2 = if good(b) { b } else { 0xD7FF };
            if a2 <= b2 {
                Some((a2, b2))
            } else {
                None
            }
        })
        .collect()
}

fn render_class(v: &[(u32, u32)], r: &mut Rng, fancy: bool) -> String {
    if v == [(0, 9), (11, MAXC)] && r.chance(60) {
        return ".".into();
    }
    if v == [(0, MAXC)] && r.chance(60) {
        return if r.chance(50) { "(?s:.)".into() } else { "(?:.|\\n)".into() };
    }
    if v.len() == 1 && v[0].0 == v[0].1 && r.chance(80) {
        return ch(v[0].0, r, false, fancy);
    }
    let comp = fix(&complement(v));
    let neg = !comp.is_empty() && comp.len() <= 4 && fancy && (comp.len() < v.len() || r.chance(20));
    let mut v2 = if neg { comp } else { fix(v) };
    if fancy && r.chance(40) {
        // order and splitting of ranges do not matter
        for i in (1..v2.len()).rev() {
            v2.swap(i, r.below(i + 1));
        }
        if let Some(&(a, b)) = v2.first() {
            if b > a && b - a < 0x500 && a > 0x20 && b < 0xD000 {
                let m = a + (b - a) / 2;
                v2[0] = (a, m);
                v2.push((m.max(a), b)); // overlapping pieces
            }
        }
    }
    let mut s = String::from(if neg { "[^" } else { "[" });
    for (a, b) in v2 {
        if a == b {
            s += &ch(a, r, true, fancy);
        } else {
            s += &ch(a, r, true, fancy);
            s += "-";
            s += &ch(b, r, true, fancy);
        }
    }
    s + "]"
}

/// All expressions with exactly `n` nodes over the given leaves.
pub fn enumerate(n: usize, leaves: &[Re], reps: &[(u32, i64)]) -> Vec<Vec<Re>> {
    let mut by: Vec<Vec<Re>> = vec![vec![], leaves.to_vec()];
    for k in 2..=n {
        let mut v = vec![];
        for a in &by[k - 1] {
            for &(l, h) in reps {
                v.push(rep(l, h, a.clone()));
            }
        }
        for i in 1..k - 1 {
            for a in &by[i] {
                for b in &by[k - 1 - i] {
                    v.push(cat(a.clone(), b.clone()));
                    v.push(alt(a.clone(), b.clone()));
                }
            }
        }
        by.push(v);
    }
    by
}

#[derive(Clone)]
pub struct Alphabet(pub Vec<u32>);

pub fn alphabets(r: &mut Rng) -> Alphabet {
    let v: Vec<u32> = match r.below(8) {
        0 | 1 | 2 => "abc".chars().map(|c| c as u32).collect(),
        3 | 4 => "abcdefgh".chars().map(|c| c as u32).collect(),
        5 => vec![0, 1, 9, 10, 11, 0x41, 0x7F, 0x80, 0xFF, 0x100],
        6 => vec![0x61, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFE, MAXC],
        _ => "09azAZ_+-*/(). \n".chars().map(|c| c as u32).collect(),
    };
    let mut v = v;
    v.sort();
    Alphabet(v)
}

fn rand_class(r: &mut Rng, a: &Alphabet) -> Re {
    let n = a.0.len();
    match r.below(12) {
        0..=5 => {
            let c = a.0[r.below(n)];
            Cls(vec![(c, c)])
        }
        6..=8 => {
            let i = r.below(n);
            let j = r.range(i, n - 1);
            Cls(vec![(a.0[i], a.0[j])])
        }
        9 => {
            // several disjoint ranges
            let mut pts: Vec<u32> = (0..4).map(|_| a.0[r.below(n)]).collect();
            pts.sort();
            if pts[1] + 1 < pts[2] {
                Cls(vec![(pts[0], pts[1]), (pts[2], pts[3])])
            } else {
                Cls(vec![(pts[0], pts[3])])
            }
        }
        10 => {
            // complement of a range
            let i = r.below(n);
            let j = r.range(i, n - 1);
            let c = complement(&[(a.0[i], a.0[j])]);
            if fix(&c).is_empty() {
                Cls(vec![(a.0[0], a.0[0])])
            } else {
                Cls(c)
            }
        }
        _ => {
            if r.chance(70) {
                Cls(vec![(0, 9), (11, MAXC)])
            } else {
                Cls(vec![(0, MAXC)])
            }
        }
    }
}

pub fn rand_re(r: &mut Rng, a: &Alphabet, depth: usize) -> Re {
    if depth == 0 || r.chance(18) {
        return rand_class(r, a);
    }
    match r.below(10) {
        0..=3 => {
            let n = r.range(2, 3);
            cats((0..n).map(|_| rand_re(r, a, depth - 1)).collect())
        }
        4..=5 => {
            let n = r.range(2, 3);
            alts((0..n).map(|_| rand_re(r, a, depth - 1)).collect())
        }
        _ => {
            let x = rand_re(r, a, depth - 1);
            let (l, h): (u32, i64) = match r.below(12) {
                0 | 1 => (0, 1),
                2 | 3 => (0, -1),
                4 | 5 => (1, -1),
                6 => {
                    let n = r.range(0, 4) as i64;
                    (n as u32, n)
                }
                7 | 8 => (r.range(0, 4) as u32, -1),
                _ => {
                    let l = r.range(0, 3);
                    (l as u32, r.range(l, l + 3) as i64)
                }
            };
            rep(l, h, x)
        }
    }
}

/// A pattern list, by profile.
pub fn rand_patterns(r: &mut Rng, allow_nullable: bool) -> (Vec<Re>, &'static str) {
    let prof = r.below(10);
    let a = alphabets(r);
    let fixn = |p: Re, r: &mut Rng| {
        if allow_nullable || !p.nullable() {
            p
        } else {
            let c = rand_class(r, &a);
            if r.chance(50) {
                cat(c, p)
            } else {
                cat(p, c)
            }
        }
    };
    let small = |r: &mut Rng, d: usize| loop {
        let p = rand_re(r, &a, d);
        let p = fixn(p, r);
        if p.size() <= 60 {
            return p;
        }
    };
    match prof {
        0..=4 => {
            let n = r.range(1, 4);
            ((0..n).map(|_| small(r, 3)).collect(), "random")
        }
        5 => {
            // keyword / identifier style overlaps
            let id = cat(cls('a', 'c'), star(Cls(vec![(48, 57), (97, 99)])));
            let mut v = vec![];
            for _ in 0..r.range(1, 4) {
                let n = r.range(1, 4);
                v.push(cats((0..n).map(|_| lit(*r.pick(&['a', 'b', 'c', '1']))).collect()));
            }
            let at = r.below(v.len() + 1);
            v.insert(at, id);
            v.push(plus(cls('0', '9')));
            if r.chance(50) {
                v.push(Cls(vec![(0, 9), (11, MAXC)]));
            }
            (v, "keywords")
        }
        6 => {
            // long give-back: x matches, and x^k y matches, but nothing in between
            let x = lit('a');
            let k = r.range(2, 30) as i64;
            let mut v = vec![if r.chance(50) { x.clone() } else { rep(1, r.range(1, 3) as i64, x.clone()) }, cat(if r.chance(50) { star(x.clone()) } else { rep(k as u32, k, x.clone()) }, lit('b'))];
            if r.chance(50) {
                v.push(cats(vec![lit('b'), star(Cls(vec![(97, 99)])), lit('d')]));
            }
            if r.chance(60) {
                v.push(cls('b', 'e'));
            }
            if r.chance(30) {
                v.reverse()
            }
            (v, "giveback")
        }
        7 => {
            // many overlapping ranges
            let n = r.range(2, 6);
            ((0..n)
                .map(|_| {
                    let x = rand_class(r, &a);
                    if r.chance(50) {
                        x
                    } else {
                        let y = rand_class(r, &a);
                        cat(x, if r.chance(50) { y } else { plus(y) })
                    }
                })
                .collect(), "ranges")
        }
        8 => {
            // same or nested languages under different spellings
            let p = small(r, 2);
            let mut v = vec![p.clone()];
            for _ in 0..r.range(1, 3) {
                let q = match r.below(4) {
                    0 => p.clone(),
                    1 => alt(p.clone(), small(r, 1)),
                    2 => plus(p.clone()),
                    _ => cat(p.clone(), opt(small(r, 1))),
                };
                v.push(q);
            }
            if r.chance(50) {
                v.reverse()
            }
            (v, "nested")
        }
        _ => {
            let n = r.range(1, 3);
            ((0..n).map(|_| small(r, 4)).collect(), "deep")
        }
    }
}

/// An input for a pattern list: members of the patterns, truncated/mutated/concatenated, plus boundary characters.
pub fn rand_input(r: &mut Rng, pats: &[Re], maxlen: usize) -> Vec<u32> {
    let mut cl = vec![];
    for p in pats {
        p.classes(&mut cl);
    }
    let mut edge: Vec<u32> = vec![];
    for (a, b) in cl {
        for c in [a.wrapping_sub(1), a, b, b + 1] {
            if good(c) {
                edge.push(c)
            }
        }
    }
    if edge.is_empty() {
        edge.push(97)
    }
    let mut out = vec![];
    let target = r.range(0, maxlen);
    while out.len() < target {
        match r.below(10) {
            0..=6 => {
                let p = r.pick(pats).clone();
                let mut w = vec![];
                let mut budget = 40;
                p.sample(r, &mut w, &mut budget);
                if r.chance(25) && !w.is_empty() {
                    let k = r.below(w.len());
                    w.truncate(k);
                }
                if r.chance(10) && !w.is_empty() {
                    let k = r.below(w.len());
                    w[k] = *r.pick(&edge);
                }
                out.extend(w);
                if r.chance(5) {
                    break;
                }
            }
            7 | 8 => out.push(*r.pick(&edge)),
            _ => {
                let c = *r.pick(&edge);
                for _ in 0..r.range(1, 5) {
                    out.push(c)
                }
            }
        }
        if out.is_empty() && r.chance(10) {
            break;
        }
    }
    out.truncate(maxlen);
    out
}

/// The meaning regex-syntax gives to a text; None if it uses something the specification has no form for.
pub fn of_text(t: &str) -> Option<Re> {
    of_hir(&regex_syntax::Parser::new().parse(t).ok()?)
}
fn of_hir(h: &regex_syntax::hir::Hir) -> Option<Re> {
    use regex_syntax::hir::*;
    Some(match h.kind() {
        HirKind::Literal(Literal::Unicode(c)) => lit(*c),
        HirKind::Class(Class::Unicode(c)) => Cls(c.iter().map(|x| (x.start() as u32, x.end() as u32)).collect()),
        HirKind::Repetition(x) => {
            let e = of_hir(&x.hir)?;
            match &x.kind {
                RepetitionKind::ZeroOrOne => opt(e),
                RepetitionKind::ZeroOrMore => star(e),
                RepetitionKind::OneOrMore => plus(e),
                RepetitionKind::Range(RepetitionRange::Exactly(n)) => rep(*n, *n as i64, e),
                RepetitionKind::Range(RepetitionRange::AtLeast(n)) => rep(*n, -1, e),
                RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => rep(*n, *m as i64, e),
            }
        }
        HirKind::Group(g) => of_hir(&g.hir)?,
        HirKind::Concat(v) => cats(v.iter().map(of_hir).collect::<Option<Vec<_>>>()?),
        HirKind::Alternation(v) => alts(v.iter().map(of_hir).collect::<Option<Vec<_>>>()?),
        _ => return None,
    })
}

/// Texts in the whole surface syntax: classes by name, set operations, flags, escapes, lazy and nested repetition.
pub fn rand_text(r: &mut Rng, d: usize) -> String {
    const ATOM: &[&str] = &["a", "b", "c", "ab", "abc", ".", r"\.", r"\d", r"\s", r"\D", r"\S", "[a-c]", "[^a-c]", "[^a]", "[[:alpha:]]", "[[:^digit:]]", "[[:punct:]x]", "[[:xdigit:]]", "[a-z&&[^aeiou]]", "[a-z--[b-m]]", "[a-f~~d-i]", r"[\d\s]", r"[^\d_]", r"[\-\]\^]", "[]a]", "[a-]", "[&]", r"\t", r"\n", r"\r\n", r"\x41", r"\x{1F600}", r"\u00e9", r"\U0001F600", r"\*\+\?", r"\(\)", r"\\\\", "(?s:.)", "(?i:ab)", "(?i:k)", "(?i:ſ)", "(?i:[a-c])", "(?i-s:A.)", "(?x: a b )", "(?x: [ a b ] # comment\n c)", "(?U:a+b)", "(?s-i:a.b)", "é", "漢字", "[あ-ん]", r"\p{Greek}", r"\pN", r"[^\P{Greek}]", r"\p{Zs}", "[[a-c][x-z]]", "[[a-c]&&[b-d]&&[^c]]", "-", "]", "}", "=", "/", r"\#", "0", "9", "_", " ", "(?P<n>a)b"];
    let mut named = 0;
    fn go(r: &mut Rng, d: usize, named: &mut usize) -> String {
        if d == 0 || r.chance(25) {
            return r.pick(ATOM).to_string();
        }
        match r.below(12) {
            0..=3 => go(r, d - 1, named) + &go(r, d - 1, named),
            4 | 5 => format!("(?:{}|{})", go(r, d - 1, named), go(r, d - 1, named)),
            6 => format!("({})", go(r, d - 1, named)),
            7 => format!("(?:{}){}", go(r, d - 1, named), r.pick(&["*", "+", "?", "*?", "+?", "??", "{2}", "{2}?", "{1,3}", "{0,2}", "{2,}", "{0}", "{1}", "{0,1}", "{3,5}?", "{0,}"])),
            8 => format!("(?:{}){}(?:{})", go(r, d - 1, named), r.pick(&["*", "+", "?", "{2}"]), go(r, d - 1, named)),
            9 => format!("(?{}:{})", r.pick(&["i", "s", "U", "is", "-s", "i-U"]), go(r, d - 1, named)),
            10 => format!("(?:(?{}){})", r.pick(&["i", "s", "U", "-i", "si"]), go(r, d - 1, named)),
            _ => format!("(?:{}|{}|{})", go(r, d - 1, named), go(r, d - 1, named), go(r, d - 1, named)),
        }
    }
    let s = go(r, d, &mut named);
    if r.chance(10) {
        format!("{}|{}", s, go(r, d, &mut named))
    } else {
        s
    }
}
