//! Grammar generation and input selection.  Nothing here judges anything: the oracle is the TLA+ side.
use crate::lr::{Gram, EOI, ERR};
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

pub fn is_n(x: i64) -> bool {
    x >= 1000
}

/// "S -> a S b | ; A -> ERR x": one rule group per ';', names that appear on a left side are nonterminals
pub fn text(s: &str) -> Gram {
    let lines: Vec<(&str, &str)> = s.split(';').map(|l| l.split_once("->").unwrap()).collect();
    let mut ns: Vec<&str> = vec![];
    for (h, _) in &lines {
        if !ns.contains(&h.trim()) {
            ns.push(h.trim());
        }
    }
    let mut ts: Vec<&str> = vec![];
    let mut rules = vec![];
    for (h, b) in &lines {
        let l = 1000 + ns.iter().position(|x| *x == h.trim()).unwrap() as i64;
        for alt in b.split('|') {
            let mut r = vec![];
            for x in alt.split_whitespace() {
                if x == "ERR" {
                    r.push(ERR);
                } else if let Some(i) = ns.iter().position(|y| *y == x) {
                    r.push(1000 + i as i64);
                } else {
                    if !ts.contains(&x) {
                        ts.push(x);
                    }
                    r.push(ts.iter().position(|y| *y == x).unwrap() as i64);
                }
            }
            rules.push((l, r));
        }
    }
    Gram { rules, start: 1000 }
}

pub type Item = (usize, usize, i64);

pub struct Info {
    pub g: Gram,
    pub rules: Vec<(i64, Vec<i64>)>, // augmented, goal last
    pub terms: Vec<i64>,
    by: BTreeMap<i64, Vec<usize>>,
    nul: BTreeSet<i64>,
    first: BTreeMap<i64, BTreeSet<i64>>,
    /// a cheap yield of every nonterminal
    pub min: BTreeMap<i64, Vec<i64>>,
}

const GOAL: i64 = 999_999;

impl Info {
    pub fn new(g: &Gram) -> Info {
        let mut rules = g.rules.clone();
        rules.push((GOAL, vec![g.start]));
        let mut by: BTreeMap<i64, Vec<usize>> = BTreeMap::new();
        let mut terms = BTreeSet::new();
        for (i, (l, r)) in rules.iter().enumerate() {
            by.entry(*l).or_default().push(i);
            terms.extend(r.iter().filter(|x| **x >= 0 && **x < 1000));
        }
        let mut nul = BTreeSet::new();
        let mut first: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
        let mut min: BTreeMap<i64, (usize, Vec<i64>)> = BTreeMap::new();
        loop {
            let mut ch = false;
            for (l, r) in &rules {
                if r.iter().all(|x| nul.contains(x)) {
                    ch |= nul.insert(*l);
                }
                let mut f = BTreeSet::new();
                for x in r {
                    if is_n(*x) {
                        f.extend(first.get(x).cloned().unwrap_or_default());
                    } else {
                        f.insert(*x);
                    }
                    if !nul.contains(x) {
                        break;
                    }
                }
                let e = first.entry(*l).or_default();
                let n = e.len();
                e.extend(f);
                ch |= e.len() != n;
                let mut cost = 1;
                let mut y = vec![];
                let mut ok = true;
                for x in r {
                    if *x == ERR {
                        cost += 1000;
                    } else if is_n(*x) {
                        match min.get(x) {
                            Some((c, v)) => {
                                cost += c;
                                y.extend(v.iter().cloned());
                            }
                            None => ok = false,
                        }
                    } else {
                        cost += 2;
                        y.push(*x);
                    }
                }
                if ok && min.get(l).map_or(true, |m| m.0 > cost) {
                    min.insert(*l, (cost, y));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        Info { g: g.clone(), rules, terms: terms.into_iter().collect(), by, nul, first, min: min.into_iter().map(|(k, v)| (k, v.1)).collect() }
    }
    /// every nonterminal that occurs is defined, productive and reachable
    pub fn clean(&self) -> bool {
        let mut reach = BTreeSet::new();
        let mut q = vec![self.g.start];
        while let Some(n) = q.pop() {
            if !reach.insert(n) {
                continue;
            }
            match self.by.get(&n) {
                None => return false,
                Some(rs) => q.extend(rs.iter().flat_map(|r| self.rules[*r].1.iter().cloned().filter(|x| is_n(*x)))),
            }
        }
        self.by.keys().all(|n| *n == GOAL || (reach.contains(n) && self.min.contains_key(n)))
    }
    fn first_of(&self, seq: &[i64], la: i64) -> BTreeSet<i64> {
        let mut out = BTreeSet::new();
        for x in seq {
            if is_n(*x) {
                out.extend(self.first[x].iter().cloned());
                if !self.nul.contains(x) {
                    return out;
                }
            } else {
                out.insert(*x);
                return out;
            }
        }
        out.insert(la);
        out
    }
    fn after(&self, it: &Item) -> Option<i64> {
        self.rules[it.0].1.get(it.1).cloned()
    }
    fn close(&self, k: BTreeSet<Item>) -> BTreeSet<Item> {
        let mut all = k.clone();
        let mut q: Vec<Item> = k.into_iter().collect();
        while let Some(it) = q.pop() {
            if let Some(n) = self.after(&it).filter(|x| is_n(*x)) {
                for la in self.first_of(&self.rules[it.0].1[it.1 + 1..], it.2) {
                    for r in &self.by[&n] {
                        if all.insert((*r, 0, la)) {
                            q.push((*r, 0, la));
                        }
                    }
                }
            }
        }
        all
    }
    pub fn automaton(&self, max: usize) -> Option<Auto> {
        let mut idx: HashMap<BTreeSet<Item>, usize> = HashMap::new();
        let mut states: Vec<BTreeSet<Item>> = vec![];
        let mut go: Vec<BTreeMap<i64, usize>> = vec![];
        let k0: BTreeSet<Item> = [(self.rules.len() - 1, 0, EOI)].into_iter().collect();
        let mut q = VecDeque::new();
        idx.insert(k0.clone(), 0);
        q.push_back(k0);
        while let Some(k) = q.pop_front() {
            let s = self.close(k);
            let mut nx: BTreeMap<i64, BTreeSet<Item>> = BTreeMap::new();
            for it in &s {
                if let Some(x) = self.after(it) {
                    nx.entry(x).or_default().insert((it.0, it.1 + 1, it.2));
                }
            }
            let mut m = BTreeMap::new();
            for (x, k) in nx {
                let n = idx.len();
                let i = *idx.entry(k.clone()).or_insert_with(|| {
                    q.push_back(k.clone());
                    n
                });
                m.insert(x, i);
            }
            states.push(s);
            go.push(m);
            if idx.len() > max {
                return None;
            }
        }
        let mut conflict = false;
        for (s, m) in states.iter().zip(&go) {
            let mut seen = BTreeSet::new();
            for it in s {
                if self.after(it).is_none() {
                    conflict |= m.contains_key(&it.2) || !seen.insert(it.2);
                }
            }
        }
        Some(Auto { states, go, conflict })
    }

    pub fn garbage(&self, r: &mut Rng) -> Vec<i64> {
        (0..r.below(3)).map(|_| if self.terms.is_empty() { 0 } else { *r.pick(&self.terms) }).collect()
    }
    /// a yield of seq; random within the budget, cheap beyond it
    pub fn expand(&self, seq: &[i64], r: &mut Rng, budget: &mut i64, out: &mut Vec<i64>) {
        for x in seq {
            if *x == ERR {
                let g = self.garbage(r);
                out.extend(g);
            } else if is_n(*x) {
                if *budget <= 0 {
                    out.extend(self.min[x].iter().cloned());
                } else {
                    *budget -= 1;
                    let rs = &self.by[x];
                    let rule = rs[r.below(rs.len())];
                    let rhs = self.rules[rule].1.clone();
                    self.expand(&rhs, r, budget, out);
                }
            } else {
                *budget -= 1;
                out.push(*x);
            }
        }
    }
    pub fn cheap(&self, seq: &[i64], out: &mut Vec<i64>) {
        for x in seq {
            if is_n(*x) {
                out.extend(self.min[x].iter().cloned());
            } else if *x != ERR {
                out.push(*x);
            }
        }
    }
    /// a yield of seq beginning with t, if one is found
    fn starting(&self, seq: &[i64], t: i64, depth: usize, r: &mut Rng) -> Option<Vec<i64>> {
        let (x, rest) = seq.split_first()?;
        if !is_n(*x) {
            if *x != t {
                return None;
            }
            let mut o = vec![t];
            self.cheap(rest, &mut o);
            return Some(o);
        }
        if depth > 0 && self.first[x].contains(&t) {
            let rs = &self.by[x];
            let off = r.below(rs.len());
            for i in 0..rs.len() {
                let rule = rs[(i + off) % rs.len()];
                let rhs = &self.rules[rule].1;
                if !self.first_of(rhs, EOI).contains(&t) {
                    continue;
                }
                if let Some(mut o) = self.starting(rhs, t, depth - 1, r) {
                    self.cheap(rest, &mut o);
                    return Some(o);
                }
            }
        }
        if self.nul.contains(x) {
            return self.starting(rest, t, depth, r);
        }
        None
    }
    /// words that lead through every state and every item of the automaton, each continued with every terminal
    pub fn cover(&self, a: &Auto, r: &mut Rng, deep: bool) -> Vec<Vec<i64>> {
        type Node = (usize, Item);
        let start: Node = (0, (self.rules.len() - 1, 0, EOI));
        let mut par: HashMap<Node, Option<(Node, Option<i64>)>> = HashMap::new();
        let mut q = VecDeque::new();
        par.insert(start, None);
        q.push_back(start);
        let mut order = vec![];
        while let Some(nd) = q.pop_front() {
            order.push(nd);
            let (s, it) = nd;
            if let Some(x) = self.after(&it) {
                let t = (a.go[s][&x], (it.0, it.1 + 1, it.2));
                if !par.contains_key(&t) {
                    par.insert(t, Some((nd, Some(x))));
                    q.push_back(t);
                }
                if is_n(x) {
                    let las: Vec<i64> = self.first_of(&self.rules[it.0].1[it.1 + 1..], it.2).into_iter().collect();
                    for la in las {
                        for rr in &self.by[&x] {
                            let t = (s, (*rr, 0, la));
                            if !par.contains_key(&t) {
                                par.insert(t, Some((nd, None)));
                                q.push_back(t);
                            }
                        }
                    }
                }
            }
        }
        let mut out = BTreeSet::new();
        let mut seen_state = BTreeSet::new();
        let alien = self.terms.last().map_or(0, |x| x + 1);
        for nd in &order {
            let (s, it) = *nd;
            let complete = self.after(&it).is_none();
            let new_state = seen_state.insert(s);
            if !(new_state || complete || deep) {
                continue;
            }
            // prefix symbols and what has to follow
            let mut pre = vec![];
            let mut suf: Vec<i64> = self.rules[it.0].1[it.1..].to_vec();
            let mut cur = *nd;
            while let Some((p, x)) = par[&cur] {
                match x {
                    Some(x) => pre.push(x),
                    None => suf.extend(self.rules[p.1 .0].1[p.1 .1 + 1..].iter().cloned()),
                }
                cur = p;
            }
            pre.reverse();
            let mut w = vec![];
            let mut b = 0;
            if r.chance(30) {
                b = 6;
            }
            self.expand(&pre, r, &mut b, &mut w);
            let mut full = w.clone();
            match if complete && it.2 >= 0 { self.starting(&suf, it.2, 8, r) } else { None } {
                Some(v) => full.extend(v),
                None => self.cheap(&suf, &mut full),
            }
            out.insert(full);
            if new_state {
                for t in self.terms.iter().chain([&alien]) {
                    let mut v = w.clone();
                    v.push(*t);
                    if r.chance(50) {
                        self.cheap(&suf, &mut v);
                    }
                    out.insert(v);
                }
            }
            out.insert(w);
        }
        out.into_iter().collect()
    }
    pub fn sentence(&self, r: &mut Rng, budget: i64) -> Vec<i64> {
        let mut o = vec![];
        let mut b = budget;
        self.expand(&[self.g.start], r, &mut b, &mut o);
        o
    }
    pub fn mutate(&self, w: &[i64], r: &mut Rng) -> Vec<i64> {
        let mut v = w.to_vec();
        for _ in 0..r.range(1, 2) {
            let t = if self.terms.is_empty() || r.chance(10) { self.terms.last().map_or(0, |x| x + 1) } else { *r.pick(&self.terms) };
            let i = r.below(v.len() + 1);
            match r.below(6) {
                0 => v.insert(i, t),
                1 if i < v.len() => {
                    v.remove(i);
                }
                2 if i < v.len() => v[i] = t,
                3 if i + 1 < v.len() => v.swap(i, i + 1),
                4 => v.truncate(i),
                _ => {
                    if i < v.len() {
                        let c = v[i];
                        v.insert(i, c);
                    }
                }
            }
        }
        v
    }
    pub fn words(&self, n: usize, limit: usize) -> Vec<Vec<i64>> {
        let mut out: Vec<Vec<i64>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..n {
            let to = out.len();
            if to + (to - from) * self.terms.len() > limit {
                break;
            }
            for i in from..to {
                for t in &self.terms {
                    let mut v = out[i].clone();
                    v.push(*t);
                    out.push(v);
                }
            }
            from = to;
        }
        out
    }
}

pub struct Auto {
    pub states: Vec<BTreeSet<Item>>,
    pub go: Vec<BTreeMap<i64, usize>>,
    pub conflict: bool,
}

/// raw random rules
pub fn random(r: &mut Rng, err: bool) -> Gram {
    let nn = r.range(1, 4);
    let nt = r.range(1, 4);
    let mut rules = vec![];
    for n in 0..nn {
        for _ in 0..r.range(1, 3) {
            let len = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4]);
            let mut rhs: Vec<i64> = (0..len).map(|_| if r.chance(45) { 1000 + r.below(nn) as i64 } else { r.below(nt) as i64 }).collect();
            if err && r.chance(30) {
                let i = r.below(rhs.len() + 1);
                if r.chance(50) && i < rhs.len() {
                    rhs[i] = ERR;
                } else {
                    rhs.insert(i, ERR);
                }
            }
            if !rules.contains(&(1000 + n as i64, rhs.clone())) {
                rules.push((1000 + n as i64, rhs));
            }
        }
    }
    if r.chance(50) {
        // declaration order must not matter
        for i in (1..rules.len()).rev() {
            let j = r.below(i + 1);
            rules.swap(i, j);
        }
    }
    Gram { rules, start: 1000 + if r.chance(70) { 0 } else { r.below(nn) as i64 } }
}

/// many error productions that are applicable in overlapping sets of states
pub fn nested(r: &mut Rng) -> Gram {
    let nn = r.range(2, 5);
    let nt = r.range(4, 9);
    let mut free: Vec<i64> = (0..nt as i64).collect();
    let mut rules: Vec<(i64, Vec<i64>)> = vec![];
    for n in 0..nn {
        for _ in 0..r.range(1, 3) {
            let mut rhs = vec![];
            let mut t = |r: &mut Rng| {
                if !free.is_empty() && r.chance(70) {
                    free.pop().unwrap()
                } else {
                    r.below(nt) as i64
                }
            };
            match r.below(6) {
                0 | 1 | 2 => {
                    rhs.push(ERR);
                    rhs.push(t(r));
                }
                3 => {
                    rhs.push(t(r));
                    rhs.push(ERR);
                    rhs.push(t(r));
                }
                4 => rhs.push(t(r)),
                _ => {}
            }
            for _ in 0..r.below(4) {
                let x = if r.chance(70) { 1000 + r.below(nn) as i64 } else { t(r) };
                rhs.push(x);
            }
            if r.chance(10) {
                rhs.push(ERR);
            }
            let x = (1000 + n as i64, rhs);
            if !rules.contains(&x) {
                rules.push(x);
            }
        }
    }
    if r.chance(40) {
        // productions that begin alike and recover again further on
        let n = 1000 + r.below(nn) as i64;
        let a = r.below(nt) as i64;
        let b = r.below(nt) as i64;
        let mut v = vec![ERR, a, ERR];
        for _ in 0..r.range(1, 3) {
            v.push(if r.chance(60) { 1000 + r.below(nn) as i64 } else { r.below(nt) as i64 });
        }
        let mut new = vec![(n, vec![ERR, b]), (n, v)];
        for _ in 0..r.below(4) {
            let c = r.below(nt) as i64;
            let mut w = vec![ERR, c];
            if r.chance(60) {
                w.push(ERR);
                w.push(r.below(nt) as i64);
            }
            new.push((n, w));
        }
        for x in new {
            if !rules.contains(&x) {
                rules.push(x);
            }
        }
    }
    for i in (1..rules.len()).rev() {
        let j = r.below(i + 1);
        rules.swap(i, j);
    }
    Gram { rules, start: 1000 }
}

/// grammars put together from the usual building blocks of programming languages
pub struct Tmpl<'a> {
    r: &'a mut Rng,
    rules: Vec<(i64, Vec<i64>)>,
    nn: i64,
    nt: i64,
    err: bool,
    left: i64,
}
impl<'a> Tmpl<'a> {
    pub fn gram(r: &'a mut Rng, err: bool) -> Gram {
        let left = r.range(3, 9) as i64;
        let mut t = Tmpl { r, rules: vec![], nn: 0, nt: 0, err, left };
        let s = t.make();
        let mut g = Gram { rules: t.rules, start: s };
        if r.chance(40) {
            for i in (1..g.rules.len()).rev() {
                let j = r.below(i + 1);
                g.rules.swap(i, j);
            }
        }
        g
    }
    fn n(&mut self) -> i64 {
        self.nn += 1;
        999 + self.nn
    }
    fn t(&mut self) -> i64 {
        if self.nt > 0 && self.r.chance(12) {
            return self.r.below(self.nt as usize) as i64;
        }
        self.nt += 1;
        self.nt - 1
    }
    fn rule(&mut self, l: i64, r: &[i64]) {
        self.rules.push((l, r.to_vec()));
    }
    /// either a terminal or a fresh nonterminal
    fn part(&mut self) -> i64 {
        if self.left > 0 && self.r.chance(75) {
            self.make()
        } else {
            self.t()
        }
    }
    fn make(&mut self) -> i64 {
        self.left -= 1;
        let a = self.n();
        match self.r.below(11) {
            0 => {
                let x = self.part();
                self.rule(a, &[]);
                self.rule(a, &[a, x]);
            }
            1 => {
                let x = self.part();
                self.rule(a, &[x, a]);
                self.rule(a, &[]);
            }
            2 => {
                let x = self.part();
                let s = self.t();
                self.rule(a, &[x]);
                self.rule(a, &[a, s, x]);
            }
            3 => {
                let x = self.part();
                let s = self.t();
                self.rule(a, &[x, s, a]);
                self.rule(a, &[x]);
            }
            4 => {
                let x = self.part();
                self.rule(a, &[x]);
                self.rule(a, &[]);
            }
            5 => {
                let (o, c) = (self.t(), self.t());
                let x = self.part();
                self.rule(a, &[o, x, c]);
                if self.err {
                    self.rule(a, &[o, ERR, c]);
                }
                if self.r.chance(50) {
                    let y = self.t();
                    self.rule(a, &[y]);
                }
            }
            6 => {
                // two level operators
                let (f, m) = (self.n(), self.n());
                let (p, s, i, o, c) = (self.t(), self.t(), self.t(), self.t(), self.t());
                self.rule(a, &[a, p, m]);
                self.rule(a, &[m]);
                self.rule(m, &[m, s, f]);
                self.rule(m, &[f]);
                self.rule(f, &[i]);
                self.rule(f, &[o, a, c]);
                if self.err && self.r.chance(50) {
                    self.rule(f, &[o, ERR, c]);
                }
            }
            7 | 8 => {
                for _ in 0..self.r.range(2, 3) {
                    let k = self.t();
                    let mut v = vec![k];
                    for _ in 0..self.r.range(0, 2) {
                        let x = self.part();
                        v.push(x);
                    }
                    self.rule(a, &v);
                }
                if self.err {
                    let k = self.t();
                    match self.r.below(3) {
                        0 => self.rule(a, &[ERR, k]),
                        1 => self.rule(a, &[ERR]),
                        _ => self.rule(a, &[k, ERR]),
                    }
                }
            }
            9 => {
                let x = self.part();
                let e = self.t();
                self.rule(a, &[x, e]);
                if self.err {
                    self.rule(a, &[ERR, e]);
                }
            }
            _ => {
                let x = self.part();
                let y = self.part();
                self.rule(a, &[x, y]);
                if self.err && self.r.chance(30) {
                    self.rule(a, &[x, ERR]);
                }
            }
        }
        a
    }
}

/// Rings of error productions of different lengths: recovery can go through several at the same time.
pub fn rings(r: &mut Rng) -> Gram {
    let k = r.range(1, 4);
    let mut rules: Vec<(i64, Vec<i64>)> = vec![];
    let mut next = 1001;
    let (y, u, mut t) = (0, 1, 2);
    for _ in 0..k {
        let l = r.range(1, 4) as i64;
        let lead = r.below(l as usize) as i64;
        let mut s = vec![next + lead];
        if r.chance(85) {
            s.push(t);
            t += 1;
        }
        rules.push((1000, s));
        for j in 0..l {
            let to = next + (j + 1) % l;
            let mut v = vec![ERR];
            if r.chance(12) {
                v.push(u);
            }
            v.push(to);
            if r.chance(12) {
                v.push(if r.chance(50) { u } else { t });
            }
            rules.push((next + j, v));
            if j == 0 || r.chance(70) {
                let mut v = vec![y];
                match r.below(8) {
                    0 => v.clear(),
                    1 => v.push(ERR),
                    2 => v.push(next + r.below(l as usize) as i64),
                    _ => {}
                }
                rules.push((next + j, v));
            }
        }
        next += l;
    }
    if r.chance(30) {
        rules.push((1000, vec![ERR, t]));
    }
    if r.chance(30) {
        rules.push((1000, vec![t + 1, 1000, t]));
    }
    for i in (1..rules.len()).rev() {
        let j = r.below(i + 1);
        rules.swap(i, j);
    }
    rules.dedup();
    Gram { rules, start: 1000 }
}

/// several productions that go on recovering alike for a while before they part
pub fn alternatives(r: &mut Rng) -> Gram {
    let k = r.range(2, 6);
    let nt = r.range(2, 4) as i64;
    let wrapped = r.chance(50);
    let mut rules: Vec<(i64, Vec<i64>)> = vec![];
    let mut seen: Vec<Vec<i64>> = vec![];
    for i in 0..k {
        // begins like one that is there already, or anew
        let mut v: Vec<i64> = match seen.len() {
            0 => vec![],
            n if r.chance(75) => {
                let x = &seen[r.below(n)];
                x[..r.range(1, x.len())].to_vec()
            }
            _ => vec![],
        };
        for _ in 0..r.range(1, 3) {
            if v.last() != Some(&ERR) {
                if r.chance(90) {
                    v.push(ERR);
                } else {
                    v.push(r.below(nt as usize) as i64);
                    continue;
                }
            }
            v.push(r.below(nt as usize) as i64);
        }
        if r.chance(70) {
            v.push(ERR);
            v.push(if r.chance(60) { nt + i as i64 } else { nt });
        }
        seen.push(v.clone());
        if wrapped {
            rules.push((1000, vec![1001 + i as i64]));
            rules.push((1001 + i as i64, v));
        } else {
            rules.push((1000, v));
        }
    }
    match r.below(6) {
        0 => rules.push((1000, vec![1000, nt])),
        1 => rules.push((1000, vec![0, 1000, nt])),
        2 => rules.push((1000, vec![])),
        3 => {
            // a sequence of statements
            rules.push((1099, vec![]));
            rules.push((1099, vec![1099, 1000, nt + k as i64]));
        }
        _ => {}
    }
    let start = if rules.iter().any(|x| x.0 == 1099) { 1099 } else { 1000 };
    for i in (1..rules.len()).rev() {
        let j = r.below(i + 1);
        rules.swap(i, j);
    }
    rules.dedup();
    Gram { rules, start }
}

/// long chains of symbols that begin with, or vanish into, one another; declared in any order
pub fn chains(r: &mut Rng, err: bool) -> Gram {
    let d = r.range(3, 14) as i64;
    let mut t = 3; // x 0, y 1, z 2
    let mut rules: Vec<(i64, Vec<i64>)> = vec![];
    let (s, y) = (1000, 1001);
    let a = |i: i64| 1002 + i;
    let mut first = vec![];
    if r.chance(70) {
        first.push(y);
        rules.push((y, vec![1]));
        if r.chance(30) {
            rules.push((y, vec![y, 1]));
        }
    }
    first.push(a(0));
    if r.chance(40) {
        first.push(a(r.below(d as usize) as i64));
    }
    if r.chance(80) {
        first.push(0);
    }
    rules.push((s, first));
    if r.chance(30) {
        rules.push((s, vec![2, s]));
    }
    for i in 0..d {
        let mut v = vec![];
        if i + 1 < d {
            v.push(a(i + 1));
            if r.chance(15) {
                v.push(a(r.range(i as usize + 1, d as usize - 1) as i64));
            }
            if r.chance(12) {
                v.push(t);
                t += 1;
            }
        } else if r.chance(60) {
        } else {
            v.push(t);
            t += 1;
        }
        rules.push((a(i), v));
        if r.chance(25) {
            let mut v = vec![t];
            t += 1;
            match r.below(if err { 5 } else { 3 }) {
                0 => v.push(a(r.below(d as usize) as i64)),
                3 => v.insert(0, ERR),
                4 => v.push(ERR),
                _ => {}
            }
            rules.push((a(i), v));
        }
    }
    if err && r.chance(50) {
        rules.push((if r.chance(50) { s } else { a(r.below(d as usize) as i64) }, vec![ERR, t]));
    }
    match r.below(3) {
        0 => {}
        1 => rules.reverse(),
        _ => {
            for i in (1..rules.len()).rev() {
                let j = r.below(i + 1);
                rules.swap(i, j);
            }
        }
    }
    rules.dedup();
    Gram { rules, start: s }
}

/// symbols that can be told apart by the order of their declaration only
pub fn rivals(r: &mut Rng, err: bool) -> Gram {
    let k = r.range(2, 4) as i64;
    let nt = r.range(2, 3);
    let pool: Vec<Vec<i64>> = (0..r.range(2, 4)).map(|_| (0..r.range(if err { 1 } else { 0 }, 2)).map(|i| if err && i == 0 && r.chance(30) { ERR } else { r.below(nt) as i64 }).collect()).collect();
    let mut rules: Vec<(i64, Vec<i64>)> = vec![];
    for i in 1..=k {
        let mut v = vec![1000 + i];
        if r.chance(25) {
            v.push(nt as i64 + r.below(2) as i64);
        }
        rules.push((1000, v));
        for p in &pool {
            if r.chance(65) {
                rules.push((1000 + i, p.clone()));
            }
        }
        if !rules.iter().any(|x| x.0 == 1000 + i) {
            rules.push((1000 + i, r.pick(&pool).clone()));
        }
    }
    if r.chance(25) {
        rules.push((1000, vec![nt as i64, 1000]));
    }
    for i in (1..rules.len()).rev() {
        let j = r.below(i + 1);
        rules.swap(i, j);
    }
    let mut out: Vec<(i64, Vec<i64>)> = vec![];
    for x in rules {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    Gram { rules: out, start: 1000 }
}
