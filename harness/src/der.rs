//! Residual automaton of a pattern list, used only to *choose* inputs (state/transition covers). The oracle is TLA+.
use crate::re::{Re, MAXC};
use std::collections::{BTreeSet, HashMap, VecDeque};

type K = Vec<Re>;
pub type State = BTreeSet<(usize, String)>; // printable residuals are enough to identify states

fn dec(h: Option<u32>) -> Option<u32> {
    h.map(|h| h.saturating_sub(1))
}
fn inc(v: &[(u32, u32)], c: u32) -> bool {
    v.iter().any(|r| r.0 <= c && c <= r.1)
}
fn step_re(r: &Re, c: u32) -> Vec<K> {
    match r {
        Re::Cls(v) => {
            if inc(v, c) {
                vec![vec![]]
            } else {
                vec![]
            }
        }
        Re::Cat(a, b) => {
            let mut o: Vec<K> = step_re(a, c);
            for k in o.iter_mut() {
                k.push((**b).clone())
            }
            if a.nullable() {
                o.extend(step_re(b, c))
            }
            o
        }
        Re::Alt(a, b) => {
            let mut o = step_re(a, c);
            o.extend(step_re(b, c));
            o
        }
        Re::Rep(l, h, a) => {
            if *h == Some(0) {
                return vec![];
            }
            let rest = Re::Rep(l.saturating_sub(1), dec(*h), a.clone());
            let mut o = step_re(a, c);
            if dec(*h) != Some(0) {
                for k in o.iter_mut() {
                    k.push(rest.clone())
                }
            }
            o
        }
    }
}
fn step_k(k: &[Re], c: u32, out: &mut Vec<K>) {
    if k.is_empty() {
        return;
    }
    for mut j in step_re(&k[0], c) {
        j.extend_from_slice(&k[1..]);
        out.push(j);
    }
    if k[0].nullable() {
        step_k(&k[1..], c, out)
    }
}

#[derive(Clone)]
pub struct St {
    pub ks: Vec<(usize, K)>,
}
impl St {
    fn key(&self) -> State {
        self.ks.iter().map(|(p, k)| (*p, format!("{:?}", k))).collect()
    }
    pub fn start(p: &[Re]) -> St {
        St { ks: p.iter().cloned().enumerate().map(|(i, r)| (i, vec![r])).collect() }
    }
    pub fn step(&self, c: u32) -> St {
        let mut seen = BTreeSet::new();
        let mut ks = vec![];
        for (p, k) in &self.ks {
            let mut o = vec![];
            step_k(k, c, &mut o);
            for j in o {
                if seen.insert((*p, format!("{:?}", j))) {
                    ks.push((*p, j))
                }
            }
        }
        St { ks }
    }
    pub fn accepts(&self) -> bool {
        self.ks.iter().any(|(_, k)| k.iter().all(|r| r.nullable()))
    }
}

pub fn good(c: u32) -> bool {
    c <= MAXC && !(0xD800..=0xDFFF).contains(&c)
}

/// characters on and next to every range boundary of the patterns
pub fn edges(p: &[Re], limit: usize) -> Vec<u32> {
    let mut cl = vec![];
    for r in p {
        r.classes(&mut cl)
    }
    let mut s = BTreeSet::new();
    for (a, b) in cl {
        for c in [a.wrapping_sub(1), a, b, b.wrapping_add(1)] {
            if good(c) {
                s.insert(c);
            }
        }
        if !good(a) {
            s.insert(0xE000);
        }
        if !good(b) {
            s.insert(0xD7FF);
        }
    }
    s.insert(97);
    let mut v: Vec<u32> = s.into_iter().collect();
    while v.len() > limit {
        // thin out evenly
        let n = v.len();
        let keep: Vec<u32> = (0..limit).map(|i| v[i * n / limit]).collect();
        v = keep;
    }
    v
}

pub struct Cover {
    pub access: Vec<Vec<u32>>,
    pub acc_suffix: Vec<Option<Vec<u32>>>,
    pub trans: Vec<(usize, u32, usize)>, // usize::MAX = dead
    pub complete: bool,
}

pub fn cover(p: &[Re], max_states: usize, max_chars: usize) -> Cover {
    let cs = edges(p, max_chars);
    let mut ids: HashMap<State, usize> = HashMap::new();
    let mut sts = vec![St::start(p)];
    let mut access = vec![vec![]];
    ids.insert(sts[0].key(), 0);
    let mut q: VecDeque<usize> = VecDeque::new();
    q.push_back(0);
    let mut trans = vec![];
    let mut complete = true;
    while let Some(i) = q.pop_front() {
        for &c in &cs {
            let n = sts[i].step(c);
            if n.ks.is_empty() {
                trans.push((i, c, usize::MAX));
                continue;
            }
            let k = n.key();
            let j = match ids.get(&k) {
                Some(j) => *j,
                None => {
                    if sts.len() >= max_states {
                        complete = false;
                        continue;
                    }
                    let j = sts.len();
                    ids.insert(k, j);
                    sts.push(n);
                    let mut w: Vec<u32> = access[i].clone();
                    w.push(c);
                    access.push(w);
                    q.push_back(j);
                    j
                }
            };
            trans.push((i, c, j));
        }
    }
    // shortest accepting suffix per state (backwards relaxation)
    let mut suf: Vec<Option<Vec<u32>>> = sts.iter().map(|s| if s.accepts() { Some(vec![]) } else { None }).collect();
    loop {
        let mut ch = false;
        for &(i, c, j) in &trans {
            if j == usize::MAX {
                continue;
            }
            if let Some(s) = suf[j].clone() {
                let better = match &suf[i] {
                    None => true,
                    Some(t) => t.len() > s.len() + 1,
                };
                if better {
                    let mut v = vec![c];
                    v.extend(s);
                    suf[i] = Some(v);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    Cover { access, acc_suffix: suf, trans, complete }
}

impl Cover {
    /// for every transition: access . c, then on to acceptance, then one more character
    pub fn words(&self, tail: &[u32]) -> Vec<Vec<u32>> {
        let mut out = BTreeSet::new();
        for (n, &(i, c, j)) in self.trans.iter().enumerate() {
            let mut w = self.access[i].clone();
            w.push(c);
            if j != usize::MAX {
                if let Some(s) = &self.acc_suffix[j] {
                    w.extend(s);
                }
                w.push(tail[n % tail.len()]);
            } else {
                w.push(tail[n % tail.len()]);
            }
            out.insert(w);
        }
        out.into_iter().collect()
    }
}
