//! Tiny JSON value, RNG, watchdog and panic helpers (no external crates: builds offline and fast).
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn ints<T: Copy + TryInto<i64>>(v: &[T]) -> J {
        J::A(v.iter().map(|x| J::I((*x).try_into().ok().unwrap())).collect())
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::O(v) if v.iter().any(|x| x.0 == k))
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            _ => panic!("int expected, got {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> J {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        pv(&b, &mut i)
    }
}

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1
    }
}

fn pv(b: &[char], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == '}' {
                    *i += 1;
                    return J::O(v);
                }
                if b[*i] == ',' {
                    *i += 1;
                    ws(b, i);
                }
                let k = match pv(b, i) {
                    J::S(s) => s,
                    _ => panic!("key"),
                };
                ws(b, i);
                assert_eq!(b[*i], ':');
                *i += 1;
                let x = pv(b, i);
                v.push((k, x));
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == ']' {
                    *i += 1;
                    return J::A(v);
                }
                if b[*i] == ',' {
                    *i += 1;
                }
                v.push(pv(b, i));
            }
        }
        '"' => {
            *i += 1;
            let mut u: Vec<u16> = vec![];
            loop {
                let c = b[*i];
                *i += 1;
                match c {
                    '"' => return J::S(String::from_utf16_lossy(&u)),
                    '\\' => {
                        let e = b[*i];
                        *i += 1;
                        match e {
                            'n' => u.push(10),
                            't' => u.push(9),
                            'r' => u.push(13),
                            'b' => u.push(8),
                            'f' => u.push(12),
                            'u' => {
                                let h: String = b[*i..*i + 4].iter().collect();
                                *i += 4;
                                u.push(u16::from_str_radix(&h, 16).unwrap());
                            }
                            c => u.push(c as u16),
                        }
                    }
                    c => {
                        let mut buf = [0u16; 2];
                        u.extend_from_slice(c.encode_utf16(&mut buf));
                    }
                }
            }
        }
        't' => {
            *i += 4;
            J::B(true)
        }
        'f' => {
            *i += 5;
            J::B(false)
        }
        'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == '-' || b[*i].is_ascii_digit()) {
                *i += 1
            }
            let t: String = b[st..*i].iter().collect();
            J::I(t.parse().unwrap_or_else(|_| panic!("bad json at {}", st)))
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::util::J::O(vec![$(($k.to_string(), $v)),*]) };
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

static CUR: Mutex<Option<(Instant, String)>> = Mutex::new(None);
static DONE: AtomicU64 = AtomicU64::new(0);

/// Start a watchdog: if one guarded call runs longer than `secs`, print `HANG <description>` and exit(3).
pub fn watchdog(secs: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let g = CUR.lock().unwrap();
        if let Some((t, d)) = &*g {
            if t.elapsed() > Duration::from_secs(secs) {
                println!("HANG {}", d);
                std::process::exit(3);
            }
        }
    });
}

/// Run `f` under the watchdog; a panic is data, not an error of the harness.
pub fn guarded<T>(desc: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    *CUR.lock().unwrap() = Some((Instant::now(), desc()));
    let r = catch_unwind(AssertUnwindSafe(f));
    *CUR.lock().unwrap() = None;
    DONE.fetch_add(1, Ordering::Relaxed);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// name=value command line arguments
pub struct Args(Vec<(String, String)>);
impl Args {
    pub fn new() -> Args {
        Args(std::env::args().skip(1).map(|a| a.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((a, String::new()))).collect())
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.iter().any(|x| x.0 == k)
    }
    pub fn get(&self, k: &str) -> Option<String> {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.clone())
    }
    pub fn num(&self, k: &str, d: usize) -> usize {
        self.get(k).map_or(d, |s| s.parse().unwrap())
    }
}

/// Sources describe what is left of them in all the ways an iterator may: not at all, exactly, from above, from below.
pub fn hint(style: usize, left: usize) -> (usize, Option<usize>) {
    match style % 4 {
        0 => (0, None),
        1 => (left, Some(left)),
        2 => (0, Some(left + style % 3)),
        _ => (left / 2, None),
    }
}
