//! Choice-tape property engine (Hypothesis-style): every random decision of a
//! generator is one bounded integer drawn through [`G`].  A case is fully
//! determined by its tape, so replay is exact and shrinking works on the tape
//! for every generator (including stateful ones) without per-type shrinkers.

use std::{
    collections::{BTreeMap, HashSet},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicU8, Ordering},
    },
};

/// 1: write every draw to stdout as it is made; 2: write the case's input to
/// stdout before the code under test runs.  Used only to recover cases that
/// kill their process.
pub static DUMP: AtomicU8 = AtomicU8::new(0);

pub fn dump(s: &str) {
    use std::io::Write;
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

// ---------------------------------------------------------------- rng ------

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

// ---------------------------------------------------------------- tape -----

/// Source of generator choices.  `0` is always the "simplest" choice.
pub struct G {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    rec: Vec<u64>,
}

impl G {
    pub fn random(seed: u64) -> Self {
        G { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(tape: &[u64]) -> Self {
        G { tape: tape.to_vec(), pos: 0, rng: None, rec: vec![] }
    }
    /// Uniform in `0..n` (n ≥ 1).
    pub fn u(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if DUMP.load(Ordering::Relaxed) == 1 {
            dump(&format!(" {v}"));
        }
        v as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    /// True with probability `pct`/100; false is the simple choice.
    pub fn p(&mut self, pct: usize) -> bool {
        // Draw so that 0 means false.
        let v = self.u(100);
        v >= 100 - pct
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.u(xs.len())]
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.u(xs.len())].clone()
    }
    pub fn ch(&mut self, s: &str) -> char {
        let v: Vec<char> = s.chars().collect();
        v[self.u(v.len())]
    }
    /// Weighted index.
    pub fn w(&mut self, ws: &[usize]) -> usize {
        let t: usize = ws.iter().sum();
        let mut v = self.u(t);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// List of between lo and hi items, drawn with explicit continue flags so
    /// that deleting a stretch of tape removes items.
    pub fn list<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut v = vec![];
        while v.len() < lo {
            v.push(f(self));
        }
        // Mean roughly half-way.
        let span = hi.saturating_sub(lo);
        if span == 0 {
            return v;
        }
        let pct = (100 * span / (span + 2)).clamp(34, 92);
        while v.len() < hi && self.p(pct) {
            v.push(f(self));
        }
        v
    }
}

// ---------------------------------------------------------------- cx -------

#[derive(Default)]
pub struct Cx {
    pub input: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Cx {
    /// Records the human-readable form of the case (shown in replay files and
    /// hashed for the distinctness count).
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        if DUMP.load(Ordering::Relaxed) == 2 {
            dump(&format!("{}\n", self.input));
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial = b;
    }
}

pub type Outcome = Result<(), String>;
pub type CaseFn = fn(&mut G, &mut Cx) -> Outcome;

pub struct Family {
    pub name: &'static str,
    pub run: CaseFn,
    /// Cases in the quick tier (all shards together); thorough multiplies.
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

/// `ensure!(cond, "fmt", ..)` — early-return failure.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}\n  expected: {:?}\n  actual:   {:?}", format!($($t)*), a, b));
        }
    }};
}

static PANIC_AT: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if let Ok(mut p) = PANIC_AT.lock() {
            *p = format!("panic: {msg} at {loc}");
        }
    }));
}

pub struct Ran {
    pub cx: Cx,
    pub tape: Vec<u64>,
    pub out: Outcome,
}

pub fn run_case(f: CaseFn, mut g: G) -> Ran {
    let mut cx = Cx::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut g, &mut cx)));
    let out = match r {
        Ok(o) => o,
        Err(_) => Err(PANIC_AT.lock().map(|p| p.clone()).unwrap_or_default()),
    };
    let mut tape = std::mem::take(&mut g.rec);
    if g.rng.is_none() {
        // Canonical: drop the unused suffix of simplest choices.
        while tape.last() == Some(&0) {
            tape.pop();
        }
    }
    Ran { cx, tape, out }
}

/// Shrinks a failing tape.  `fails` runs one tape and returns the (canonical)
/// tape if it still fails.
pub fn shrink(tape: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = tape;
    let mut left = budget;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || !seen.insert(cand.clone()) {
            return false;
        }
        *left -= 1;
        if let Some(t) = fails(&cand) {
            let t = if t.len() <= cand.len() { t } else { cand };
            if better(&t, best) {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !attempt(c, &mut best, &mut left) {
                    i += size.max(1);
                }
                if left == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Delete a choice while decrementing an earlier one (list flags).
        // Zero chunks.
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|v| *v = 0);
                    attempt(c, &mut best, &mut left);
                }
                i += size;
                if left == 0 {
                    return best;
                }
            }
        }
        // Minimise single values.
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if attempt(c, &mut best, &mut left) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if left == 0 {
                    return best;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn better(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

// ---------------------------------------------------------------- stats ----

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, cx: &Cx, want_sample: bool) {
        self.evals += 1;
        for l in &cx.labels {
            *self.labels.entry(l.to_string()).or_default() += 1;
        }
        if cx.nontrivial {
            self.nontrivial += 1;
            self.hashes.insert(hash_str(&cx.input));
            if want_sample {
                let mut s = cx.input.clone();
                if s.len() > 600 {
                    let mut e = 600;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s.push_str("…");
                }
                self.samples.push(s);
            }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
