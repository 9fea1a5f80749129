//! Cases, shards, shrinking, results.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x2545F4914F6CDD1D));
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
}

pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static KIND: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
pub static PANIC: Mutex<Option<String>> = Mutex::new(None);
pub static OUT: Mutex<Option<String>> = Mutex::new(None);

/// The case cannot be finished: report it and end the process
pub fn die(why: &str) -> ! {
    crate::dev::close();
    let (p, k) = KIND.try_lock().map(|g| g.clone()).unwrap_or_default();
    let s = format!("{{\"died\":{},\"property\":{},\"kind\":{},\"idx\":{}}}\n", js(why), js(&p), js(&k), CASE.load(Ordering::SeqCst));
    if let Ok(o) = OUT.try_lock() { if let Some(f) = &*o { let _ = std::fs::write(f, &s); } }
    eprint!("{s}");
    unsafe { libc::_exit(3) }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e && (c as u32) < 0xa0 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Fail { pub idx: u64, pub kind: String, pub msg: String, pub case: String, pub shrunk: String }

pub trait Kind {
    fn name(&self) -> &str;
    fn count(&self, thorough: bool) -> u64;
    fn exhaustive(&self) -> bool;
    fn show(&self, seed: u64, idx: u64) -> String;
    /// Ok(None): no such case
    fn run(&self, seed: u64, idx: u64, shrink: bool) -> (Option<u64>, Option<Fail>);
}

pub struct K<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// quick and thorough are then the size of the whole space
    pub all: bool,
    pub gen: fn(u64, &mut Rng) -> C,
    pub run: fn(&C) -> Result<(), String>,
    pub shrink: fn(&C) -> Vec<C>,
}

pub fn no_shrink<C>(_: &C) -> Vec<C> { vec![] }

/// every way to leave out a part of a list
pub fn cuts<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![];
    let mut n = v.len() / 2;
    while n > 0 {
        let mut i = 0;
        while i < v.len() {
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[(i + n).min(v.len())..]);
            o.push(w);
            i += n;
        }
        n /= 2;
    }
    o
}

fn guarded<C>(run: fn(&C) -> Result<(), String>, c: &C) -> Result<(), String> {
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let r = catch_unwind(AssertUnwindSafe(|| run(c)));
    crate::dev::close();
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or_default())),
    }
}

impl<C: Clone + Debug> Kind for K<C> {
    fn name(&self) -> &str { self.name }
    fn count(&self, t: bool) -> u64 { if t { self.thorough } else { self.quick } }
    fn exhaustive(&self) -> bool { self.all }
    fn show(&self, seed: u64, idx: u64) -> String {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.name.hash(&mut h);
        format!("{:?}", (self.gen)(idx, &mut Rng::new(seed, h.finish(), idx)))
    }
    fn run(&self, seed: u64, idx: u64, shrink: bool) -> (Option<u64>, Option<Fail>) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.name.hash(&mut h);
        let mut rng = Rng::new(seed, h.finish(), idx);
        let c = (self.gen)(idx, &mut rng);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let text = format!("{:?}", c);
        text.hash(&mut h);
        let r = guarded(self.run, &c);
        let f = r.err().map(|msg| {
            let (mut best, mut bmsg) = (c.clone(), msg);
            if shrink {
                let t0 = Instant::now();
                'outer: while t0.elapsed() < Duration::from_secs(10) {
                    for s in (self.shrink)(&best) {
                        if let Err(m) = guarded(self.run, &s) { best = s; bmsg = m; continue 'outer }
                    }
                    break;
                }
            }
            Fail { idx, kind: self.name.into(), msg: bmsg, case: text, shrunk: format!("{:?}", best) }
        });
        (Some(h.finish()), f)
    }
}

pub struct Res { pub fails: Vec<Fail>, pub evals: u64, pub distinct: usize, pub per: Vec<(String, u64, u64, bool)>, pub samples: Vec<String> }

pub fn explore(prop: &str, kinds: &[Box<dyn Kind>], thorough: bool, seed: u64, shard: u64, of: u64, budget: f64) -> Res {
    let t0 = Instant::now();
    let mut r = Res { fails: vec![], evals: 0, distinct: 0, per: vec![], samples: vec![] };
    let mut seen: HashSet<u64> = HashSet::new();
    let total: f64 = kinds.len() as f64;
    for (kn, k) in kinds.iter().enumerate() {
        *KIND.lock().unwrap_or_else(|e| e.into_inner()) = (prop.into(), k.name().into());
        let n = k.count(thorough);
        let mut idx = shard;
        let mut done = 0;
        let end = budget * (kn as f64 + 1.0) / total;
        let mut cut = false;
        let mut kf = 0;
        while idx < n {
            if done % 64 == 0 && t0.elapsed().as_secs_f64() > end { cut = true; break }
            CASE.store(idx, Ordering::SeqCst);
            let (h, f) = k.run(seed, idx, true);
            if let Some(h) = h {
                if seen.len() < 4_000_000 { seen.insert(h); }
            }
            done += 1;
            if let Some(f) = f { r.fails.push(f); kf += 1; if kf >= 3 { break } }
            idx += of;
        }
        r.evals += done;
        r.per.push((k.name().into(), done, n, k.exhaustive() && !cut && kf == 0));
    }
    r.distinct = seen.len();
    r
}

pub fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, Instant::now());
        let mut k = String::new();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE.load(Ordering::SeqCst);
            let kk = KIND.lock().map(|g| g.1.clone()).unwrap_or_default();
            if c != last || kk != k { last = c; k = kk; since = Instant::now(); }
            else if since.elapsed() > Duration::from_secs(60) && c != u64::MAX { die("the library does not return (60 s)") }
        }
    });
}
