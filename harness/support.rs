//! Runtime support of the concrete oracle harness.  Compiled into a scratch copy of the crate, never into /repo.
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Ctx {
    s: u64,
    pub mult: u64,
    ints: Vec<u64>,
    novel_ints: Vec<u64>,
    strs: Vec<String>,
    novel_strs: Vec<String>,
    pub cases: BTreeMap<String, u64>,
    pub fails: Vec<(String, String, String)>,
    cur: Option<File>,
    tick: Arc<AtomicU64>,
    now: Arc<Mutex<(String, String)>>,
    last_panic: Arc<Mutex<String>>,
}

pub const EDGE: &[u64] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025,
    4095, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
    (1 << 40), (1 << 50) - 1, 1 << 50, (1 << 53), (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX,
];

impl Ctx {
    pub fn new() -> Ctx {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mult: u64 = std::env::var("VERIF_MULT").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mut c = Ctx {
            s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def1,
            mult, ints: vec![], novel_ints: vec![], strs: vec![], novel_strs: vec![],
            cases: BTreeMap::new(), fails: vec![],
            cur: std::env::var("VERIF_CUR").ok().and_then(|p| File::create(p).ok()),
            tick: Arc::new(AtomicU64::new(0)),
            now: Arc::new(Mutex::new((String::new(), String::new()))),
            last_panic: Arc::new(Mutex::new(String::new())),
        };
        if let Ok(p) = std::env::var("VERIF_DICT") {
            if let Ok(t) = std::fs::read_to_string(p) {
                let d: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
                let f = |k: &str| -> Vec<u64> { d[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() };
                let g = |k: &str| -> Vec<String> { d[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() };
                c.ints = f("ints"); c.novel_ints = f("novel_ints"); c.strs = g("strs"); c.novel_strs = g("novel_strs");
            }
        }
        let lp = c.last_panic.clone();
        std::panic::set_hook(Box::new(move |i| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            if let Ok(mut g) = lp.lock() { *g = format!("panicked: {} at {:?}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line()))); }
        }));
        let (tick, now) = (c.tick.clone(), c.now.clone());
        std::thread::spawn(move || {
            let mut last = u64::MAX; let mut same = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let t = tick.load(Ordering::Relaxed);
                if t == last { same += 1 } else { same = 0; last = t }
                if same >= 60 {
                    let g = now.lock().unwrap();
                    let o = serde_json::json!({"cases": {}, "fails": [[g.0, g.1, "did not finish within 60 s"]]});
                    println!("VERIF-RESULT {}", o);
                    std::process::exit(0);
                }
            }
        });
        c
    }

    // ---- random values ------------------------------------------------------------------------
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { let i = self.below(v.len() as u64) as usize; v[i].clone() }
    /// any 64-bit number, biased to edges and to the constants the code itself mentions
    pub fn int(&mut self) -> u64 {
        let r = self.below(16);
        if r < 4 && !self.novel_ints.is_empty() { let v = self.novel_ints.clone(); return self.jitter(&v); }
        if r < 7 && !self.ints.is_empty() { let i = self.below(self.ints.len() as u64) as usize; let v = [self.ints[i]]; return self.jitter(&v); }
        match r { 0..=9 => self.pick(EDGE), 10 => self.u64() & 0xff, 11 => self.u64() & 0xffff, 12 => self.u64() & 0xffff_ffff, 13 => 1u64 << self.below(64), _ => { let k = self.below(64); self.u64() >> k } }
    }
    fn jitter(&mut self, v: &[u64]) -> u64 {
        let x = self.pick(v);
        match self.below(8) { 0 => x.wrapping_add(1), 1 => x.wrapping_sub(1), 2 => x.wrapping_mul(2), 3 => x / 2, 4 => x.wrapping_add(2), 5 => x.wrapping_add(x), _ => x }
    }
    pub fn int_in(&mut self, lo: u64, hi: u64) -> u64 {
        for _ in 0..4 { let x = self.int(); if x >= lo && x <= hi && self.p(7, 8) { return x; } }
        match self.below(4) { 0 => lo, 1 => hi, 2 if hi - lo > 0 => { if self.p(1, 2) { lo + 1 } else { hi - 1 } }, _ => if hi - lo == u64::MAX { self.u64() } else { self.range(lo, hi) } }
    }
    pub fn u32(&mut self) -> u32 { self.int_in(0, u32::MAX as u64) as u32 }
    pub fn i32(&mut self) -> i32 { if self.p(1, 6) { -(self.below(1000) as i32) - 1 } else if self.p(1, 20) { i32::MIN } else { self.int_in(0, i32::MAX as u64) as i32 } }
    pub fn u8(&mut self) -> u8 { match self.below(6) { 0 => 0, 1 => 255, 2 => 127 + self.below(2) as u8, _ => self.u64() as u8 } }
    pub fn fid(&mut self) -> u64 { if self.p(1, 12) { self.int() } else { self.int_in(0, u32::MAX as u64) } }
    pub fn fid32(&mut self) -> u64 { self.int_in(0, u32::MAX as u64) }
    /// n bytes: uniform, biased to edges, runs of one value, or a repeated short pattern
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => (0..n).map(|_| self.u8()).collect(),
            1 => { let mut v = Vec::with_capacity(n); while v.len() < n { let b = self.u8(); let k = 1 + self.below(n as u64 + 1) as usize; for _ in 0..k.min(n - v.len()) { v.push(b) } } v }
            2 => { let k = 1 + self.below(4) as usize; let pat: Vec<u8> = (0..k).map(|_| self.u8()).collect(); (0..n).map(|i| pat[i % k]).collect() }
            _ => (0..n).map(|_| self.u64() as u8).collect(),
        }
    }
    /// copies some elements over others, so that equal elements meet
    pub fn dup<T: Clone>(&mut self, v: &mut Vec<T>) {
        if v.len() < 2 { return; }
        let n = v.len() as u64;
        for _ in 0..1 + self.below(n) { let i = self.below(n) as usize; let j = if self.p(1, 2) { (i + 1) % v.len() } else { self.below(n) as usize }; v[j] = v[i].clone(); }
    }
    /// a length around one of the given boundaries, or a small one
    pub fn len(&mut self, around: &[u64]) -> usize {
        let r = self.below(8);
        let x = if r < 5 && !around.is_empty() { let b = self.pick(around); match self.below(4) { 0 => b.saturating_sub(1), 1 => b + 1, 2 => b, _ => if b > 0 { self.below(b) } else { 0 } } }
            else if r < 6 && !self.novel_ints.is_empty() { let v = self.novel_ints.clone(); self.jitter(&v) }
            else if r < 7 { self.below(40) } else { self.int() };
        let cap = around.iter().max().cloned().unwrap_or(64) * 2 + 8;
        (x % (cap + 1)) as usize
    }
    pub fn blob(&mut self, around: &[u64]) -> Vec<u8> { let n = self.len(around); self.bytes(n) }
    /// text of exactly n bytes, mixing 1- to 4-byte characters
    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        let uni = self.p(1, 3);
        while s.len() < n {
            let left = n - s.len();
            let c = if uni && self.p(1, 3) { self.pick(&['é', '中', '😀', 'ß', '\u{0}', '\u{202e}']) } else { (b'!' + self.below(94) as u8) as char };
            if c.len_utf8() <= left { s.push(c) }
        }
        s
    }
    pub fn dict_str(&mut self) -> Option<String> {
        if !self.novel_strs.is_empty() && self.p(1, 2) { let v = self.novel_strs.clone(); return Some(self.pick(&v)); }
        if self.strs.is_empty() { None } else { let i = self.below(self.strs.len() as u64) as usize; Some(self.strs[i].clone()) }
    }
    /// text around a length boundary
    pub fn string(&mut self, around: &[u64]) -> String {
        if self.p(1, 8) { if let Some(s) = self.dict_str() { return s; } }
        let n = self.len(around); self.text(n)
    }
    pub fn alpha(&mut self, set: &str, n: usize) -> String { let v: Vec<char> = set.chars().collect(); (0..n).map(|_| self.pick(&v)).collect() }
    pub fn mutate(&mut self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        for _ in 0..1 + self.below(3) {
            match self.below(6) {
                0 if !v.is_empty() => { let i = self.below(v.len() as u64) as usize; let k = self.below(8); v[i] ^= 1 << k }
                1 if !v.is_empty() => { let i = self.below(v.len() as u64) as usize; v.remove(i); }
                2 => { let i = self.below(v.len() as u64 + 1) as usize; let x = self.u8(); v.insert(i, x) }
                3 if !v.is_empty() => { let i = self.below(v.len() as u64 + 1) as usize; v.truncate(i) }
                4 => { let n = self.below(5) as usize; let e = self.bytes(n); v.extend(e) }
                _ if !v.is_empty() => { let i = self.below(v.len() as u64) as usize; v[i] = self.u8() }
                _ => {}
            }
        }
        v
    }
    pub fn rounds(&self, base: u64) -> u64 { base * self.mult }
    pub fn enough(&self) -> bool { self.fails.len() >= 24 }

    // ---- checking -----------------------------------------------------------------------------
    /// One concrete case of a named obligation: `f` runs the real code and compares it with the oracle.
    pub fn case(&mut self, ob: &str, input: impl Into<String>, f: impl FnOnce() -> Result<(), String>) {
        let input: String = input.into();
        *self.cases.entry(ob.to_string()).or_insert(0) += 1;
        if self.fails.iter().filter(|x| x.0 == ob).count() >= 3 { return; }
        self.tick.fetch_add(1, Ordering::Relaxed);
        if let Some(fl) = &self.cur {
            let mut b = format!("{}\n{}", ob, input).into_bytes(); b.truncate(4000); b.resize(4096, b' ');
            let _ = fl.write_all_at(&b, 0);
        }
        if let Ok(mut g) = self.now.lock() { g.0 = ob.to_string(); g.1 = input.clone(); }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(self.last_panic.lock().map(|g| g.clone()).unwrap_or_default()),
        };
        if let Err(e) = r { self.fails.push((ob.to_string(), input, e)); }
    }
    pub fn finish(&self) {
        let o = serde_json::json!({"cases": self.cases, "fails": self.fails});
        println!("VERIF-RESULT {}", o);
        let _ = std::io::stdout().flush();
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else {
        let mut g = format!("{:?}", got); let mut w = format!("{:?}", want);
        if g.len() > 600 { g = g.chars().take(600).collect(); } if w.len() > 600 { w = w.chars().take(600).collect(); }
        Err(format!("{}: the code gives {}, the specification {}", what, g, w)) }
}
pub fn holds(what: &str, ok: bool) -> Result<(), String> { if ok { Ok(()) } else { Err(format!("{} does not hold", what)) } }
pub fn block_on<F: std::future::Future>(f: F) -> F::Output { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f) }
// ---- reference encodings, written out digit by digit ------------------------------------------
pub fn be(x: u64, n: usize) -> Vec<u8> { (0..n).map(|i| { let k = n - 1 - i; if k >= 8 { 0 } else { (x >> (8 * k)) as u8 } }).collect() }
/// concatenation
pub fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
/// the user part of a key
pub fn ukey(fid: u64) -> Vec<u8> { cat(&[&[3], &be(fid % (1 << 32), 4)]) }
pub fn fkey(fid: u64) -> Vec<u8> { be(fid % (1 << 32), 4) }
