//! Monitors for the library: each mode drives random scenarios until the time is up, checks every one of
//! them, and prints one JSON line with what was observed.  Exit status 0 also for violations.
mod counter;
mod gzlines;
mod segments;
mod topk;
mod windows;

use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 { r.0 = 1; }
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n.max(1) }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())].clone() }
    pub fn chance(&mut self, percent: usize) -> bool { self.below(100) < percent }
}

#[derive(Default)]
pub struct Seen {
    pub counts: BTreeMap<String, u64>,
    pub keys: BTreeSet<u64>,
    pub sample: String,
}

impl Seen {
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n; }
    pub fn key<H: std::hash::Hash>(&mut self, h: H) {
        use std::hash::Hasher;
        let mut d = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut d);
        if self.keys.len() < 400 { self.keys.insert(d.finish()); }
    }
}

pub type Verdict = Result<(), String>;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, ms, dir) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a.get(4).cloned().unwrap_or_default());
    let small = a.get(5).map(|s| s == "small").unwrap_or(false);
    let one: Option<u64> = a.get(6).map(|s| s.parse().unwrap());
    let start = Instant::now();
    let mut seen = Seen::default();
    let mut bad: Option<(u64, String)> = None;
    let mut i = 0u64;
    while (start.elapsed() < Duration::from_millis(ms) || i == 0) && bad.is_none() {
        let sub = one.unwrap_or(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let mut rng = Rng::new(sub);
        let r = match mode {
            "counter" => counter::scenario(&mut rng, &mut seen, small),
            "topk" => topk::scenario(&mut rng, &mut seen, small),
            "windows" => windows::scenario(&mut rng, &mut seen, small),
            "segments" => segments::scenario(&mut rng, &mut seen, small),
            "gzlines" => gzlines::scenario(&mut rng, &mut seen, &dir, small),
            _ => panic!("mode"),
        };
        if let Err(m) = r { bad = Some((sub, m)); }
        i += 1;
    }
    seen.count("scenarios", i);
    let counts: Vec<String> = seen.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let keys: Vec<String> = seen.keys.iter().map(|k| k.to_string()).collect();
    let v = match &bad { Some((s, m)) => format!("{{\"scenario\":\"{}\",\"message\":{}}}", s, esc(m)), None => "null".into() };
    println!("{{\"counts\":{{{}}},\"keys\":[{}],\"sample\":{},\"violation\":{}}}", counts.join(","), keys.join(","), esc(&seen.sample), v);
}
