//! Drives the file and configuration functions of smd-core and judges what
//! they do.
mod configs;
mod convert;
mod files;
mod render;

use std::collections::{BTreeMap, HashSet};

/// Deterministic random numbers (splitmix64).
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
    pub violations: Vec<(u64, String)>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.evaluations += o.evaluations;
        self.violations.extend(o.violations);
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s);
            }
        }
    }
    pub fn json(&self) -> String {
        let mut s = format!("{{\"evaluations\": {}, \"distinct\": {}, \"observed\": {{", self.evaluations, self.distinct.len());
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}: {v}", quote(k))).collect();
        s.push_str(&c.join(", "));
        s.push_str("}, \"samples\": [");
        s.push_str(&self.samples.iter().map(|x| quote(x)).collect::<Vec<_>>().join(", "));
        s.push_str("], \"violations\": [");
        let v: Vec<String> = self.violations.iter().take(20).map(|(n, w)| format!("{{\"case\": {n}, \"why\": {}}}", quote(w))).collect();
        s.push_str(&v.join(", "));
        s.push_str("]}");
        s
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a[i].parse().expect("number") };
    match a[1].as_str() {
        // files DIR SEED CASES THREADS [CASE]
        "files" => println!("{}", files::run(&a[2], num(3), num(4), num(5), a.get(6).map(|n| n.parse().expect("number"))).json()),
        // limit DIR SEED CASES
        "limit" => println!("{}", files::limit(&a[2], num(3), num(4)).json()),
        "config" => configs::serve(),
        "render" => render::serve(),
        // convert FILE...
        "convert" => convert::run(&a[2..]),
        other => panic!("{other}?"),
    }
}
