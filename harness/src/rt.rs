//! Case bookkeeping: seeded randomness, counters, failures.
use std::{
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    time::{Duration, Instant},
};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn u8(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.below(one_in) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Numbers near powers of two and other edges as often as uniform ones.
    pub fn edgy_u64(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(300),
            1 => {
                let k = self.below(64);
                (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2)
            }
            2 => self.next() >> self.below(64),
            _ => *self.pick(&[0, 1, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, 16777214, 16777215, 16777216, u32::MAX as u64, u64::MAX]),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.usize(max + 1);
        let interesting: &[char] = &[
            '\'', '"', '\\', '`', '\0', '\n', '\r', '\t', '\u{8}', '\u{1a}', ' ', '%', '_', 'a', 'Z', '0', 'n', 'z', 'b', 't', 'r', '.', ';', '-', '#',
            '\u{7f}', '\u{80}', '\u{a0}', 'ä', '\u{2003}', '\u{ffff}', '\u{10000}', '\u{1F600}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{3000}', '\u{1}', '\u{b}',
        ];
        (0..n)
            .map(|_| {
                if self.below(3) < 2 {
                    *self.pick(interesting)
                } else {
                    loop {
                        if let Some(c) = char::from_u32(self.below(0x110000) as u32) {
                            break c;
                        }
                    }
                }
            })
            .collect()
    }
}

pub struct Failure {
    pub key: String,
    pub detail: String,
    pub count: u64,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: BTreeMap<String, Failure>,
    pub rules: Vec<String>,
    start: Instant,
    pub budget: Duration,
    pub only: Option<String>,
}

fn hash(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn short(s: &str) -> String {
    if s.len() <= 600 {
        s.to_owned()
    } else {
        let mut a = 400;
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        format!("{}… ({} bytes)", &s[..a], s.len())
    }
}

pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 200 {
        b.iter().map(|x| format!("{x:02x}")).collect()
    } else {
        format!("{}…({} bytes, fnv {:016x})", b[..64].iter().map(|x| format!("{x:02x}")).collect::<String>(), b.len(), hash(b))
    }
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx {
            rng: Rng::new(seed),
            thorough,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            failures: BTreeMap::new(),
            rules: Vec::new(),
            start: Instant::now(),
            budget: Duration::from_secs(if thorough { 400 } else { 45 }),
            only: None,
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_owned());
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }
    /// Counts one case. `nontrivial` cases are told apart by their description.
    pub fn case(&mut self, desc: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.insert(hash(desc.as_bytes())) && (self.samples.len() < 6 || (self.samples.len() < 12 && self.distinct.len() % 997 == 0)) {
            self.samples.push(short(desc));
        }
    }
    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }
    pub fn fail(&mut self, key: &str, detail: impl Into<String>) {
        let f = self.failures.entry(key.to_owned()).or_insert_with(|| Failure { key: key.to_owned(), detail: String::new(), count: 0 });
        f.count += 1;
        if f.count == 1 {
            f.detail = short(&detail.into());
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(key, d);
        }
        ok
    }
    /// Runs `f`; a panic is a failure under `key`.
    pub fn guard<T>(&mut self, key: &str, desc: &str, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(x) => Some(x),
            Err(msg) => {
                self.fail(key, format!("panic \"{msg}\" on {desc}"));
                None
            }
        }
    }
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }
    })
}
