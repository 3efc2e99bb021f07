//! Choice tape, virtual clock, event log and per-run statistics.

use std::collections::BTreeMap;

/// xoshiro256** seeded with splitmix64
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }

    pub fn byte(&mut self) -> u8 {
        (self.next() >> 32) as u8
    }

    pub fn fill(&mut self, dst: &mut [u8]) {
        for c in dst.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[.. c.len()]);
        }
    }
}

/// A run ends with a violation of the property: a stable class and a message.
#[derive(Debug, Clone, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg })
}

#[derive(Debug, Clone)]
pub struct Ev {
    pub t: u64,
    pub kind: &'static str,
    pub args: [u64; 3],
}

#[derive(Default, Clone)]
pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub checks: u64,
    pub events: u64,
    pub sim_us: u64,
    pub known: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.faults { *self.faults.entry(k).or_default() += v; }
        for (k, v) in &o.probes { *self.probes.entry(k).or_default() += v; }
        for (k, v) in &o.known { *self.known.entry(k).or_default() += v; }
        self.checks += o.checks;
        self.events += o.events;
        self.sim_us += o.sim_us;
    }
}

pub struct Ctx {
    rng: Rng,
    pub tape: Vec<u32>,
    input: Option<Vec<u32>>,
    pos: usize,
    trace: Option<std::fs::File>,

    /// virtual time, us
    pub now: u64,
    pub keep_log: bool,
    pub log: Vec<Ev>,
    pub hash: u64,
    pub stats: Stats,
    pub states: Vec<u64>,
    /// the run injects faults
    pub faulty: bool,
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for &x in b {
        h ^= u64::from(x);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

impl Ctx {
    fn base(seed: u64) -> Ctx {
        Ctx {
            rng: Rng::new(seed),
            tape: Vec::new(),
            input: None,
            pos: 0,
            trace: None,
            now: 0,
            keep_log: false,
            log: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            stats: Stats::default(),
            states: Vec::new(),
            faulty: false,
        }
    }

    pub fn generate(seed: u64) -> Ctx { Ctx::base(seed) }

    pub fn replay(tape: &[u32]) -> Ctx {
        let mut c = Ctx::base(0);
        c.input = Some(tape.to_vec());
        c
    }

    pub fn set_trace(&mut self, f: std::fs::File) { self.trace = Some(f); }

    /// The only source of choices: a value in 0 .. n, 0 is the simplest
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.input {
            None => self.rng.below(u64::from(n)) as u32,
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        self.tape.push(v);
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn idx(&mut self, n: usize) -> usize { self.draw(n as u32) as usize }

    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u32) as usize
    }

    /// true with probability num / den
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.draw(den) >= den - num }

    /// true once in `n`
    pub fn rare(&mut self, n: u32) -> bool { self.draw(n) == n - 1 }

    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.idx(v.len())] }

    /// value of `bits` bits with a bias to the ends of the range
    pub fn edge(&mut self, bits: u32) -> u64 {
        let max = (1u64 << bits) - 1;
        match self.draw(8) {
            0 => 0,
            1 => 1.min(max),
            2 => max,
            3 => max - 1.min(max),
            4 => 1u64 << self.draw(bits),
            _ => self.wide(max + 1),
        }
    }

    /// value below n (up to 2^63) with a bias to the ends
    pub fn edge_below(&mut self, n: u64) -> u64 {
        match self.draw(7) {
            0 => 0,
            1 => 1.min(n - 1),
            2 => n - 1,
            _ => self.wide(n),
        }
    }

    /// uniform value below n
    pub fn wide(&mut self, n: u64) -> u64 {
        if n <= u64::from(u32::MAX) {
            u64::from(self.draw(n as u32))
        } else {
            let hi = u64::from(self.draw(u32::MAX));
            let lo = u64::from(self.draw(u32::MAX));
            ((hi << 32) | lo) % n
        }
    }

    /// generator for bulk content, decided by one draw
    pub fn sub(&mut self) -> Rng { Rng::new(u64::from(self.draw(u32::MAX)) + 1) }

    /// small counts mostly, large sometimes
    pub fn count(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.draw(8) {
            0 ..= 3 => self.range(0, max.min(3)),
            4 ..= 6 => self.range(0, max.min(12)),
            _ => self.range(0, max),
        }
    }

    pub fn ev(&mut self, kind: &'static str, a: u64, b: u64, c: u64) {
        let mut h = fnv(self.hash, kind.as_bytes());
        h = mix(h, self.now);
        h = mix(h, a);
        h = mix(h, b);
        h = mix(h, c);
        self.hash = h;
        self.stats.events += 1;
        if self.keep_log {
            self.log.push(Ev { t: self.now, kind, args: [a, b, c] });
        }
    }

    pub fn ev_bytes(&mut self, kind: &'static str, a: u64, data: &[u8]) {
        let d = fnv(0xcbf2_9ce4_8422_2325, data);
        self.ev(kind, a, data.len() as u64, d);
    }

    /// a fault was injected
    pub fn fault(&mut self, kind: &'static str, a: u64, b: u64) {
        *self.stats.faults.entry(kind).or_default() += 1;
        self.ev(kind, a, b, 0);
    }

    /// a condition of interest was reached
    pub fn probe(&mut self, kind: &'static str) {
        *self.stats.probes.entry(kind).or_default() += 1;
    }

    /// abstract state reached
    pub fn state(&mut self, s: u64) {
        self.states.push(s);
    }

    /// an oracle was evaluated
    pub fn checked(&mut self) { self.stats.checks += 1; }

    pub fn known(&mut self, id: &'static str) {
        *self.stats.known.entry(id).or_default() += 1;
    }
}
