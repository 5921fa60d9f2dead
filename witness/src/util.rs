//! Search harness: every case is run under catch_unwind; the first failing case is reported with its input.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// integer and string literals that occur in the source now but not on the tree the checks were made for
/// (passed by check.py; empty there): inputs that such code may treat specially
pub fn novel() -> &'static (Vec<u64>, Vec<String>) {
    static N: std::sync::OnceLock<(Vec<u64>, Vec<String>)> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let i = std::env::var("WIT_INTS").unwrap_or_default(); let s = std::env::var("WIT_STRS").unwrap_or_default();
        let mut v: Vec<u64> = vec![];
        for x in i.split(',').filter_map(|x| x.parse::<u64>().ok()) { for y in [x, x.wrapping_sub(1), x.wrapping_add(1)] { if !v.contains(&y) { v.push(y); } } }
        let un = |h: &str| -> Option<String> { let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect(); String::from_utf8(b?).ok() };
        (v, s.split(',').filter(|x| !x.is_empty()).filter_map(un).collect())
    })
}
/// those of the novel integers that lie in a range (as lengths, counts, depths)
pub fn novel_in(lo: usize, hi: usize) -> Vec<usize> { novel().0.iter().filter(|x| **x >= lo as u64 && **x <= hi as u64).take(40).map(|x| *x as usize).collect() }
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn byte(&mut self) -> u8 { let n = &novel().0; if !n.is_empty() && self.chance(1, 6) { return *self.pick(n) as u8; } (self.next() >> 24) as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n > 0 && self.chance(1, 6) { // nearly constant: one or two bytes differ, often at an end
            let f = if self.chance(2, 3) { 0 } else { 0xFF };
            let mut v = vec![f; n];
            for _ in 0..1 + self.below(2) { let i = match self.below(3) { 0 => 0, 1 => n - 1, _ => self.below(n) }; v[i] = match self.below(5) { 0 => 1, 1 => 0x7F, 2 => 0x80, 3 => 0xFF - f, _ => self.byte() }; }
            return v;
        }
        (0..n).map(|_| self.byte()).collect()
    }
    /// some byte lanes set
    fn lanes(&mut self) -> u64 { (0..8).fold(0, |m, i| if self.chance(1, 2) { m | 0xFF << (8 * i) } else { m }) }
    /// u64 biased to boundaries: powers of two and of 256, ILInt thresholds, small numbers
    pub fn u64b(&mut self) -> u64 {
        let n = &novel().0; if !n.is_empty() && self.chance(1, 5) { let x = *self.pick(n); return match self.below(6) { 0 => x.wrapping_mul(2), 1 => x.wrapping_add(0xF8), 2 => x.wrapping_neg(), 3 => x / 2, _ => x }; }
        match self.below(8) {
            6 => { let m = self.lanes(); let v = self.next() & m; if self.chance(1, 2) { v.wrapping_add(0xF8) } else { v } }
            7 => { let m = self.lanes(); let v = self.next() | m; if self.chance(1, 2) { v.wrapping_add(0xF8) } else { v } }
            0 => self.next() % 600,
            1 => { let k = self.below(9); let b: u128 = if k == 0 { 0 } else { (1u128 << (8 * k)) - 1 };
                   (b as u64).wrapping_add(0xF8).wrapping_add(self.next() % 5).wrapping_sub(2) }
            2 => { let k = self.below(64); (1u64 << k).wrapping_add(self.next() % 5).wrapping_sub(2) }
            3 => { let k = self.below(64); self.next() >> k }
            4 => u64::MAX - self.next() % 600,
            _ => self.next(),
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub struct Ctx {
    pub rng: Rng,
    pub n: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<(String, String, String)>,
    /// one of several threads at once: small inputs, shared factories
    pub light: bool,
    pub rules: Vec<String>,
}

fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

impl Ctx {
    pub fn new(seed: u64, n: u64) -> Ctx {
        Ctx { rng: Rng::new(seed), n, evals: 0, distinct: HashSet::new(), samples: vec![], fail: None, light: false, rules: vec![] }
    }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()); }
    pub fn stop(&self) -> bool { self.fail.is_some() }
    /// run one case; `input` describes it completely
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, what: &str, input: impl Fn() -> String, f: F) {
        if self.fail.is_some() { return; }
        self.evals += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut small = self.distinct.len() < 2_000_000;
        if self.samples.len() >= 8 { small = small && true; }
        if small {
            let i = input();
            let h = fnv(what) ^ fnv(&i);
            if self.distinct.insert(h) && (self.samples.len() < 3 || (self.samples.len() < 12 && self.evals % 997 == 0)) {
                let mut i = i; if i.len() > 300 { let mut c = 300; while !i.is_char_boundary(c) { c -= 1; } i.truncate(c); i.push_str("..."); }
                self.samples.push(format!("{}: {}", what, i));
            }
        }
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => self.fail = Some((what.to_string(), input(), e)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail = Some((what.to_string(), input(), format!("panicked: {}", m)))
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
pub fn ok(what: &str, c: bool) -> Result<(), String> { if c { Ok(()) } else { Err(format!("not so: {}", what)) } }

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"'); r
}

/// lengths around the places where code tends to change behaviour
pub const BIG: [usize; 24] = [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70001];
pub fn bigs() -> Vec<usize> { let mut v = BIG.to_vec(); v.extend(novel_in(1, 300_000)); v }
pub fn pattern(n: usize, salt: u8) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add((i >> 8) as u8).wrapping_add(salt)).collect() }
/// short description of a byte string; long ones come from `pattern`
pub fn show(b: &[u8]) -> String { if b.len() <= 1200 { hex(b) } else { format!("<{} bytes, byte i = 37*i + (i>>8) + {}>", b.len(), b[0]) } }
pub fn eqb(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let d = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    if got.len().max(want.len()) <= 200 { Err(format!("{}: got {}, expected {}", what, hex(got), hex(want))) }
    else { Err(format!("{}: {} bytes, expected {}, first difference at {}: got {:?}, expected {:?}", what, got.len(), want.len(), d, got.get(d), want.get(d))) }
}
