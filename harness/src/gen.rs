use num_bigint::BigInt;
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, idx: u64, tag: &str) -> Rng {
        let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03);
        for b in tag.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u64); }
        let mut r = Rng(h); r.u64(); r.u64(); r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.u64() % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.below((b - a + 1) as u64) as i64) }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
}
/// integer literals of the source; `fresh`: those it did not contain when the contracts were written
pub struct Lits { fresh: Vec<i64>, all: Vec<i64> }
impl Lits {
    pub fn load(p: Option<String>) -> Lits {
        let t = p.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let v = |s: &str| -> Vec<i64> { s.split_whitespace().filter_map(|x| x.parse().ok()).collect() };
        let (f, a) = match t.find('-') { Some(i) => (v(&t[..i]), v(&t[i + 1..])), None => (vec![], v(&t)) };
        Lits { fresh: f, all: if a.is_empty() { vec![1] } else { a } }
    }
    fn one(&self, r: &mut Rng) -> i64 { if !self.fresh.is_empty() && r.chance(60) { *r.pick(&self.fresh) } else { *r.pick(&self.all) } }
    /// a value in [0, max] at, near, above, a multiple of, or with as many bits as a literal
    pub fn upto(&self, r: &mut Rng, max: i64) -> Option<i64> {
        for _ in 0..6 {
            let x = self.one(r);
            let y = match r.below(10) {
                0..=5 => x + r.range(-1, 1),
                6 => x.saturating_add(r.range(0, x.min(1 << 40))),
                7 => x.saturating_mul(r.range(1, 9)).saturating_add(r.range(-1, 2)),
                8 => if x <= 61 { (1i64 << x) + r.range(-1, 1) } else { continue },
                _ => if x <= 61 { (1i64 << x).saturating_add(r.range(0, 1i64 << x)) } else { continue },
            };
            if y >= 0 && y <= max { return Some(y); }
        }
        None
    }
    /// true in `cold` of 100 cases, `hot` if there are fresh literals
    pub fn chance(&self, r: &mut Rng, cold: u64, hot: u64) -> bool { let n = if self.fresh.is_empty() { cold } else { hot }; r.chance(n) }
}
/// integer of mixed size
pub fn int(r: &mut Rng, l: &Lits) -> BigInt {
    let v: BigInt = match r.below(20) {
        0..=8 => BigInt::from(r.range(-4, 12)),
        9..=11 => BigInt::from(r.range(-200, 200)),
        12..=14 => { let x = l.upto(r, i64::MAX / 4).unwrap_or(3); BigInt::from(if r.chance(30) { -x } else { x }) }
        15..=16 => BigInt::from((r.u64() >> r.range(1, 60)) as i64) * if r.chance(50) { 1 } else { -1 },
        17 => { let k = if r.chance(50) { l.upto(r, 300).unwrap_or(64).max(1) } else { r.range(1, 66) } as usize; let t = BigInt::from(1) << k; if r.chance(60) { t + r.range(-1, 1) } else { t + BigInt::from(r.u64()) % (BigInt::from(1) << k) } }
        18 => BigInt::from(r.u64()) * BigInt::from(r.u64()) + r.range(-3, 3),
        _ => { let mut x = BigInt::from(1); for _ in 0..r.range(1, 6) { x = x * BigInt::from(r.u64() | 1); } if r.chance(50) { -x } else { x } }
    };
    v
}
pub fn small(r: &mut Rng) -> BigInt { BigInt::from(r.range(-3, 3)) }
pub fn coef(r: &mut Rng, l: &Lits) -> BigInt {
    loop { let c = if r.chance(70) { small(r) } else { int(r, l) }; if c != BigInt::from(0) { return c; } }
}
pub fn is_prime(n: u64) -> bool { if n < 2 { return false; } let mut d = 2; while d * d <= n { if n % d == 0 { return false; } d += 1; } true }
pub const PRIMES: [i64; 30] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113];
/// prime in [min, max]
pub fn prime(r: &mut Rng, l: &Lits, min: i64, max: i64) -> i64 {
    loop {
        let mut c = match r.below(10) { 0..=6 => *r.pick(&PRIMES), 7 => match l.upto(r, max) { Some(x) => x, None => continue }, 8 if l.chance(r, 0, 70) => match l.upto(r, max) { Some(x) => x, None => continue }, _ => r.range(min, max.min(100_000)) };
        if c > max { continue; }
        for _ in 0..200 { if c >= min && c <= max && is_prime(c as u64) { return c; } c += 1; }
    }
}
