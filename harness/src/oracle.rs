//! Reference implementations, independent of the crate.
use crate::gen::*;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::SubscriptedVariable;
use ellipticcurve::term::{Monomial, Term};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

/// x, y, q, has variable, i, j
pub type M = [i64; 6];
pub type RP = BTreeMap<M, BigInt>;
pub fn bi(x: i64) -> BigInt { BigInt::from(x) }

pub fn mview(m: &Monomial) -> M {
    if m.variable.empty { [m.xpow as i64, m.ypow as i64, m.qpow as i64, 0, 0, 0] } else { [m.xpow as i64, m.ypow as i64, m.qpow as i64, 1, m.variable.i as i64, m.variable.j as i64] }
}
pub fn mono(m: &M) -> Monomial {
    Monomial { xpow: m[0] as i32, ypow: m[1] as i32, qpow: m[2] as i32, variable: if m[3] == 0 { SubscriptedVariable::new() } else { SubscriptedVariable { i: m[4] as i32, j: m[5] as i32, empty: false } } }
}
pub fn pol(p: &RP) -> Polynomial { let mut r = Polynomial { terms: Default::default() }; for (m, c) in p { r.terms.insert(mono(m), c.clone()); } r }
pub fn term(m: &M, c: &BigInt) -> Term { Term { coef: c.clone(), monomial: mono(m) } }
/// exactly the same stored terms (so zero coefficients are seen)
pub fn same(p: &Polynomial, r: &RP) -> bool { p.terms.len() == r.len() && p.terms.iter().zip(r.iter()).all(|((m, c), (n, d))| &mview(m) == n && c == d) }
pub fn tsame(t: &Term, m: &M, c: &BigInt) -> bool { &mview(&t.monomial) == m && &t.coef == c }
pub fn show(p: &RP) -> String {
    if p.is_empty() { return "0".into(); }
    p.iter().rev().map(|(m, c)| { let mut s = format!("({})", c); for (n, e) in ["x", "y", "q"].iter().zip(&m[..3]) { if *e != 0 { s += &format!("*{}^{}", n, e); } } if m[3] != 0 { s += &format!("*c_{}_{}", m[4], m[5]); } s }).collect::<Vec<_>>().join(" + ")
}
pub fn showp(p: &Polynomial) -> String { let mut r: Vec<String> = vec![]; for (m, c) in p.terms.iter().rev() { let mut q = RP::new(); q.insert(mview(m), c.clone()); r.push(show(&q)); } if r.is_empty() { "0".into() } else { r.join(" + ") } }
pub fn norm(p: RP) -> RP { p.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
pub fn put(r: &mut RP, m: M, c: BigInt) { let e = r.entry(m).or_insert_with(BigInt::zero); *e += c; if e.is_zero() { r.remove(&m); } }
pub fn add(a: &RP, b: &RP) -> RP { let mut r = a.clone(); for (m, c) in b { put(&mut r, *m, c.clone()); } r }
pub fn neg(a: &RP) -> RP { a.iter().map(|(m, c)| (*m, -c.clone())).collect() }
pub fn sub(a: &RP, b: &RP) -> RP { add(a, &neg(b)) }
pub fn mm(a: &M, b: &M) -> M { let mut r = [0; 6]; for i in 0..6 { r[i] = a[i] + b[i]; } r }
pub fn mul(a: &RP, b: &RP) -> RP { let mut r = RP::new(); for (m, c) in a { for (n, d) in b { put(&mut r, mm(m, n), c * d); } } r }
pub fn constant(c: &BigInt) -> RP { let mut r = RP::new(); put(&mut r, [0; 6], c.clone()); r }
pub fn single(m: M, c: BigInt) -> RP { let mut r = RP::new(); put(&mut r, m, c); r }
pub fn pow(a: &RP, n: i64) -> RP { let mut r = constant(&bi(1)); for _ in 0..n { r = mul(&r, a); } r }
pub fn ipow(a: &BigInt, n: i64) -> BigInt { let mut r = BigInt::one(); for _ in 0..n { r = r * a; } r }
pub fn pmod(a: &RP, n: &BigInt) -> RP { norm(a.iter().map(|(m, c)| (*m, c.mod_floor(n))).collect()) }
pub fn inv(a: &BigInt, p: &BigInt) -> BigInt { // extended Euclid, independent of Fermat
    let (mut r0, mut r1) = (p.clone(), a.mod_floor(p));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() { let q = r0.div_floor(&r1); let r2 = &r0 - &q * &r1; r0 = r1; r1 = r2; let t2 = &t0 - &q * &t1; t0 = t1; t1 = t2; }
    t0.mod_floor(p)
}
pub fn xdeg(a: &RP) -> i64 { a.keys().map(|m| m[0]).max().unwrap_or(-1_000_000) }
/// remainder of a by d (in x alone) modulo the prime p
pub fn rem_x(a: &RP, d: &RP, p: &BigInt) -> RP {
    let d = pmod(d, p);
    let (dm, dc) = { let (m, c) = d.iter().rev().next().unwrap(); (*m, c.clone()) };
    let ic = inv(&dc, p);
    let mut r = pmod(a, p);
    loop {
        let lead = r.iter().filter(|(m, _)| m[0] >= dm[0]).max_by_key(|(m, _)| m[0]).map(|(m, c)| (*m, c.clone()));
        match lead { None => return r, Some((m, c)) => { let mut q = m; q[0] -= dm[0]; r = pmod(&sub(&r, &mul(&single(q, &c * &ic), &d)), p); } }
    }
}
pub fn monic(a: &RP, p: &BigInt) -> RP { let a = pmod(a, p); match a.iter().rev().next() { None => a, Some((_, c)) => { let i = inv(c, p); pmod(&mul(&a, &constant(&i)), p) } } }
pub fn gcd_x(a: &RP, b: &RP, p: &BigInt) -> RP { let (mut a, mut b) = (pmod(a, p), pmod(b, p)); while !b.is_empty() { let r = rem_x(&a, &b, p); a = b; b = r; } monic(&a, p) }
/// normal form modulo y^2 = x^3 + a x + b
pub fn reduce(f: &RP, a: &BigInt, b: &BigInt) -> RP {
    let mut w = RP::new(); put(&mut w, [3, 0, 0, 0, 0, 0], bi(1)); put(&mut w, [1, 0, 0, 0, 0, 0], a.clone()); put(&mut w, [0; 6], b.clone());
    let mut r = RP::new();
    for (m, c) in f { if m[1] < 2 { put(&mut r, *m, c.clone()); } else { let mut n = *m; n[1] = m[1] % 2; r = add(&r, &mul(&single(n, c.clone()), &pow(&w, m[1] / 2))); } }
    r
}
pub fn subst(f: &RP, which: usize, g: &RP) -> RP { let mut r = RP::new(); for (m, c) in f { let mut n = *m; n[which] = 0; r = add(&r, &mul(&single(n, c.clone()), &pow(g, m[which]))); } r }
pub fn trunc_q(f: &RP, n: i64) -> RP { f.iter().filter(|(m, _)| m[2] <= n).map(|(m, c)| (*m, c.clone())).collect() }

// ---- generators of polynomials ----
#[derive(Clone, Copy)]
pub struct Shape { pub x: (i64, i64), pub y: (i64, i64), pub q: (i64, i64), pub var: bool, pub terms: i64 }
pub const ANY: Shape = Shape { x: (-3, 5), y: (-3, 5), q: (-3, 5), var: true, terms: 6 };
pub const NOVAR: Shape = Shape { x: (-3, 5), y: (-3, 5), q: (-3, 5), var: false, terms: 6 };
pub const POS: Shape = Shape { x: (0, 5), y: (0, 5), q: (0, 3), var: true, terms: 6 };
pub const POSNV: Shape = Shape { x: (0, 5), y: (0, 5), q: (0, 3), var: false, terms: 6 };
pub const XONLY: Shape = Shape { x: (0, 7), y: (0, 0), q: (0, 0), var: false, terms: 6 };
pub const QONLY: Shape = Shape { x: (0, 0), y: (0, 0), q: (-4, 6), var: true, terms: 6 };
fn expo(r: &mut Rng, l: &Lits, lo: i64, hi: i64) -> i64 {
    if lo == hi { return lo; }
    if r.chance(30) { return 0.max(lo); }
    if r.chance(2) { if let Some(x) = l.upto(r, 400) { return x; } }
    r.range(lo, hi)
}
pub fn gmono(r: &mut Rng, l: &Lits, s: &Shape) -> M {
    let mut m = [expo(r, l, s.x.0, s.x.1), expo(r, l, s.y.0, s.y.1), expo(r, l, s.q.0, s.q.1), 0, 0, 0];
    if s.var && r.chance(35) { m[3] = 1; m[4] = r.range(0, 3); m[5] = r.range(0, 3); }
    m
}
pub fn gpol(r: &mut Rng, l: &Lits, s: &Shape) -> RP {
    let n = if r.chance(10) { 0 } else { r.range(1, s.terms) };
    // few exponents, so that products and sums cancel
    let narrow = r.chance(40);
    let s2 = if narrow { Shape { x: (s.x.0.max(0), s.x.1.min(2)), y: (s.y.0.max(0), s.y.1.min(1)), q: (s.q.0.max(0), s.q.1.min(1)), ..*s } } else { *s };
    let mut p = RP::new();
    for _ in 0..n { let m = gmono(r, l, &s2); let c = if narrow { small(r) } else { coef(r, l) }; if !c.is_zero() { p.insert(m, c); } }
    p
}
