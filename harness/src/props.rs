//! One generated case per property: real function against oracle.
use crate::gen::*;
use crate::oracle::*;
use crate::{Ctx, Fail};
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::{delta, division_polynomial, divisor, eisenstein, j_invariant, modular_polynomial, simultaneous_equation};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;

type R = Result<(), Fail>;
fn bad<A: std::fmt::Display, B: std::fmt::Display>(what: &str, exp: A, act: B) -> R { Err(Fail { expected: format!("{}: {}", what, exp), actual: format!("{}", act) }) }
fn is(what: &str, exp: &BigInt, act: &BigInt) -> R { if exp == act { Ok(()) } else { bad(what, exp, act) } }
fn isp(what: &str, exp: &RP, act: &Polynomial) -> R { if same(act, exp) { Ok(()) } else { bad(what, show(exp), showp(act)) } }
fn ist(what: &str, m: &M, c: &BigInt, act: &Term) -> R { if tsame(act, m, c) { Ok(()) } else { bad(what, show(&single0(*m, c)), showt(act)) } }
fn single0(m: M, c: &BigInt) -> RP { let mut r = RP::new(); r.insert(m, c.clone()); r }
fn showt(t: &Term) -> String { show(&single0(mview(&t.monomial), &t.coef)) }
fn isb(what: &str, exp: bool, act: bool) -> R { if exp == act { Ok(()) } else { bad(what, exp, act) } }
fn has_var(p: &RP) -> bool { p.keys().any(|m| m[3] != 0) }

pub fn max_cases(pid: &str, thorough: bool) -> u64 {
    match pid {
        "C22" => 2080,
        "C24" => if thorough { 40 } else { 22 },
        "C25" => 11,
        _ => u64::MAX,
    }
}

macro_rules! forms4 { ($a:expr, $b:expr, $op:tt, |$r:ident, $n:ident| $chk:expr) => {{
    { let $n = "value, value"; let $r = $a.clone() $op $b.clone(); $chk }
    { let $n = "value, reference"; let $r = $a.clone() $op &$b; $chk }
    { let $n = "reference, value"; let $r = &$a $op $b.clone(); $chk }
    { let $n = "reference, reference"; let $r = &$a $op &$b; $chk }
}}; }
macro_rules! forms_assign { ($a:expr, $b:expr, $op:tt, |$r:ident, $n:ident| $chk:expr) => {{
    { let $n = "in place, value"; let mut x = $a.clone(); x $op $b.clone(); let $r = x; $chk }
    { let $n = "in place, reference"; let mut x = $a.clone(); x $op &$b; let $r = x; $chk }
}}; }

pub fn case(pid: &str, r: &mut Rng, l: &Lits, idx: u64, cx: &mut Ctx) -> R {
    match pid {
        "C01" => c01(r, l, cx), "C02" => c02(r, l, cx), "C03" => c03(r, l, cx), "C04" => c04(r, l, cx), "C05" => c05(r, l, cx),
        "C06" => c06(r, l, cx), "C07" => c07(r, l, cx), "C08" => c08(r, l, cx), "C09" => c09(r, l, cx), "C10" => c10(r, l, cx),
        "C11" => c11(r, l, cx), "C12" => c12(r, l, cx), "C13" => c13(r, l, cx), "C14" => c14(r, l, cx), "C15" => c15(r, l, cx),
        "C16" => c16(r, l, cx), "C17" => c17(r, l, cx), "C18" => c18(r, l, cx), "C19" => c19(r, l, cx), "C20" => c20(r, l, cx),
        "C21" => c21(r, l, cx), "C22" => c22(idx, cx), "C23" => c23(r, l, cx), "C24" => c24(r, idx, cx), "C25" => c25(idx, cx), "C26" => c26(r, l, cx), "C28" => c28(r, l, cx), "C27" | "C30" => c27(pid == "C27", r, l, idx, cx), "C29" => c29(r, l, cx),
        _ => { eprintln!("no harness for {}", pid); std::process::exit(3) }
    }
}

// ------------------------------------------------------------------ integers
fn c01(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let b = if r.chance(50) { small(r) } else { int(r, l) };
    if r.chance(4) {
        let n = BigInt::from(r.u64()) + if r.chance(50) { BigInt::from(0) } else { BigInt::from(1u64 << 40) * 7 };
        let b = BigInt::from(r.range(-1, 1));
        cx.input(format!("{} ^ {}", b, n), true);
        let e = if n.is_zero() || b.is_one() { BigInt::one() } else if b.is_zero() { BigInt::zero() } else if n.is_even() { BigInt::one() } else { -BigInt::one() };
        is("power(&BigInt)", &e, &b.power(&n))?;
        return is("power(BigInt)", &e, &b.power(n));
    }
    let max = if b.bits() > 200 { 20 } else if b.bits() > 40 { 70 } else { 700 };
    let n = match r.below(10) { 0..=5 => r.range(0, 17.min(max)), 6..=7 => r.range(0, max), _ => l.upto(r, max).unwrap_or(6) };
    cx.input(format!("{} ^ {}", b, n), n > 1);
    let e = ipow(&b, n);
    is("power(i32)", &e, &b.power(n as i32))?;
    is("power(BigInt)", &e, &b.power(bi(n)))?;
    is("power(&BigInt)", &e, &b.power(&bi(n)))
}
fn c02(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let big = ["2305843009213693951", "170141183460469231731687303715884105727", "115792089237316195423570985008687907853269984665640564039457584007908834671663"];
    let b = int(r, l);
    if r.chance(50) {
        let p: BigInt = if r.chance(15) { r.pick(&big).parse().unwrap() } else { bi(prime(r, l, 2, 2_000_000)) };
        let b = if r.chance(30) { &b * &p + small(r) } else { b };
        if b.mod_floor(&p).is_zero() { return Ok(()); }
        cx.input(format!("inverse of {} mod {}", b, p), p > bi(3));
        let i = b.inverse(&p);
        if i < bi(0) || i >= p || !(&i * &b - bi(1)).mod_floor(&p).is_zero() { return bad("inverse", inv(&b, &p), i); }
        return Ok(());
    }
    let n = if r.chance(70) { bi(r.range(0, 40)) } else { int(r, l).abs() };
    let p = { let p = int(r, l).abs(); if p < bi(2) { bi(r.range(2, 40)) } else { p } };
    cx.input(format!("{} ^ {} mod {}", b, n, p), n > bi(1));
    let e = b.mod_floor(&p).modpow(&n, &p);
    is("power_modulo", &e, &b.power_modulo(&n, &p))
}
fn c03(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let (mut a, mut b) = (int(r, l), int(r, l));
    if r.chance(30) { let g = int(r, l); a = a * &g; b = b * &g; }
    cx.input(format!("extended_gcd({}, {})", a, b), !a.is_zero() && !b.is_zero());
    let (g, x, y) = extended_gcd(a.clone(), b.clone());
    let out = format!("({}, {}, {})", g, x, y);
    if &a * &x + &b * &y != g { return bad("a x + b y = g", &g, format!("{} from {}", &a * &x + &b * &y, out)); }
    let e = a.gcd(&b);
    if g.abs() != e { return bad("|g|", e, out); }
    if !a.is_negative() && !b.is_negative() && g.is_negative() { return bad("g >= 0", e, out); }
    Ok(())
}
fn c04(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let n = r.range(0, 5);
    let mut v: Vec<ModResult> = vec![];
    for _ in 0..n {
        for _ in 0..10 {
            let m = match r.below(4) { 0 => bi(1), 1 => int(r, l).abs(), _ => bi(r.range(1, 60)) };
            if m > bi(0) && v.iter().all(|w| w.l.gcd(&m).is_one()) { v.push(ModResult { l: m, r: int(r, l) }); break; }
        }
    }
    cx.input(format!("{:?}", v.iter().map(|m| format!("{} mod {}", m.r, m.l)).collect::<Vec<_>>()), v.len() > 1);
    let o = chinese_remainder(&v);
    let mut pr = BigInt::one();
    for m in &v { pr = pr * &m.l; }
    is("modulus", &pr, &o.l)?;
    for m in &v { if !(&o.r - &m.r).mod_floor(&m.l).is_zero() { return bad("congruence", format!("{} mod {}", m.r, m.l), o.r); } }
    Ok(())
}

// ------------------------------------------------------------------ order
fn e32(r: &mut Rng) -> i32 { match r.below(12) { 0 => i32::MIN, 1 => i32::MAX, _ => r.range(-2, 2) as i32 } }
fn gvar(r: &mut Rng) -> SubscriptedVariable { SubscriptedVariable { i: e32(r), j: e32(r), empty: r.chance(40) } }
fn c05(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let mut a = Monomial { xpow: e32(r), ypow: e32(r), qpow: e32(r), variable: gvar(r) };
    let mut b = Monomial { xpow: e32(r), ypow: e32(r), qpow: e32(r), variable: gvar(r) };
    if r.chance(60) { b.xpow = a.xpow; if r.chance(70) { b.ypow = a.ypow; if r.chance(70) { b.qpow = a.qpow; if r.chance(50) { b.variable.i = a.variable.i; b.variable.empty = a.variable.empty; if r.chance(50) { b.variable.j = a.variable.j; } } } } }
    if r.chance(3) { if let Some(x) = l.upto(r, i32::MAX as i64) { a.xpow = x as i32; b.xpow = x as i32 - r.range(0, 1) as i32; } }
    cx.input(format!("{:?} ? {:?}", a, b), true);
    let e = mview(&a).cmp(&mview(&b));
    let s = |o: Ordering| format!("{:?}", o);
    macro_rules! cmps { ($n:expr, $a:expr, $b:expr, $e:expr, $eq:expr) => {{
        let (a, b, e) = (&$a, &$b, $e);
        if a.cmp(b) != e { return bad(concat!($n, " cmp"), s(e), s(a.cmp(b))); }
        if a.partial_cmp(b) != Some(e) { return bad(concat!($n, " partial_cmp"), s(e), format!("{:?}", a.partial_cmp(b))); }
        isb(concat!($n, " <"), e == Ordering::Less, a < b)?;
        isb(concat!($n, " <="), e != Ordering::Greater, a <= b)?;
        isb(concat!($n, " >"), e == Ordering::Greater, a > b)?;
        isb(concat!($n, " >="), e != Ordering::Less, a >= b)?;
        isb(concat!($n, " =="), $eq, a == b)?;
        isb(concat!($n, " !="), !$eq, a != b)?;
    }}; }
    cmps!("monomial", a, b, e, e == Ordering::Equal);
    let k = |v: &SubscriptedVariable| if v.empty { (0, 0, 0) } else { (1, v.i, v.j) };
    let ev = k(&a.variable).cmp(&k(&b.variable));
    cmps!("variable", a.variable, b.variable, ev, ev == Ordering::Equal);
    let (ca, cb) = (small(r), small(r));
    let (ta, tb) = (Term { coef: ca.clone(), monomial: a }, Term { coef: cb.clone(), monomial: b });
    cmps!("term", ta, tb, e, e == Ordering::Equal && ca == cb);
    isb("is_equal_order", mview(&a)[..3] == mview(&b)[..3], ta.is_equal_order(&tb))
}

// ------------------------------------------------------------------ ring
fn tcoef(r: &mut Rng, l: &Lits) -> BigInt { if r.chance(12) { bi(0) } else { coef(r, l) } }
/// second operand sharing monomials with the first, often cancelling
fn partner(r: &mut Rng, l: &Lits, a: &RP, s: &Shape, sign: i64) -> RP {
    let mut b = gpol(r, l, s);
    if r.chance(50) { for (m, c) in a { if s.var || m[3] == 0 { if r.chance(60) { b.insert(*m, if r.chance(60) { c * sign } else { coef(r, l) }); } } } }
    b
}
fn c06(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let a = if l.chance(r, 4, 15) { long(r, l, &ANY) } else { gpol(r, l, &ANY) };
    let sg = if r.chance(50) { 1 } else { -1 };
    let b = partner(r, l, &a, &ANY, sg);
    let (mut m, mut c) = (gmono(r, l, &ANY), tcoef(r, l));
    if r.chance(40) { if let Some((k, v)) = a.iter().nth(r.below(a.len().max(1) as u64) as usize) { m = *k; if r.chance(60) { c = v * sg; } } }
    let (mut n, d) = (gmono(r, l, &ANY), tcoef(r, l));
    let d = if r.chance(30) { n = m; if r.chance(50) { &c * sg } else { d } } else { d };
    cx.input(format!("a = {}; b = {}; t = ({}) {}; u = ({}) {}", show(&a), show(&b), c, show(&single0(m, &bi(1))), d, show(&single0(n, &bi(1)))), !a.is_empty() && !b.is_empty());
    let (pa, pb, t, u) = (pol(&a), pol(&b), term(&m, &c), term(&n, &d));
    let (rt, ru) = (single(m, c.clone()), single(n, d.clone()));
    let e = add(&a, &b);
    forms4!(pa, pb, +, |x, n| isp(&format!("a + b ({})", n), &e, &x)?);
    forms_assign!(pa, pb, +=, |x, n| isp(&format!("a += b ({})", n), &e, &x)?);
    let e = sub(&a, &b);
    forms4!(pa, pb, -, |x, n| isp(&format!("a - b ({})", n), &e, &x)?);
    forms_assign!(pa, pb, -=, |x, n| isp(&format!("a -= b ({})", n), &e, &x)?);
    let e = add(&a, &rt);
    forms4!(pa, t, +, |x, n| isp(&format!("a + t ({})", n), &e, &x)?);
    forms4!(t, pa, +, |x, n| isp(&format!("t + a ({})", n), &e, &x)?);
    forms_assign!(pa, t, +=, |x, n| isp(&format!("a += t ({})", n), &e, &x)?);
    let e = sub(&a, &rt);
    forms4!(pa, t, -, |x, n| isp(&format!("a - t ({})", n), &e, &x)?);
    let e = neg(&e);
    forms4!(t, pa, -, |x, n| isp(&format!("t - a ({})", n), &e, &x)?);
    let e = add(&rt, &ru);
    forms4!(t, u, +, |x, n| isp(&format!("t + u ({})", n), &e, &x)?);
    let e = sub(&rt, &ru);
    forms4!(t, u, -, |x, n| isp(&format!("t - u ({})", n), &e, &x)?);
    isp("-a", &neg(&a), &-pa.clone())?;
    isp("-&a", &neg(&a), &-&pa)?;
    ist("-t", &m, &-c.clone(), &-t.clone())?;
    ist("-&t", &m, &-c.clone(), &-&t)?;
    isp("to_pol", &rt, &t.to_pol())?;
    isp("zero", &RP::new(), &Polynomial::zero())?;
    isb("is_zero", a.is_empty(), pa.is_zero())?;
    isb("a == b", a == b, pa == pb)
}
/// more terms than usual
fn long(r: &mut Rng, l: &Lits, s: &Shape) -> RP {
    let n = if r.chance(50) { r.range(5, 20) } else { l.upto(r, 70).unwrap_or(12) };
    let mut p = gpol(r, l, &Shape { terms: n.max(1), x: (s.x.0, s.x.1 * 4), y: (s.y.0, s.y.1 * 2), ..*s });
    for _ in 0..3 * n { if p.len() as i64 >= n { break; } let m = gmono(r, l, &Shape { x: (s.x.0, s.x.1 * 4), ..*s }); let c = small(r); if !c.is_zero() { p.insert(m, c); } }
    p
}
fn c07(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let (s1, s2) = if r.chance(60) { (NOVAR, NOVAR) } else if r.chance(50) { (ANY, NOVAR) } else { (NOVAR, ANY) };
    let mut a = gpol(r, l, &s1);
    let mut b = gpol(r, l, &s2);
    if l.chance(r, 4, 20) { // long factors with a short product: (1 + g + .. + g^(n-1)) (g - 1)
        let n = if r.chance(60) { r.range(2, 14) } else { l.upto(r, 40).unwrap_or(9).max(1) };
        let w = r.below(3) as usize;
        let s = r.range(1, 2); let sg = if r.chance(70) { 1 } else { -1 };
        let mut g = RP::new(); let mut c = bi(1);
        for i in 0..n { let mut m = [0; 6]; m[w] = i * s; g.insert(m, c.clone()); c = c * sg; }
        let mut h = RP::new(); let mut m = [0; 6]; m[w] = s; h.insert(m, bi(1)); h.insert([0; 6], bi(-sg));
        if r.chance(30) { h = gpol(r, l, &s2); }
        a = g; b = h;
        if r.chance(50) && !has_var(&b) { std::mem::swap(&mut a, &mut b); }
    } else if l.chance(r, 4, 15) { a = long(r, l, &s1); if r.chance(40) { b = long(r, l, &s2); } }
    if r.chance(25) && !has_var(&a) { // (u+v)(u-v) like products
        b = a.clone(); let mut f = true;
        for c in b.values_mut() { if !f || r.chance(50) { *c = -c.clone(); } f = false; }
    }
    let va = has_var(&a);
    let (m, c) = (gmono(r, l, if va { &NOVAR } else { &ANY }), tcoef(r, l));
    let (n, d) = (gmono(r, l, if m[3] != 0 { &NOVAR } else { &ANY }), tcoef(r, l));
    cx.input(format!("a = {}; b = {}; t = ({}) {}; u = ({}) {}", show(&a), show(&b), c, show(&single0(m, &bi(1))), d, show(&single0(n, &bi(1)))), a.len() > 1 && b.len() > 1);
    let (pa, pb, t, u) = (pol(&a), pol(&b), term(&m, &c), term(&n, &d));
    let e = mul(&a, &b);
    forms4!(pa, pb, *, |x, n| isp(&format!("a * b ({})", n), &e, &x)?);
    forms_assign!(pa, pb, *=, |x, n| isp(&format!("a *= b ({})", n), &e, &x)?);
    let e = mul(&a, &single(m, c.clone()));
    forms4!(pa, t, *, |x, n| isp(&format!("a * t ({})", n), &e, &x)?);
    forms4!(t, pa, *, |x, n| isp(&format!("t * a ({})", n), &e, &x)?);
    let (em, ec) = (mm(&m, &n), &c * &d);
    forms4!(t, u, *, |x, n| ist(&format!("t * u ({})", n), &em, &ec, &x)?);
    isp("one", &constant(&bi(1)), &Polynomial::one())?;
    ist("Term::one", &[0; 6], &bi(1), &Term::one())
}
fn c08(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let a = { let mut a = gpol(r, l, &NOVAR); while a.len() > 4 { let k = *a.keys().next().unwrap(); a.remove(&k); } a };
    let n = if r.chance(80) { r.range(0, 5) } else if a.len() <= 2 { r.range(0, 13) } else { r.range(0, 8) };
    let n = if a.len() <= 2 && l.chance(r, 2, 12) { l.upto(r, if a.len() == 2 { 80 } else { 300 }).unwrap_or(17) } else { n };
    let (m, c) = (gmono(r, l, &NOVAR), tcoef(r, l));
    cx.input(format!("a = {}; t = ({}) {}; n = {}", show(&a), c, show(&single0(m, &bi(1))), n), n > 1 && a.len() > 1);
    let (pa, t) = (pol(&a), term(&m, &c));
    let e = pow(&a, n);
    isp("power(i32)", &e, &pa.power(n as i32))?;
    isp("power(BigInt)", &e, &pa.power(bi(n)))?;
    isp("power(&BigInt)", &e, &pa.power(&bi(n)))?;
    isp("square", &mul(&a, &a), &pa.square())?;
    isp("cube", &mul(&mul(&a, &a), &a), &pa.cube())?;
    let n = if r.chance(15) { l.upto(r, 3000).unwrap_or(n) } else { n };
    let (em, ec) = ([m[0] * n, m[1] * n, m[2] * n, 0, 0, 0], ipow(&c, n));
    ist(&format!("t^{} (i32)", n), &em, &ec, &t.power(n as i32))?;
    ist(&format!("t^{} (BigInt)", n), &em, &ec, &t.power(bi(n)))?;
    ist(&format!("t^{} (&BigInt)", n), &em, &ec, &t.power(&bi(n)))
}
fn c09(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let (n, d) = (gmono(r, l, &NOVAR), coef(r, l));
    let mut a = if l.chance(r, 3, 15) { long(r, l, &ANY) } else { gpol(r, l, &ANY) };
    let exact = r.chance(40);
    if exact { for c in a.values_mut() { *c = &*c * &d; } }
    let (m, c) = (gmono(r, l, &ANY), tcoef(r, l));
    cx.input(format!("a = {}; t = ({}) {}; divisor = ({}) {}", show(&a), c, show(&single0(m, &bi(1))), d, show(&single0(n, &bi(1)))), !a.is_empty());
    let (pa, t, u) = (pol(&a), term(&m, &c), term(&n, &d));
    let pu = pol(&single(n, d.clone()));
    let dm = |k: &M| { let mut k = *k; for i in 0..3 { k[i] -= n[i]; } k };
    let mut e = RP::new();
    for (k, v) in &a { put(&mut e, dm(k), v.div_floor(&d)); }
    forms4!(pa, pu, /, |x, n| isp(&format!("a / pol ({})", n), &e, &x)?);
    forms4!(pa, u, /, |x, n| isp(&format!("a / u ({})", n), &e, &x)?);
    forms_assign!(pa, pu, /=, |x, n| isp(&format!("a /= pol ({})", n), &e, &x)?);
    forms_assign!(pa, u, /=, |x, n| isp(&format!("a /= u ({})", n), &e, &x)?);
    let et = single(dm(&m), c.div_floor(&d));
    forms4!(t, pu, /, |x, n| isp(&format!("t / pol ({})", n), &et, &x)?);
    forms4!(t, u, /, |x, n| ist(&format!("t / u ({})", n), &dm(&m), &c.div_floor(&d), &x)?);
    if exact { isp("(a / u) * u", &a, &((&pa / &u) * &u))?; }
    Ok(())
}
fn c10(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let mut a = if l.chance(r, 3, 15) { long(r, l, &ANY) } else { gpol(r, l, &ANY) };
    let n32 = if r.chance(60) { r.range(1, 12) } else if r.chance(50) { l.upto(r, i32::MAX as i64).unwrap_or(5).max(1) } else { r.range(1, i32::MAX as i64) };
    let n = if r.chance(30) { int(r, l).abs() + 1 } else { bi(n32) };
    if r.chance(40) { for c in a.values_mut() { if r.chance(40) { *c = &*c * &n; } } }
    let (m, c) = (gmono(r, l, &ANY), tcoef(r, l));
    let g = { let mut g = gpol(r, l, &NOVAR); while g.len() > 3 { let k = *g.keys().next().unwrap(); g.remove(&k); } g };
    let k = if g.len() <= 2 && l.chance(r, 2, 12) { l.upto(r, 70).unwrap_or(9) } else { r.range(0, 7) };
    let p = { let p = n.clone(); if p < bi(2) { bi(2) } else { p } };
    cx.input(format!("a = {}; n = {}; n32 = {}; t = ({}) {}; g = {}; k = {}; p = {}", show(&a), n, n32, c, show(&single0(m, &bi(1))), show(&g), k, p), !a.is_empty());
    let (pa, t) = (pol(&a), term(&m, &c));
    let e = pmod(&a, &n);
    isp("a % n", &e, &(&pa % &n))?;
    let mut x = pa.clone(); x.modular_assign(&n);
    isp("modular_assign", &e, &x)?;
    isp("a % n32", &pmod(&a, &bi(n32)), &(&pa % (n32 as i32)))?;
    ist("t.modulo", &m, &c.mod_floor(&n), &t.modulo(&n))?;
    let mut x = t.clone(); x.modular_assign(&n);
    ist("t.modular_assign", &m, &c.mod_floor(&n), &x)?;
    let pg = pol(&g);
    isp("power_modulo", &pmod(&pow(&g, k), &p), &pg.power_modulo(&bi(k), &p))?;
    let em = [m[0] * k, m[1] * k, m[2] * k, m[3], m[4], m[5]];
    ist("t.power_modulo", &em, &c.mod_floor(&p).modpow(&bi(k), &p), &t.power_modulo(&bi(k), &p))
}
fn lead_ok(p: &RP, q: &BigInt) -> bool { match p.iter().rev().next() { None => false, Some((_, c)) => !c.mod_floor(q).is_zero() } }
fn c11(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let top = if r.chance(70) { 13 } else { 1_000_000 };
    let p = bi(prime(r, l, 2, top));
    let s = Shape { x: (0, 7), y: (-1, 3), q: (-1, 2), var: false, terms: 6 };
    let a = if r.chance(50) { gpol(r, l, &s) } else { gpol(r, l, &XONLY) };
    let mut d = gpol(r, l, &XONLY);
    if !lead_ok(&d, &p) { let k = d.keys().rev().next().map(|m| m[0]).unwrap_or(0); d.insert([k, 0, 0, 0, 0, 0], bi(1)); }
    // a pair with a common factor
    let h = if l.chance(r, 3, 15) { long(r, l, &XONLY) } else { gpol(r, l, &XONLY) };
    let a = if l.chance(r, 3, 15) { long(r, l, &XONLY) } else { a };
    let (mut f, mut g) = (gpol(r, l, &XONLY), gpol(r, l, &XONLY));
    if r.chance(70) { f = mul(&f, &h); g = mul(&g, &h); }
    for f in [&mut f, &mut g].iter_mut() { if !lead_ok(f, &p) { let k = f.keys().rev().next().map(|m| m[0]).unwrap_or(0); f.insert([k, 0, 0, 0, 0, 0], bi(1)); } }
    cx.input(format!("p = {}; a = {}; divisor = {}; f = {}; g = {}", p, show(&a), show(&d), show(&f), show(&g)), !a.is_empty() && xdeg(&d) > 0);
    isp("remainder", &rem_x(&a, &d, &p), &pol(&a).polynomial_modular(&pol(&d), &p))?;
    let (pf, pg) = (pol(&f), pol(&g));
    isp("remainder of f by g", &rem_x(&f, &g, &p), &pf.polynomial_modular(&pg, &p))?;
    isp("to_monic", &monic(&f, &p), &pf.to_monic(&p))?;
    isp("to_monic of 0", &RP::new(), &Polynomial::new().to_monic(&p))?;
    let e = gcd_x(&f, &g, &p);
    isp("gcd", &e, &pf.gcd(&pg, &p))?;
    isp("gcd swapped", &e, &pg.gcd(&pf, &p))?;
    isb("is_gcd_one", e == constant(&bi(1)), pf.is_gcd_one(&pg, &p))
}
fn cap(p: RP, n: usize) -> RP { let k = p.len().saturating_sub(n); p.into_iter().skip(k).collect() }
fn evalxy(f: &RP, x: &BigInt, y: &BigInt) -> BigInt { f.iter().map(|(m, c)| c * ipow(x, m[0]) * ipow(y, m[1])).sum() }
fn c12(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let f = if l.chance(r, 3, 15) { long(r, l, &POS) } else { gpol(r, l, &POS) };
    let (x, y) = (if r.chance(80) { bi(r.range(-5, 5)) } else { int(r, l) }, if r.chance(80) { bi(r.range(-5, 5)) } else { int(r, l) });
    let f = if f.keys().any(|m| m[0] + m[1] > 40) { cap(f, 2) } else { f };
    let g = cap(gpol(r, l, &Shape { x: (-2, 3), y: (-2, 3), q: (-2, 3), var: false, terms: 3 }), 3);
    let h: RP = f.iter().filter(|(m, _)| m[0] < 12 && m[1] < 12).map(|(m, c)| (*m, c.clone())).collect();
    let fx = gpol(r, l, &Shape { x: (0, 4), y: (-3, 3), q: (-3, 3), var: true, terms: 6 });
    let fy = gpol(r, l, &Shape { x: (-3, 3), y: (0, 4), q: (-3, 3), var: true, terms: 6 });
    cx.input(format!("f = {}; x = {}; y = {}; g = {}; fx = {}; fy = {}", show(&f), x, y, show(&g), show(&fx), show(&fy)), f.len() > 1);
    let (pf, pg, ph, px, py) = (pol(&f), pol(&g), pol(&h), pol(&fx), pol(&fy));
    is("eval_xy", &evalxy(&f, &x, &y), &pf.eval_xy(&x, &y))?;
    isp("eval_x", &subst(&f, 0, &constant(&x)), &pf.eval_x(&x))?;
    isp("eval_y", &subst(&f, 1, &constant(&y)), &pf.eval_y(&y))?;
    isp("eval_x", &subst(&fx, 0, &constant(&x)), &px.eval_x(&x))?;
    isp("eval_y", &subst(&fy, 1, &constant(&y)), &py.eval_y(&y))?;
    isp("eval_x_polynomial", &subst(&h, 0, &g), &ph.eval_x_polynomial(&pg))?;
    isp("eval_y_polynomial", &subst(&h, 1, &g), &ph.eval_y_polynomial(&pg))?;
    if let Some((m, c)) = h.iter().next() {
        let (t, e) = (term(m, c), single(*m, c.clone()));
        isp("Term::eval_x_polynomial", &subst(&e, 0, &g), &t.eval_x_polynomial(&pg))?;
        isp("Term::eval_y_polynomial", &subst(&e, 1, &g), &t.eval_y_polynomial(&pg))?;
        let e = single(*m, bi(1));
        isp("Monomial::eval_x_polynomial", &subst(&e, 0, &g), &t.monomial.eval_x_polynomial(&pg))?;
        isp("Monomial::eval_y_polynomial", &subst(&e, 1, &g), &t.monomial.eval_y_polynomial(&pg))?;
        is("Monomial::eval_xy", &evalxy(&e, &x, &y), &t.monomial.eval_xy(&x, &y))?;
    }
    Ok(())
}
fn deriv(f: &RP, w: usize) -> RP { let mut r = RP::new(); for (m, c) in f { if m[w] != 0 { let mut n = *m; n[w] -= 1; put(&mut r, n, c * m[w]); } } r }
fn scale(f: &RP, ws: &[usize], n: i64) -> RP { f.iter().map(|(m, c)| { let mut k = *m; for w in ws { k[*w] *= n; } (k, c.clone()) }).collect() }
fn c13(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let dx = gpol(r, l, &Shape { x: (0, 5), y: (-3, 3), q: (-3, 3), var: true, terms: 6 });
    let dy = gpol(r, l, &Shape { x: (-3, 5), y: (0, 5), q: (-3, 3), var: true, terms: 6 });
    let a = if l.chance(r, 3, 15) { long(r, l, &ANY) } else { gpol(r, l, &ANY) };
    let n = if r.chance(80) { r.range(1, 7) } else { l.upto(r, 100_000).unwrap_or(9).max(1) };
    cx.input(format!("dx = {}; dy = {}; a = {}; n = {}", show(&dx), show(&dy), show(&a), n), !dx.is_empty() && !a.is_empty());
    isp("derivative_x", &deriv(&dx, 0), &pol(&dx).derivative_x())?;
    isp("derivative_y", &deriv(&dy, 1), &pol(&dy).derivative_y())?;
    let p = pol(&a);
    isp("to_frob", &scale(&a, &[0, 1], n), &p.to_frob(n as i32))?;
    isp("to_y_power", &scale(&a, &[1], n), &p.to_y_power(n as i32))?;
    isp("to_q_power", &scale(&a, &[2], n), &p.to_q_power(n as i32))?;
    let one = |f: RP, t: Term, w: &str| -> R { if f.is_empty() { isb(w, true, t.coef.is_zero()) } else { let (m, c) = f.iter().next().unwrap(); ist(w, m, c, &t) } };
    if let Some((m, c)) = dx.iter().next() { one(deriv(&single(*m, c.clone()), 0), term(m, c).derivative_x(), "Term::derivative_x")?; }
    if let Some((m, c)) = dy.iter().next() { one(deriv(&single(*m, c.clone()), 1), term(m, c).derivative_y(), "Term::derivative_y")?; }
    if let Some((m, c)) = a.iter().next() {
        let (s, t) = (single(*m, c.clone()), term(m, c));
        one(scale(&s, &[0, 1], n), t.to_frob(n as i32), "Term::to_frob")?;
        one(scale(&s, &[1], n), t.to_y_power(n as i32), "Term::to_y_power")?;
        one(scale(&s, &[2], n), t.to_q_power(n as i32), "Term::to_q_power")?;
    }
    Ok(())
}
fn c14(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let f = if l.chance(r, 2, 10) { long(r, l, &Shape { x: (-3, 5), y: (0, 5), q: (-2, 2), var: true, terms: 5 }) } else { gpol(r, l, &Shape { x: (-3, 5), y: (0, 7), q: (-2, 2), var: true, terms: 5 }) };
    let f: RP = f.into_iter().filter(|(m, _)| m[1] < 40).collect();
    let (a, b) = (coef(r, l), if r.chance(20) { bi(0) } else { coef(r, l) });
    let p = if r.chance(75) { prime(r, l, 2, 19) } else if r.chance(40) { l.upto(r, i32::MAX as i64).unwrap_or(7).max(2) } else { r.range(2, i32::MAX as i64) };
    cx.input(format!("f = {}; a = {}; b = {}; p = {}", show(&f), a, b, p), f.keys().any(|m| m[1] > 1));
    let e = reduce(&f, &a, &b);
    isp("reduction", &e, &pol(&f).reduction(&a, &b))?;
    isp("reduction_modular", &pmod(&e, &bi(p)), &pol(&f).reduction_modular(&a, &b, p as i32))
}
fn c15(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let f = if l.chance(r, 3, 15) { long(r, l, &QONLY) } else { gpol(r, l, &QONLY) };
    let n = if r.chance(20) { l.upto(r, 500).unwrap_or(3) } else { r.range(-5, 7) };
    let g = cap(gpol(r, l, &Shape { x: (0, 0), y: (0, 0), q: (0, 4), var: false, terms: 4 }), 4);
    let (k, ord) = (r.range(0, 6), r.range(0, 12));
    let (k, ord) = if l.chance(r, 1, 8) { (l.upto(r, 130).unwrap_or(k), if r.chance(80) { ord } else { l.upto(r, 40).unwrap_or(ord) }) } else { (k, ord) };
    let v = gpol(r, l, &Shape { x: (0, 0), y: (0, 0), q: (0, 0), var: true, terms: 6 });
    let w = gmono(r, l, &Shape { x: (0, 0), y: (0, 0), q: (0, 0), var: true, terms: 6 });
    let a = gpol(r, l, &ANY);
    let d = gpol(r, l, &Shape { x: (-3, 5), y: (0, 0), q: (0, 0), var: true, terms: 6 });
    let c = tcoef(r, l);
    cx.input(format!("f = {}; n = {}; g = {}; k = {}; order = {}; v = {}; w = {:?}; a = {}; d = {}; c = {}", show(&f), n, show(&g), k, ord, show(&v), w, show(&a), show(&d), c), f.len() > 1);
    let mut x = pol(&f); x.omit_high_order_q(n as i32);
    isp("omit_high_order_q", &trunc_q(&f, n), &x)?;
    isp("power_omit_high_order_q", &trunc_q(&pow(&g, k), ord), &pol(&g).power_omit_high_order_q(k as i32, ord as i32))?;
    let e: RP = f.iter().filter(|(m, _)| m[2] == n).map(|(m, c)| { let mut m = *m; m[2] = 0; (m, c.clone()) }).collect();
    isp("to_q_power_coef", &e, &pol(&f).to_q_power_coef(n as i32))?;
    is("to_variable_coef", v.get(&w).unwrap_or(&bi(0)), &pol(&v).to_variable_coef(mono(&w).variable))?;
    is("to_variable_coef(none)", v.get(&[0; 6]).unwrap_or(&bi(0)), &pol(&v).to_variable_coef(SubscriptedVariable::new()))?;
    is("to_scalar", &c, &pol(&constant(&c)).to_scalar())?;
    let t = pol(&a).highest_term_x();
    match a.iter().rev().next() { None => ist("leading term of 0", &[0; 6], &bi(0), &t)?, Some((m, c)) => ist("leading term", m, c, &t)? }
    isb("has_x", a.keys().any(|m| m[0] != 0), pol(&a).has_x())?;
    isb("has_y", a.keys().any(|m| m[1] != 0), pol(&a).has_y())?;
    isb("has_q", a.keys().any(|m| m[2] != 0), pol(&a).has_q())?;
    if let Some((m, c)) = a.iter().next() { let t = term(m, c); isb("Term::has_x", m[0] != 0, t.has_x())?; isb("Term::has_y", m[1] != 0, t.has_y())?; isb("Term::has_q", m[2] != 0, t.has_q())?; }
    is("degree_x", &bi(d.keys().map(|m| m[0]).max().unwrap_or(0)), &bi(pol(&d).degree_x() as i64))
}

// ------------------------------------------------------------------ curves
/// None = infinity
type P = Option<(BigInt, BigInt)>;
struct Cv { a: BigInt, b: BigInt, p: BigInt }
impl Cv {
    fn md(&self, x: BigInt) -> BigInt { x.mod_floor(&self.p) }
    fn f(&self, x: &BigInt) -> BigInt { self.md(x * x * x + &self.a * x + &self.b) }
    fn on(&self, x: &BigInt, y: &BigInt) -> bool { self.md(y * y) == self.f(x) }
    fn sing(&self) -> bool { self.md(bi(4) * &self.a * &self.a * &self.a + bi(27) * &self.b * &self.b).is_zero() }
    fn neg(&self, s: &P) -> P { s.as_ref().map(|(x, y)| (x.clone(), self.md(-y.clone()))) }
    fn add(&self, s: &P, t: &P) -> P {
        let ((x1, y1), (x2, y2)) = match (s, t) { (None, _) => return t.clone(), (_, None) => return s.clone(), (Some(s), Some(t)) => (s, t) };
        let m = if x1 != x2 { (y2 - y1) * inv(&(x2 - x1), &self.p) } else if y1 != y2 || y1.is_zero() { return None } else { (bi(3) * x1 * x1 + &self.a) * inv(&(bi(2) * y1), &self.p) };
        let x3 = self.md(&m * &m - x1 - x2);
        let y3 = self.md(m * (x1 - &x3) - y1);
        Some((x3, y3))
    }
    fn mul(&self, s: &P, n: &BigInt) -> P {
        let (mut b, mut n) = if n.is_negative() { (self.neg(s), -n.clone()) } else { (s.clone(), n.clone()) };
        let mut r = None;
        while !n.is_zero() { if n.is_odd() { r = self.add(&r, &b); } b = self.add(&b, &b); n = n / 2; }
        r
    }
    fn points(&self) -> Vec<P> {
        let mut v = vec![]; let (mut x, o) = (bi(0), bi(1));
        while x < self.p { let mut y = bi(0); while y < self.p { if self.on(&x, &y) { v.push(Some((x.clone(), y.clone()))); } y += &o; } x += &o; }
        v.push(None); v
    }
    fn some(&self, r: &mut Rng) -> P {
        if r.chance(12) { return None; }
        for _ in 0..200 {
            let x = self.md(BigInt::from(r.u64()));
            let c = self.f(&x);
            if self.p < bi(4000) { let mut ys = vec![]; let mut y = bi(0); while y < self.p { if self.md(&y * &y) == c { ys.push(y.clone()); } y += 1; } if !ys.is_empty() { return Some((x, r.pick(&ys).clone())); } }
            else if (&self.p % 4u8) == bi(3) { let y = c.modpow(&((&self.p + 1) / 4), &self.p); if self.md(&y * &y) == c { return Some((x, if r.chance(50) { y } else { self.md(-y) })); } }
            else { return None; }
        }
        None
    }
}
fn cv(r: &mut Rng, l: &Lits, singular: bool) -> Cv {
    loop {
        let p = match r.below(10) { 0..=5 => bi(*r.pick(&PRIMES[2..12])), 6..=7 => bi(prime(r, l, 5, 1009)), 8 => "2305843009213693951".parse().unwrap(), _ => "115792089237316195423570985008687907853269984665640564039457584007908834671663".parse().unwrap() };
        let c = Cv { a: if r.chance(20) { bi(0) } else { int(r, l) }, b: if r.chance(20) { bi(0) } else { int(r, l) }, p };
        if singular || !c.sing() { return c; }
    }
}
fn rep(r: &mut Rng, c: &Cv, p: &P) -> ECPoint {
    match p {
        None => if r.chance(60) { ECPoint { x: bi(0), y: bi(1), z: bi(0) } } else { ECPoint { x: small(r), y: small(r), z: bi(0) } },
        Some((x, y)) => { let k = if r.chance(50) { (0, 0) } else { (r.range(-2, 2), r.range(-2, 2)) }; ECPoint { x: x + &c.p * k.0, y: y + &c.p * k.1, z: bi(1) } }
    }
}
fn unrep(c: &Cv, q: &ECPoint) -> P { if q.z.is_zero() { None } else { Some((c.md(q.x.clone()), c.md(q.y.clone()))) } }
fn sp(p: &P) -> String { match p { None => "O".into(), Some((x, y)) => format!("({}, {})", x, y) } }
fn se(p: &ECPoint) -> String { format!("({}, {}, {})", p.x, p.y, p.z) }
fn scv(c: &Cv) -> String { format!("a = {}; b = {}; p = {}", c.a, c.b, c.p) }
fn c16(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let c = cv(r, l, true);
    let s = c.some(r);
    let t = match r.below(6) { 0 => s.clone(), 1 => c.neg(&s), 2 => { if r.chance(50) { let mut y0 = None; if c.p < bi(2000) { for p in c.points() { if let Some((_, y)) = &p { if y.is_zero() { y0 = p.clone(); } } } } y0 } else { c.some(r) } } _ => c.some(r) };
    let s = if r.chance(5) { t.clone() } else { s };
    let (ps, pt) = (rep(r, &c, &s), rep(r, &c, &t));
    let off = ECPoint { x: bi(r.range(-50, 50)), y: bi(r.range(-50, 50)), z: bi(1) };
    cx.input(format!("{}; P = {}; Q = {}; R = {}", scv(&c), se(&ps), se(&pt), se(&off)), s.is_some() && t.is_some());
    let e = EllipticCurve::new_raw(&c.a, &c.b, &c.p);
    isb("is_on_curve(P)", true, e.is_on_curve(&ps))?;
    isb("is_on_curve(R)", c.on(&off.x, &off.y), e.is_on_curve(&off))?;
    let u = c.add(&s, &t);
    let g = e.plus(&ps, &pt);
    if unrep(&c, &g) != u { return bad("P + Q", sp(&u), se(&g)); }
    isb("P + Q on curve", true, e.is_on_curve(&g))?;
    let g2 = e.plus(&pt, &ps);
    if unrep(&c, &g2) != u { return bad("Q + P", sp(&u), se(&g2)); }
    let n = e.negate(&ps);
    if unrep(&c, &n) != c.neg(&s) { return bad("-P", sp(&c.neg(&s)), se(&n)); }
    let z = e.plus(&ps, &n);
    if unrep(&c, &z) != None { return bad("P + (-P)", "O", se(&z)); }
    let o = ECPoint::infinity();
    let z = e.plus(&ps, &o); if unrep(&c, &z) != s { return bad("P + O", sp(&s), se(&z)); }
    let z = e.plus(&o, &ps); if unrep(&c, &z) != s { return bad("O + P", sp(&s), se(&z)); }
    let k = e.canonicalize(&ps);
    isb("canonicalize", true, k.x == c.md(ps.x.clone()) && k.y == c.md(ps.y.clone()) && k.z == c.md(ps.z.clone()))
}
fn c17(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let full = l.chance(r, 2, 6);
    let c = if full { loop { let p = bi(prime(r, l, 5, 60)); let c = Cv { a: int(r, l), b: int(r, l), p }; if !c.sing() { break c; } } } else { cv(r, l, false) };
    let s = c.some(r);
    let ps = match &s { None => ECPoint::infinity(), _ => rep(r, &c, &s) };
    let n = if r.chance(70) { bi(r.range(-40, 40)) } else { int(r, l) };
    let n = if n.bits() > 140 { n % bi(1_000_003) } else { n };
    cx.input(format!("{}; P = {}; n = {}{}", scv(&c), se(&ps), n, if full { "; points listed" } else { "" }), s.is_some());
    let e = if full { EllipticCurve::new(&c.a, &c.b, &c.p) } else { EllipticCurve::new_raw(&c.a, &c.b, &c.p) };
    let mut want = c.mul(&s, &n);
    if n.abs() < bi(50) { // naive repeated addition
        want = None;
        let q = if n.is_negative() { c.neg(&s) } else { s.clone() };
        let mut k = n.abs(); while !k.is_zero() { want = c.add(&want, &q); k -= 1; }
    }
    let g = e.multiply_scalar(&ps, &n);
    if unrep(&c, &g) != want { return bad("n P", sp(&want), se(&g)); }
    if want.is_none() && g != ECPoint::infinity() { return bad("n P", "(0, 1, 0)", se(&g)); }
    Ok(())
}
fn c18(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let top = if r.chance(80) { 61 } else if l.chance(r, 2, 6) { 1100 } else { 211 };
    let p = if top == 1100 { let x = l.upto(r, 1100).unwrap_or(900).max(3); bi((x..).find(|x| is_prime(*x as u64)).unwrap()) } else { bi(prime(r, l, 3, top)) };
    let c = Cv { a: int(r, l), b: int(r, l), p };
    cx.input(scv(&c), c.p > bi(3));
    let e = EllipticCurve::new(&c.a, &c.b, &c.p);
    isb("a, b, p kept", true, e.a == c.a && e.b == c.b && e.p == c.p)?;
    let want = c.points();
    let got = e.points();
    let txt = || got.iter().map(se).collect::<Vec<_>>().join(" ");
    let exp = want.iter().map(sp).collect::<Vec<_>>().join(" ");
    if got.len() != want.len() { return bad("number of points", format!("{}: {}", want.len(), exp), txt()); }
    if e.cardinality() != want.len() { return bad("cardinality", want.len(), e.cardinality()); }
    for (i, g) in got.iter().enumerate() {
        let ok = if i + 1 == got.len() { g == &ECPoint { x: bi(0), y: bi(1), z: bi(0) } } else { let (x, y) = want[i].clone().unwrap(); let _ = y; g.z.is_one() && g.x == x && g.y >= bi(0) && g.y < c.p && c.on(&g.x, &g.y) };
        if !ok { return bad("points", exp, txt()); }
    }
    let mut ys: Vec<(BigInt, BigInt, BigInt)> = got.iter().map(|g| (g.x.clone(), g.y.clone(), g.z.clone())).collect(); ys.sort(); let n = ys.len(); ys.dedup();
    isb("points distinct", true, ys.len() == n)
}
fn c19(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let c = loop { let top = if l.chance(r, 1, 5) { 170 } else { 43 }; let p = bi(prime(r, l, 5, top)); let c = Cv { a: int(r, l), b: int(r, l), p }; if !c.sing() { break c; } };
    let n = if r.chance(90) { r.range(0, 12) } else if r.chance(50) { r.range(0, 60) } else { l.upto(r, 400).unwrap_or(13) };
    let s = c.some(r);
    let ps = rep(r, &c, &s);
    cx.input(format!("{}; P = {}; n = {}", scv(&c), se(&ps), n), s.is_some());
    let e = EllipticCurve::new(&c.a, &c.b, &c.p);
    let mut o = 1; let mut q = s.clone();
    while q.is_some() { q = c.add(&q, &s); o += 1; }
    is("order", &bi(o), &e.point_order(&ps))?;
    let dv = e.division_points(&bi(n));
    let byref: Vec<ECPoint> = (&dv).into();
    let deref: Vec<ECPoint> = dv.iter().cloned().collect();
    let v: Vec<ECPoint> = dv.into();
    let key = |v: &Vec<ECPoint>| v.iter().map(se).collect::<Vec<_>>().join(" ");
    if key(&byref) != key(&v) { return bad("vector converted from a reference", key(&v), key(&byref)); }
    if key(&deref) != key(&v) { return bad("dereferenced list", key(&v), key(&deref)); }
    let want: Vec<ECPoint> = e.points().into_iter().filter(|g| c.mul(&unrep(&c, g), &bi(n)).is_none()).collect();
    if v != want { return bad("division points", want.iter().map(se).collect::<Vec<_>>().join(" "), v.iter().map(se).collect::<Vec<_>>().join(" ")); }
    Ok(())
}
fn c28(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let c = loop { let top = if l.chance(r, 1, 5) { 170 } else { 43 }; let p = bi(prime(r, l, 5, top)); let c = Cv { a: int(r, l), b: int(r, l), p }; if !c.sing() { break c; } };
    let n = if r.chance(90) { r.range(-12, 12) } else if r.chance(50) { r.range(-60, 60) } else { l.upto(r, 400).unwrap_or(13) };
    let e = EllipticCurve::new(&c.a, &c.b, &c.p);
    let ker: Vec<P> = c.points().into_iter().filter(|s| c.mul(s, &bi(n)).is_none()).collect();
    cx.input(format!("{}; n = {}", scv(&c), n), ker.len() > 1);
    let (mut v, mut w) = (bi(0), bi(0));
    for s in &ker { if let Some((x, y)) = s { let g = bi(3) * x * x + &c.a; v += &g; w += bi(2) * y * y + x * g; } }
    let (a, b) = (c.md(&c.a - bi(5) * v), c.md(&c.b - bi(7) * w));
    let d = e.isogeny(&bi(n));
    if d.a != a || d.b != b || d.p != c.p { return bad("Velu quotient", format!("a = {}, b = {}, p = {}", a, b, c.p), format!("a = {}, b = {}, p = {}", d.a, d.b, d.p)); }
    if d.points().len() != c.points().len() || d.cardinality() != e.cardinality() { return bad("number of points", c.points().len(), d.points().len()); }
    Ok(())
}
fn c20(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let c = cv(r, l, false);
    cx.input(scv(&c), !c.a.is_zero() && !c.b.is_zero());
    let n = bi(4) * &c.a * &c.a * &c.a;
    let d = &n + bi(27) * &c.b * &c.b;
    let e = c.md(bi(1728) * &n * inv(&d, &c.p));
    is("j", &e, &EllipticCurve::new_raw(&c.a, &c.b, &c.p).j_invariant())?;
    let (k, m) = (r.range(-2, 2), r.range(-2, 2));
    is("j of shifted a, b", &e, &EllipticCurve::new_raw(&(&c.a + &c.p * k), &(&c.b + &c.p * m), &c.p).j_invariant())
}

// ------------------------------------------------------------------ division polynomials
fn psi_values(a: &BigInt, b: &BigInt, x: &BigInt, y: &BigInt, n: usize) -> Vec<BigInt> {
    let mut v = vec![bi(0), bi(1), bi(2) * y];
    v.push(bi(3) * ipow(x, 4) + bi(6) * a * ipow(x, 2) + bi(12) * b * x - a * a);
    v.push(bi(4) * y * (ipow(x, 6) + bi(5) * a * ipow(x, 4) + bi(20) * b * ipow(x, 3) - bi(5) * a * a * ipow(x, 2) - bi(4) * a * b * x - bi(8) * b * b - a * a * a));
    for k in 5..=n {
        let m = k / 2;
        let w = if k % 2 == 1 { &v[m + 2] * ipow(&v[m], 3) - &v[m - 1] * ipow(&v[m + 1], 3) } else { &v[m] * (&v[m + 2] * ipow(&v[m - 1], 2) - &v[m - 2] * ipow(&v[m + 1], 2)) / (bi(2) * y) };
        v.push(w);
    }
    v
}
fn p_has_y(p: &Polynomial, ok: &[i32]) -> bool { p.terms.keys().any(|m| !ok.contains(&(m.ypow as i32))) }
fn c21(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let a = if r.chance(80) { small(r) } else { int(r, l) };
    let (x, y) = (bi(r.range(-1000, 1000)), bi(r.range(1, 1000)));
    let b = &y * &y - &x * &x * &x - &a * &x;
    let n = if cx.thorough { r.range(0, 13) } else if r.chance(90) { r.range(0, 8) } else { r.range(0, 10) };
    let n = if l.chance(r, 1, 8) { l.upto(r, 13).unwrap_or(n) } else { n };
    cx.input(format!("n = {}; a = {}; b = {}; point ({}, {})", n, a, b, x, y), n > 4);
    let v = psi_values(&a, &b, &x, &y, n as usize + 3);
    let at = |p: &Polynomial| -> BigInt { p.terms.iter().map(|(m, c)| c * ipow(&x, m.xpow as i64) * ipow(&y, m.ypow as i64)).sum() };
    let canon = |p: &Polynomial| p.terms.iter().all(|(m, c)| !c.is_zero() && m.xpow >= 0 && m.qpow == 0 && m.variable.empty);
    let p = division_polynomial::psi(&a, &b, n as i32);
    if at(&p) != v[n as usize] || !canon(&p) { return bad("psi at the point", &v[n as usize], format!("{} (value {})", showp(&p), at(&p))); }
    let form = if n % 2 == 1 { p.terms.keys().all(|m| m.ypow == 0) } else { p.terms.iter().all(|(m, c)| m.ypow == 1 && c.is_even()) };
    if !form { return bad("psi", if n % 2 == 1 { "free of y" } else { "y times a polynomial in x with even coefficients" }, showp(&p)); }
    if n >= 1 {
        let i = n as usize;
        let f = division_polynomial::phi(&a, &b, n as i32);
        let e = &x * &v[i] * &v[i] - &v[i + 1] * &v[i - 1];
        if p_has_y(&f, &[0]) { return bad("phi", "free of y", showp(&f)); }
        if at(&f) != e || !canon(&f) { return bad("phi at the point", e, format!("{} (value {})", showp(&f), at(&f))); }
        let w = division_polynomial::omega(&a, &b, n as i32);
        let e = if n == 1 { y.clone() } else { (&v[i + 2] * ipow(&v[i - 1], 2) - &v[i - 2] * ipow(&v[i + 1], 2)) / (bi(4) * &y) };
        if p_has_y(&w, &[n as i32 % 2]) { return bad("omega", if n % 2 == 1 { "y times a polynomial in x" } else { "free of y" }, showp(&w)); }
        if at(&w) != e || !canon(&w) { return bad("omega at the point", e, format!("{} (value {})", showp(&w), at(&w))); }
    }
    Ok(())
}

// ------------------------------------------------------------------ q-expansions
fn q1(n: i64, c: BigInt) -> RP { single([0, 0, n, 0, 0, 0], c) }
fn sigma(n: i64, k: i64) -> BigInt { let mut s = bi(0); for d in 1..=n { if n % d == 0 { s += ipow(&bi(d), k); } } s }
fn e4(n: i64) -> RP { let mut r = constant(&bi(1)); for i in 1..=n { r = add(&r, &q1(i, bi(240) * sigma(i, 3))); } r }
fn delta_ref(n: i64) -> RP { let mut r = constant(&bi(1)); for i in 1..=n { let f = sub(&constant(&bi(1)), &q1(i, bi(1))); for _ in 0..24 { r = trunc_q(&mul(&r, &f), n); } } r }
fn c22(idx: u64, cx: &mut Ctx) -> R {
    let k = (idx / 2) as i64;
    if idx % 2 == 0 {
        let pw = k % 7;
        let n0 = if k < 1000 { k * 3 } else { 46341 + (k - 1000) * 7919 };
        for n in n0..n0 + 3 {
            cx.input(format!("sigma_{}({}), E4 to order {}", pw, n, k), n > 1);
            is(&format!("sigma_{}({})", pw, n), &sigma(n, pw), &divisor::sigma_divisor(n as i32, pw as i32))?;
            is(&format!("sigma_3({})", n), &sigma(n, 3), &divisor::sigma_divisor(n as i32, 3))?;
        }
        if k > 80 { return Ok(()); }
        isp("E4", &e4(k), &eisenstein::eisenstein4(k as i32))
    } else {
        if k > if cx.thorough { 120 } else { 70 } { return Ok(()); }
        cx.input(format!("order {}", k), true);
        let d = delta_ref(k);
        isp("delta1", &d, &delta::delta1(k as i32))?;
        if k > if cx.thorough { 90 } else { 50 } { return Ok(()); }
        let i = delta::delta1_inverse(k as i32);
        let mut ri = RP::new(); for (m, c) in &i.terms { ri.insert(mview(m), c.clone()); }
        if trunc_q(&mul(&ri, &d), k) != constant(&bi(1)) { return bad("delta1_inverse * delta1 up to the order", "1", showp(&i)); }
        let e = pow(&e4(k + 2), 3);
        // j * q * delta1 = E4^3 up to q^(order+1)
        let j = j_invariant::j_invariant(k as i32);
        let mut rj = RP::new(); for (m, c) in &j.terms { let mut m = mview(m); m[2] += 1; rj.insert(m, c.clone()); }
        if trunc_q(&mul(&rj, &delta_ref(k + 2)), k + 1) != trunc_q(&e, k + 1) { return bad("j * q * delta1 up to the order", show(&trunc_q(&e, k + 1)), showp(&j)); }
        if j.terms.keys().any(|m| (m.qpow as i64) > k) || j.terms.values().any(|c| c.is_zero()) { return bad("j", "no terms beyond the order", showp(&j)); }
        let j1 = j_invariant::j_invariant1(k as i32);
        let mut r1 = RP::new(); for (m, c) in &j1.terms { r1.insert(mview(m), c.clone()); }
        if trunc_q(&mul(&r1, &d), k) != trunc_q(&e, k) { return bad("j1 * delta1 up to the order", show(&trunc_q(&e, k)), showp(&j1)); }
        Ok(())
    }
}

// ------------------------------------------------------------------ linear systems
fn full_rank(a: &[Vec<BigInt>], n: usize) -> bool {
    let p = bi(2305843009213693951); let mut w: Vec<Vec<BigInt>> = a.iter().map(|r| r.iter().map(|c| c.mod_floor(&p)).collect()).collect();
    for i in 0..n {
        let k = match (i..w.len()).find(|&k| !w[k][i].is_zero()) { Some(k) => k, None => return false };
        w.swap(i, k);
        let iv = inv(&w[i][i], &p);
        for r in i + 1..w.len() { let f = (&w[r][i] * &iv).mod_floor(&p); if !f.is_zero() { for c in i..n { let t = (&w[r][c] - &f * &w[i][c]).mod_floor(&p); w[r][c] = t; } } }
    }
    true
}
fn c23(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let n = if l.chance(r, 2, 12) { l.upto(r, 12).unwrap_or(6).max(1) } else { r.range(1, 5) } as usize;
    let rows = n + if r.chance(50) { 0 } else { r.range(1, 3) as usize };
    let x: Vec<BigInt> = (0..n).map(|_| if r.chance(70) { small(r) } else { int(r, l) }).collect();
    let style = r.below(4);
    let a: Vec<Vec<BigInt>> = loop {
        let mut a: Vec<Vec<BigInt>> = (0..rows).map(|i| (0..n).map(|j| match style {
            0 => if r.chance(50) { bi(0) } else { small(r) },
            1 => bi(r.range(-9, 9)),
            2 => if r.chance(10) { int(r, l) } else { small(r) },
            _ => if j < i { bi(0) } else { bi(r.range(-4, 4)) },
        }).collect()).collect();
        for i in (1..rows).rev() { let k = r.below(i as u64 + 1) as usize; a.swap(i, k); }
        if r.chance(30) && rows > 1 { let (s, t) = (r.below(rows as u64) as usize, r.below(rows as u64) as usize); let c = a[s].clone(); a[t] = c; }
        if full_rank(&a, n) { break a; }
    };
    let m: Vec<Vec<BigInt>> = a.iter().map(|v| { let c: BigInt = v.iter().zip(&x).map(|(u, w)| u * w).sum(); let mut v = v.clone(); v.push(c); v }).collect();
    let txt = |m: &Vec<Vec<BigInt>>| m.iter().map(|v| format!("[{}]", v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" ");
    cx.input(txt(&m), n > 1);
    let b = simultaneous_equation::solve(&m);
    for i in 0..n { if b[i][n] != x[i] { return bad(&format!("unknown {}", i), &x[i], txt(&b)); } }
    Ok(())
}

// ------------------------------------------------------------------ subscripted variables, modular polynomials
fn c24(r: &mut Rng, idx: u64, cx: &mut Ctx) -> R {
    let ps: Vec<i64> = (2..200).filter(|&n| is_prime(n as u64)).collect();
    let p = ps[idx as usize % ps.len()];
    cx.input(format!("p = {}", p), true);
    let c = SubscriptedVariableConverter::new(p as i32);
    let mut want = vec![];
    for i in 0..=p { for j in i + 1..=p { want.push((i as i32, j as i32)); } }
    for i in 0..=p { want.push((i as i32, i as i32)); }
    is("count", &bi((p + 1) * (p + 2) / 2), &BigInt::from(c.count()))?;
    isb("index of none", true, c.index_from_variable(SubscriptedVariable::new()) == None)?;
    let mut ks: Vec<usize> = if p <= 31 { (0..want.len()).collect() } else { (0..120).map(|_| r.below(want.len() as u64) as usize).collect() };
    ks.push(0); ks.push(want.len() - 1);
    for k in ks {
        let (i, j) = want[k];
        let v = c.variable_from_index(k as u64);
        if v.empty || (v.i, v.j) != (i, j) { return bad(&format!("variable {}", k), format!("c_{}_{}", i, j), format!("{:?}", v)); }
        let x = c.index_from_variable(SubscriptedVariable { i, j, empty: false });
        if x != Some(k as u64) { return bad(&format!("index of c_{}_{}", i, j), k, format!("{:?}", x)); }
    }
    Ok(())
}
/// series with the coefficients of q^-n0, q^-n0+1, ... (same length all)
fn smul(a: &[BigInt], b: &[BigInt], len: usize) -> Vec<BigInt> {
    let mut r = vec![bi(0); len];
    for (i, x) in a.iter().enumerate().take(len) { if !x.is_zero() { for (j, y) in b.iter().enumerate().take(len - i) { if !y.is_zero() { r[i + j] += x * y; } } } }
    r
}
/// coefficients of q^-1, q^0, ... of j
fn jref(len: usize) -> Vec<BigInt> {
    let mut e = vec![bi(0); len]; e[0] = bi(1); for i in 1..len { e[i] = bi(240) * sigma(i as i64, 3); }
    let mut r = smul(&smul(&e, &e, len), &e, len);
    // divide by (1 - q^i) 24 times for every i
    for i in 1..len { for _ in 0..24 { for k in i..len { let t = r[k - i].clone(); r[k] += t; } } }
    r
}
/// expansion of the template at (j(q), j(q^p)) up to q^0
fn mq_ref(p: i64) -> RP {
    let len = (p * p + 2 * p + 3) as usize;
    let j = jref(len);
    let mut jq = vec![bi(0); len]; for (i, c) in j.iter().enumerate() { if i * (p as usize) < len { jq[i * p as usize] = c.clone(); } }
    let one = { let mut o = vec![bi(0); len]; o[0] = bi(1); o };
    let (mut xs, mut ys) = (vec![one.clone()], vec![one]);
    for k in 0..=(p as usize) { let t = smul(&xs[k], &j, len); xs.push(t); let t = smul(&ys[k], &jq, len); ys.push(t); }
    let mut e = RP::new();
    let mut term = |a: i64, b: i64, v: Option<(i64, i64)>| {
        let s = smul(&xs[a as usize], &ys[b as usize], len);
        for (k, c) in s.iter().enumerate() { let q = k as i64 - a - p * b; if q <= 0 && !c.is_zero() { let (n, i, j) = v.map_or((0, 0, 0), |(i, j)| (1, i, j)); put(&mut e, [0, 0, q, n, i, j], c.clone()); } }
    };
    term(p + 1, 0, None); term(0, p + 1, None);
    for i in 0..=p { for j in i..=p { term(i, j, Some((i, j))); if i != j { term(j, i, Some((i, j))); } } }
    e
}
fn c25(idx: u64, cx: &mut Ctx) -> R {
    let ps = [2i64, 3, 5, 7, 11, 13, 17, 19];
    if idx >= 2 && (idx as usize) < ps.len() + 2 {
        let p = ps[idx as usize - 2];
        cx.input(format!("template p = {}", p), true);
        let mut e = RP::new();
        put(&mut e, [p + 1, 0, 0, 0, 0, 0], bi(1)); put(&mut e, [0, p + 1, 0, 0, 0, 0], bi(1));
        for i in 0..=p { for j in i..=p { put(&mut e, [i, j, 0, 1, i, j], bi(1)); if i != j { put(&mut e, [j, i, 0, 1, i, j], bi(1)); } } }
        return isp("template", &e, &modular_polynomial::subscripted_variable_modular_polynomial(p as i32));
    }
    let p = match idx { 0 => 2, 1 => 3, 10 => 5, _ => return Ok(()) };
    cx.input(format!("modular polynomial p = {}", p), true);
    let e = mq_ref(p);
    isp("expansion of the template", &e, &modular_polynomial::subscripted_variable_modular_polynomial_q(p as i32))?;
    let list = modular_polynomial::subscripted_variable_modular_polynomial_list(p as i32);
    if list.len() as i64 != p * p + p + 1 { return bad("list length", p * p + p + 1, list.len()); }
    for (r, g) in list.iter().enumerate() {
        let q = r as i64 - p * p - p;
        let mut c = RP::new(); for (m, v) in &e { if m[2] == q { put(&mut c, [0, 0, 0, m[3], m[4], m[5]], v.clone()); } }
        isp(&format!("coefficient of q^{}", q), &c, g)?;
    }
    let f = modular_polynomial::modular_polynomial(p as i32);
    let mut g = RP::new(); for (m, c) in &f.terms { g.insert(mview(m), c.clone()); }
    let one = bi(1);
    let ok = g.iter().all(|(m, c)| !c.is_zero() && m[2] == 0 && m[3] == 0 && g.get(&[m[1], m[0], 0, 0, 0, 0]) == Some(c) && m[0] >= 0 && m[1] >= 0 && ((m[0] <= p && m[1] <= p) || (m[0] + m[1] == p + 1 && m[0] * m[1] == 0)))
        && g.get(&[p + 1, 0, 0, 0, 0, 0]) == Some(&one) && g.get(&[0, p + 1, 0, 0, 0, 0]) == Some(&one);
    if !ok { return bad("modular polynomial", "symmetric, monic", showp(&f)); }
    for q in -(p * p + p)..=0 {
        let s: BigInt = e.iter().filter(|(m, _)| m[2] == q).map(|(m, c)| if m[3] == 0 { c.clone() } else { c * g.get(&[m[4], m[5], 0, 0, 0, 0]).cloned().unwrap_or(bi(0)) }).sum();
        if !s.is_zero() { return bad(&format!("coefficient of q^{} of the modular polynomial at (j(q), j(q^{}))", q, p), 0, s); }
    }
    Ok(())
}

// ------------------------------------------------------------------ SEA
/// polynomial in x over GF(p), lowest coefficient first
fn seval(f: &[i64], x: i64, p: i64) -> i64 { f.iter().rev().fold(0, |s, c| (s * x + c).rem_euclid(p)) }
fn c29(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    thread_local! { static PHI: std::cell::RefCell<std::collections::BTreeMap<i32, Vec<(i64, i64, BigInt)>>> = std::cell::RefCell::new(Default::default()); }
    let n: i32 = match r.below(300) { 0 => 5, 1..=99 => 3, _ => 2 };
    let top = match r.below(20) { 0..=11 => 32, 12..=18 => 260, _ => if l.chance(r, 10, 40) { 20000 } else { 3000 } };
    let p = prime(r, l, 4, top) as i64;
    let mut c = (r.range(0, p - 1), r.range(0, p - 1));
    if r.chance(10) { c.0 = 0 } else if r.chance(10) { c.1 = 0 }
    let m = |v: i64| v.rem_euclid(p);
    let d4 = m(4 * m(c.0 * m(c.0 * c.0)));
    let d = m(d4 + m(27 * m(c.1 * c.1)));
    if d == 0 { return Ok(()); }
    let j = (bi(1728) * bi(d4) * inv(&bi(d), &bi(p))).mod_floor(&bi(p));
    let j = num_traits::ToPrimitive::to_i64(&j).unwrap();
    let sh = if r.chance(20) { (r.range(-2, 2), r.range(-2, 2)) } else { (0, 0) };
    let (a, b) = (c.0 + sh.0 * p, c.1 + sh.1 * p);
    let what = format!("sea: y^2 = x^3 + {} x + {} over GF({}), l = {}", a, b, p, n);
    cx.input(what.clone(), false);
    let phi = PHI.with(|f| f.borrow_mut().entry(n).or_insert_with(|| modular_polynomial::modular_polynomial(n).terms.iter().map(|(m, c)| (mview(m)[0], mview(m)[1], c.clone())).collect()).clone());
    // the modular polynomial at y = j, modulo p
    let mut f = vec![0i64; n as usize + 2];
    for (x, y, c) in &phi {
        let c = num_traits::ToPrimitive::to_i64(&c.mod_floor(&bi(p))).unwrap();
        let mut v = c; for _ in 0..*y { v = m(v * j); }
        f[*x as usize] = m(f[*x as usize] + v);
    }
    let roots: Vec<i64> = (0..p).filter(|x| seval(&f, *x, p) == 0).collect();
    cx.input(what, !roots.is_empty());
    let e = ellipticcurve::schoof_elkies_atkins::sea(&EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p)), n);
    let mut g = vec![1i64];
    for x in &roots { let mut h = vec![0i64; g.len() + 1]; for (i, c) in g.iter().enumerate() { h[i + 1] = m(h[i + 1] + c); h[i] = m(h[i] - m(c * x)); } g = h; }
    let mut gp = RP::new(); for (i, c) in g.iter().enumerate() { put(&mut gp, [i as i64, 0, 0, 0, 0, 0], bi(*c)); }
    isp("gcd", &gp, &e.gcd)?;
    is("degree of the gcd", &bi(roots.len() as i64), &bi(e.degree_of_gcd as i64))?;
    isb("Elkies", !roots.is_empty(), e.is_elkies_prime)?;
    let k: Vec<BigInt> = roots.iter().take(2).map(|x| bi(*x)).collect();
    if k == e.isogeny_j_invariants { Ok(()) } else { bad("j-invariants", format!("{:?}", k.iter().map(|x| x.to_string()).collect::<Vec<_>>()), format!("{:?}", e.isogeny_j_invariants.iter().map(|x| x.to_string()).collect::<Vec<_>>())) }
}

// ------------------------------------------------------------------ printing
fn tstr(m: &M, c: &BigInt) -> String {
    let mut w: Vec<String> = vec![];
    for (n, e) in ["x", "y", "q"].iter().zip(&m[..3]) { if *e == 1 { w.push(n.to_string()); } else if *e != 0 { w.push(format!("{}^{}", n, e)); } }
    if m[3] != 0 { w.push(format!("c_{}_{}", m[4], m[5])); }
    let a = c.abs();
    if w.is_empty() || !a.is_one() { w.insert(0, a.to_string()); }
    format!("{}{}", if c.is_negative() { "- " } else { "" }, w.join(" "))
}
fn pstr(a: &RP) -> String {
    let mut e = String::new();
    for (i, (m, c)) in a.iter().rev().enumerate() { if i > 0 { e.push(' '); if c.is_positive() { e.push_str("+ "); } } e.push_str(&tstr(m, c)); }
    if a.is_empty() { e.push('0'); }
    e
}
fn c26(r: &mut Rng, l: &Lits, cx: &mut Ctx) -> R {
    let mut a = gpol(r, l, &ANY);
    if r.chance(50) { for c in a.values_mut() { if r.chance(50) { *c = bi(if r.chance(50) { 1 } else { -1 }); } } }
    let c = if r.chance(20) { bi(0) } else { coef(r, l) };
    let pt = ECPoint { x: int(r, l), y: int(r, l), z: if r.chance(20) { bi(0) } else { bi(1) } };
    let (m, d) = (gmono(r, l, &ANY), coef(r, l));
    cx.input(format!("a = {}; t = {}; c = {}; point = {}", show(&a), show(&single0(m, &d)), c, se(&pt)), !a.is_empty());
    let st = |what: &str, e: &str, g: &str| -> R { if e == g { Ok(()) } else { bad(what, e, g) } };
    st("polynomial", &pstr(&a), &pol(&a).to_string())?;
    st("constant", &if c.is_negative() { format!("- {}", c.abs()) } else { c.to_string() }, &pol(&constant(&c)).to_string())?;
    st("term", &tstr(&m, &d), &term(&m, &d).to_string())?;
    st("point", &if pt.z.is_zero() { "O".to_string() } else { format!("({}, {})", pt.x, pt.y) }, &pt.to_string())?;
    if r.chance(10) {
        let q = [5i64, 7, 11, 13, 17, 19, 23][r.below(7) as usize];
        let (ca, cb) = (r.range(0, q - 1), r.range(0, q - 1));
        if (4 * ca * ca * ca + 27 * cb * cb) % q != 0 {
            cx.input(format!("curve y^2 = x^3 + {} x + {} over F_{}", ca, cb, q), true);
            let e = EllipticCurve::new(&bi(ca), &bi(cb), &bi(q));
            let n = (0..q).map(|x| (0..q).filter(|y| (y * y - x * x * x - ca * x - cb) % q == 0).count()).sum::<usize>() + 1;
            let j = (0..q).find(|j| (j * (4 * ca * ca * ca + 27 * cb * cb) - 1728 * 4 * ca * ca * ca) % q == 0).unwrap();
            let mut f = RP::new(); put(&mut f, [3, 0, 0, 0, 0, 0], bi(1)); put(&mut f, [1, 0, 0, 0, 0, 0], bi(ca)); put(&mut f, [0; 6], bi(cb));
            let dv = e.division_points(&bi(r.range(0, 6)));
            st("list of points", &dv.iter().map(|s| if s.z.is_zero() { "O".to_string() } else { format!("({}, {})", s.x, s.y) }).collect::<Vec<_>>().join(", "), &dv.to_string())?;
            st("curve", &format!("F_{}: y^2 = {}, cardinality:{}, j:{}", q, pstr(&f), n, j), &e.to_string())?;
        }
    }
    if r.chance(1) && r.chance(5) {
        // more terms than a small counter holds
        let k = *[300i64, 300, 300, 300, 66000].get(r.below(5) as usize).unwrap();
        cx.input(format!("sum of (-1)^(i div 3) x^i for i < {}", k), true);
        let mut f = RP::new(); for i in 0..k { put(&mut f, [i, 0, 0, 0, 0, 0], bi(if i / 3 % 2 == 0 { 1 } else { -1 })); }
        let (e, g) = (pstr(&f), pol(&f).to_string());
        if e != g { let n = e.chars().zip(g.chars()).take_while(|(a, b)| a == b).count(); return bad("polynomial (from the first difference)", e.chars().skip(n.max(20) - 20).take(60).collect::<String>(), g.chars().skip(n.max(20) - 20).take(60).collect::<String>()); }
    }
    let v = mono(&m).variable;
    st("variable", &if v.empty { String::new() } else { format!("c_{}_{}", v.i, v.j) }, &v.to_string())
}

// ------------------------------------------------------------------ Schoof
/// every non-singular curve over GF(5), GF(7) and GF(11)
const SCH: u64 = 172;
fn schoof_case(idx: u64) -> Option<Cv> {
    let mut n = 0;
    for p in [5i64, 7, 11].iter() { for a in 0..*p { for b in 0..*p {
        let c = Cv { a: bi(a), b: bi(b), p: bi(*p) };
        if c.sing() { continue; }
        if n == idx { return Some(c); }
        n += 1;
    } } }
    assert_eq!(n, SCH);
    None
}
fn c27(all: bool, r: &mut Rng, l: &Lits, idx: u64, cx: &mut Ctx) -> R {
    let c = match schoof_case(idx) {
        Some(c) => c,
        None => loop {
            let p = bi(if idx % 8 == 0 { *r.pick(&[17i64, 19]) } else if idx % 3 == 0 { 13 } else { *r.pick(&[5i64, 7, 11]) });
            let (a, b) = if r.chance(60) { (bi(r.range(0, 18)), bi(r.range(0, 18))) } else { (int(r, l), int(r, l)) };
            let c = Cv { a, b, p };
            if !c.sing() { break c; }
        }
    };
    cx.input(scv(&c), true);
    let q: i32 = c.p.to_string().parse().unwrap();
    let tr = &c.p + bi(1) - bi(c.points().len() as i64);
    let got = ellipticcurve::schoof::schoof(&c.a, &c.b, q);
    let txt = got.iter().map(|m| format!("{} mod {}", m.r, m.l)).collect::<Vec<_>>().join(", ");
    let want: Vec<(BigInt, BigInt)> = [2i64, 3, 5].iter().filter(|x| **x < q as i64).map(|x| (tr.mod_floor(&bi(*x)), bi(*x))).collect();
    let exp = want.iter().map(|(r, l)| format!("{} mod {}", r, l)).collect::<Vec<_>>().join(", ");
    if !all {
        if got.is_empty() || got[0].l != bi(2) || got[0].r != want[0].0 { return bad(&format!("trace {}; first residue", tr), exp, txt); }
        return Ok(());
    }
    if got.len() != want.len() || got.iter().zip(want.iter()).any(|(g, w)| g.r != w.0 || g.l != w.1) { return bad(&format!("trace {}; residues", tr), exp, txt); }
    Ok(())
}
