// Roots of polynomials in x modulo a prime: Lagrange's bound, the divisors of x^p - x, the roots of a gcd.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::polygcd::*;
use crate::modpol::*;
use crate::qser::lemma_isum_zero;
pub open spec fn evx(m: PM, r: int) -> int { ev(m, r, 0) }
/// r is a root modulo p
pub open spec fn rt(m: PM, r: int, p: int) -> bool { divides(p, evx(m, r)) }
/// number of roots in [0, n)
pub open spec fn cnt(m: PM, p: int, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(m, p, n - 1) + (if rt(m, n - 1, p) { 1int } else { 0 }) } }
/// degree below d
pub open spec fn dlt(m: PM, d: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.x < d }
pub open spec fn mx1(e: int) -> MV { mk(e, 0, 0) }
/// x - r
pub open spec fn xr(r: int) -> PM { padd(mono(mx1(1), 1), mono(m1(), -r)) }
/// x^p - x
pub open spec fn xpx(p: int) -> PM { psub(mono(mx1(p), 1), mono(mx1(1), 1)) }
pub proof fn lemma_xo_nonneg(m: PM) requires xo(m) ensures nonneg(m) {}
pub proof fn lemma_cnt_mono(m: PM, p: int, a: int, b: int) requires a <= b ensures cnt(m, p, a) <= cnt(m, p, b), 0 <= cnt(m, p, a) decreases b { if b > 0 && a < b { lemma_cnt_mono(m, p, a, b - 1); } else if b > 0 { lemma_cnt_mono(m, p, a - 1, b - 1); } }
pub proof fn lemma_cnt_pos(m: PM, p: int, n: int) -> (r: int) requires cnt(m, p, n) > 0 ensures 0 <= r < n, rt(m, r, p) decreases n {
    if n <= 0 { 0 } else if rt(m, n - 1, p) { n - 1 } else { lemma_cnt_pos(m, p, n - 1) }
}
pub proof fn lemma_cnt_has(m: PM, p: int, n: int, r: int) requires 0 <= r < n, rt(m, r, p) ensures cnt(m, p, n) > 0 decreases n { lemma_cnt_mono(m, p, 0, n - 1); if r < n - 1 { lemma_cnt_has(m, p, n - 1, r); } }
pub proof fn lemma_cnt_none(m: PM, p: int, a: int, b: int, r: int) requires cnt(m, p, a) == cnt(m, p, b), a <= r < b, 0 <= a ensures !rt(m, r, p) decreases b {
    lemma_cnt_mono(m, p, a, b - 1);
    if r < b - 1 { lemma_cnt_none(m, p, a, b - 1, r); }
}
pub proof fn lemma_cnt_le(m: PM, p: int, n: int) requires n >= 0 ensures cnt(m, p, n) <= n decreases n { if n > 0 { lemma_cnt_le(m, p, n - 1); } }
pub proof fn lemma_cnt_same(a: PM, b: PM, p: int, n: int) requires forall|r: int| 0 <= r < n ==> rt(a, r, p) == #[trigger] rt(b, r, p) ensures cnt(a, p, n) == cnt(b, p, n) decreases n {
    if n > 0 { lemma_cnt_same(a, b, p, n - 1); assert(rt(a, n - 1, p) == rt(b, n - 1, p)); }
}
/// every root of h other than z is a root of q
pub proof fn lemma_cnt_drop(h: PM, q: PM, p: int, z: int, n: int) requires forall|r: int| 0 <= r < n && r != z && #[trigger] rt(h, r, p) ==> rt(q, r, p) ensures cnt(q, p, n) >= cnt(h, p, n) - (if 0 <= z < n { 1int } else { 0 }) decreases n {
    if n > 0 { lemma_cnt_drop(h, q, p, z, n - 1); if rt(h, n - 1, p) && n - 1 != z { assert(rt(q, n - 1, p)); } }
}
/// the roots of a product are among the roots of the factors
pub proof fn lemma_cnt_or(a: PM, b: PM, p: int, n: int) requires n >= 0, forall|r: int| 0 <= r < n ==> #[trigger] rt(a, r, p) || rt(b, r, p) ensures cnt(a, p, n) + cnt(b, p, n) >= n decreases n {
    if n > 0 { lemma_cnt_or(a, b, p, n - 1); assert(rt(a, n - 1, p) || rt(b, n - 1, p)); }
}
pub proof fn lemma_evx_mono(e: int, c: int, r: int) requires e >= 0 ensures evx(mono(mx1(e), c), r) == c * pow(r, e) {
    lemma_ev_mono(mx1(e), c, r, 0);
    let a = pow(r, e);
    assert((a * 1) * c == c * a) by (nonlinear_arith);
}
pub proof fn lemma_xr(r: int, z: int) ensures canon(xr(r)), xo(xr(r)), evx(xr(r), z) == z - r {
    broadcast use poly_cf;
    lemma_evx_mono(1, 1, z); lemma_evx_mono(0, -r, z);
    assert(mx1(0) == m1());
    lemma_pow1(z);
    lemma_xo(mono(mx1(1), 1), mono(m1(), -r));
    lemma_ev_padd(mono(mx1(1), 1), mono(m1(), -r), z, 0);
    assert(-r * 1 == -r);
}
/// equal modulo p: same roots
pub proof fn lemma_peq_rt(a: PM, b: PM, r: int, p: int) requires p > 0, canon(a), canon(b), peq(a, b, p) ensures rt(a, r, p) == rt(b, r, p), cong(evx(a, r), evx(b, r), p) {
    lemma_ev_pmod(a, p, r, 0); lemma_ev_pmod(b, p, r, 0);
    let (u, v, w) = (evx(a, r), evx(b, r), ev(pmod(a, p), r, 0));
    lemma_cong_sym(w, u, p); lemma_cong_trans(u, w, v, p); lemma_cong_sym(u, v, p);
    if rt(a, r, p) { lemma_div_add(p, u, u - v); }
    if rt(b, r, p) { lemma_div_add(p, v, u - v); }
}
pub proof fn lemma_rt_mul(a: PM, b: PM, r: int, p: int) requires canon(a), canon(b), xo(a), xo(b), is_prime_spec(p) ensures rt(pmul(a, b), r, p) == (rt(a, r, p) || rt(b, r, p)) {
    lemma_ev_pmul(a, b, r, 0);
    let (u, v) = (evx(a, r), evx(b, r));
    if divides(p, u * v) { lemma_euclid(p, u, v); }
    if divides(p, u) { lemma_div_mul(p, u, v); }
    if divides(p, v) { lemma_div_mul(p, v, u); }
}
/// h = (x - r) q + c
pub open spec fn is_synth(h: PM, r: int, q: PM, c: int, d: int) -> bool { canon(q) && xo(q) && dlt(q, d - 1) && h == padd(pmul(xr(r), q), mono(m1(), c)) }
pub proof fn lemma_synth(h: PM, r: int, d: int) -> (qc: (PM, int)) requires canon(h), xo(h), dlt(h, d), d >= 1 ensures is_synth(h, r, qc.0, qc.1, d) decreases d {
    broadcast use poly_cf;
    lemma_xr(r, 0);
    let t = mx1(d - 1); let a = cf(h, t);
    if d == 1 {
        assert forall|k: MV| #[trigger] cf(h, k) == cf(mono(m1(), a), k) by { if h.contains_key(k) { assert(k == m1()); } }
        lemma_ext(h, mono(m1(), a));
        lemma_mul_comm(xr(r), p0()); lemma_mul_p0(xr(r)); lemma_padd_0(mono(m1(), a));
        (p0(), a)
    } else {
        let u = mx1(d - 2); let ma = mono(u, a);
        // (x - r) a x^(d-2) = a x^(d-1) - r a x^(d-2)
        let s = pscale(xr(r), u, a);
        let h1 = psub(h, s);
        assert forall|k: MV| cf(s, k) == (if k == t { a } else { 0 }) + (if k == u { -(r * a) } else { 0 }) by {
            assert(mdiv(k, u) == mx1(1) <==> k == t); assert(mdiv(k, u) == m1() <==> k == u);
            assert(cf(s, k) == a * cf(xr(r), mdiv(k, u)));
            assert(a * 0 == 0); assert(a * 1 == a); assert(a * -r == -(r * a)) by (nonlinear_arith);
        }
        assert forall|k: MV| #[trigger] h1.contains_key(k) implies k.x < d - 1 && k.y == 0 && k.q == 0 && k.vn == 0 && k.vi == 0 && k.vj == 0 && k.x >= 0 by {
            assert(cf(h1, k) == cf(h, k) - cf(s, k)); assert(cf(h1, k) != 0);
            if k == t { } else if k == u { } else { assert(h.contains_key(k)); if k.x == d - 1 { assert(k == t); } }
        }
        let (q1, c) = lemma_synth(h1, r, d - 1);
        let q = padd(q1, ma);
        lemma_xo(q1, ma); lemma_keys_padd(q1, ma);
        lemma_mul_comm(xr(r), q); lemma_mul_padd_l(q1, ma, xr(r)); lemma_mul_mono_l(u, a, xr(r)); lemma_mul_comm(xr(r), q1);
        lemma_canon_pmul(xr(r), q1); lemma_canon_pmul(xr(r), q);
        lemma_ext(padd(padd(pmul(xr(r), q1), s), mono(m1(), c)), padd(h1, s));
        lemma_ext(padd(h1, s), h);
        (q, c)
    }
}
/// Lagrange: as many roots as the degree bound only for the zero polynomial
pub proof fn lemma_lagrange(h: PM, d: int, p: int) requires is_prime_spec(p), canon(h), xo(h), dlt(h, d), d >= 0, cnt(h, p, p) >= d ensures pmod(h, p) == p0() decreases d {
    broadcast use poly_cf;
    if d == 0 { assert(h =~= p0()) by { assert forall|k: MV| !h.contains_key(k) by { } } lemma_pmod_keys(h, p); assert(pmod(h, p) =~= p0()); }
    else {
        let z = lemma_cnt_pos(h, p, p);
        let (q, c) = lemma_synth(h, z, d);
        lemma_xr(z, z);
        lemma_canon_pmul(xr(z), q); lemma_xo(xr(z), q);
        let m = pmul(xr(z), q);
        // c = h(z) = 0
        lemma_ev_pmul(xr(z), q, z, 0); lemma_ev_padd(m, mono(m1(), c), z, 0); lemma_evx_mono(0, c, z); lemma_pow0(z); assert(mx1(0) == m1()); assert(c * 1 == c);
        assert(0 * evx(q, z) == 0);
        assert(evx(h, z) == c);
        lemma_div_mod(p, c);
        assert forall|k: MV| cf(pmod(h, p), k) == cf(pmod(m, p), k) by {
            assert(cf(h, k) == cf(m, k) + (if k == m1() { c } else { 0 }));
            lemma_cong_mod_eq(cf(h, k), cf(m, k), p);
            if k == m1() { } else { lemma_div_zero(p); }
        }
        lemma_ext(pmod(h, p), pmod(m, p));
        assert forall|s: int| 0 <= s < p && s != z && #[trigger] rt(h, s, p) implies rt(q, s, p) by {
            lemma_xr(z, s);
            lemma_peq_rt(h, m, s, p); lemma_rt_mul(xr(z), q, s, p);
            if divides(p, s - z) { if s > z { lemma_div_le(p, s - z); } else { lemma_div_neg(p, s - z); lemma_div_le(p, z - s); } }
        }
        lemma_cnt_drop(h, q, p, z, p);
        lemma_lagrange(q, d - 1, p);
        // m = (x - z) q = 0
        lemma_pmod_p0(p);
        lemma_pmod_mul_r(xr(z), q, p0(), p);
        lemma_mul_comm(xr(z), p0()); lemma_mul_p0(xr(z));
    }
}

/// top coefficient of a product
pub proof fn lemma_top(a: PM, b: PM, i: int, j: int) requires canon(a), canon(b), xo(a), xo(b), dlt(a, i + 1), dlt(b, j + 1) ensures cf(pmul(a, b), mx1(i + j)) == cf(a, mx1(i)) * cf(b, mx1(j)), dlt(pmul(a, b), i + j + 1) {
    broadcast use poly_cf;
    let (t, k) = (mx1(i + j), mx1(i));
    assert forall|m: MV| #[trigger] pmul(a, b).contains_key(m) implies m.x < i + j + 1 by { let (u, v) = lemma_keys_pmul(a, b, m); }
    if a.contains_key(k) {
        lemma_peel(a, k);
        let d = a.remove(k); let c = a[k];
        lemma_mul_padd_l(d, mono(k, c), b); lemma_mul_mono_l(k, c, b);
        assert(mdiv(t, k) == mx1(j));
        if cf(pmul(d, b), t) != 0 { let (u, v) = lemma_keys_pmul(d, b, t); assert(a.contains_key(u)); assert(u == k); }
    } else {
        if cf(pmul(a, b), t) != 0 { let (u, v) = lemma_keys_pmul(a, b, t); assert(u == k); }
        assert(0 * cf(b, mx1(j)) == 0);
    }
}
pub proof fn lemma_xpx(p: int) requires is_prime_spec(p), p >= 3 ensures canon(xpx(p)), xo(xpx(p)), p <= 0x7fff_ffff ==> xonly(xpx(p)), is_lead(xpx(p), mx1(p)), xpx(p)[mx1(p)] == 1, good(xpx(p), p) || p > 0x7fff_ffff, forall|r: int| 0 <= r < p ==> rt(xpx(p), r, p),
    forall|k: MV| #[trigger] cf(xpx(p), k) == (if k == mx1(p) { 1int } else if k == mx1(1) { -1 } else { 0 })
{
    broadcast use poly_cf;
    let a = xpx(p);
    assert forall|k: MV| #[trigger] cf(a, k) == (if k == mx1(p) { 1int } else if k == mx1(1) { -1 } else { 0 }) by { }
    assert(cf(a, mx1(p)) == 1);
    assert forall|k: MV| #[trigger] a.contains_key(k) implies k == mx1(p) || k == mx1(1) by { assert(cf(a, k) != 0); }
    lemma_lead_is(a, mx1(p));
    if divides(p, 1) { lemma_div_le(p, 1); }
    assert forall|r: int| 0 <= r < p implies rt(a, r, p) by {
        lemma_evx_mono(p, 1, r); lemma_evx_mono(1, 1, r); lemma_pow1(r);
        lemma_ev_psub(mono(mx1(p), 1), mono(mx1(1), 1), r, 0);
        lemma_fermat_nat(p, r);
    }
}
/// a monic divisor of x^p - x has as many roots as its degree
pub proof fn lemma_splits(g: PM, p: int) requires is_prime_spec(p), p >= 3, monic(g), pdivides(g, xpx(p), p) ensures cnt(g, p, p) == lead(g).x {
    broadcast use poly_cf;
    let a = xpx(p);
    lemma_xpx(p);
    let q = choose|q: PM| #[trigger] pdividesw(g, a, q, p);
    let q0 = pmod(q, p);
    lemma_pmod_idem(q, p); lemma_pmod_keys(q, p);
    assert(xo(q0));
    lemma_pmod_mul(q, q0, g, g, p);
    let m = pmul(q0, g);
    lemma_canon_pmul(q0, g); lemma_canon_pmul(q, g); lemma_xo(q0, g);
    assert(peq(a, m, p));
    let t = mx1(p);
    assert(cf(pmod(a, p), t) == 1) by { vstd::arithmetic::div_mod::lemma_small_mod(1, p as nat); }
    if q0 == p0() { lemma_mul_p0(g); lemma_pmod_p0(p); assert(false); }
    lemma_lead(q0); lemma_lead(g);
    let (e, d) = (lead(q0).x, lead(g).x);
    assert(lead(q0) == mx1(e)) by { assert(q0.contains_key(lead(q0))); }
    assert(lead(g) == mx1(d)) by { assert(g.contains_key(lead(g))); }
    assert(dlt(q0, e + 1)); assert(dlt(g, d + 1));
    lemma_top(q0, g, e, d);
    let c = q0[lead(q0)];
    assert(cf(m, mx1(e + d)) == c) by { assert(c * 1 == c); }
    vstd::arithmetic::div_mod::lemma_small_mod(c as nat, p as nat);
    assert(cf(pmod(m, p), mx1(e + d)) == c);
    assert(cf(pmod(a, p), mx1(e + d)) != 0);
    vstd::arithmetic::div_mod::lemma_small_mod(0, p as nat);
    assert(cf(a, mx1(e + d)) != 0);
    assert(e + d == p) by {
        if e + d < p { assert(!m.contains_key(t)); assert(cf(pmod(m, p), t) == 0); }
    }
    assert forall|r: int| 0 <= r < p implies #[trigger] rt(q0, r, p) || rt(g, r, p) by { lemma_peq_rt(a, m, r, p); lemma_rt_mul(q0, g, r, p); }
    lemma_cnt_or(q0, g, p, p);
    if cnt(q0, p, p) >= e + 1 { lemma_lagrange(q0, e + 1, p); lemma_pmod_idem(q, p); assert(false); }
    if cnt(g, p, p) >= d + 1 { lemma_lagrange(g, d + 1, p); assert(cf(pmod(g, p), mx1(d)) == 1) by { vstd::arithmetic::div_mod::lemma_small_mod(1, p as nat); } assert(false); }
}
/// the roots of gcd(x^p - x, f) are the roots of f
pub proof fn lemma_gcd_roots(g: PM, f: PM, p: int) requires is_prime_spec(p), p >= 3, canon(f), xo(f), is_gcd(g, xpx(p), f, p) ensures forall|r: int| 0 <= r < p ==> #[trigger] rt(g, r, p) == rt(f, r, p), cnt(g, p, p) == lead(g).x, cnt(f, p, p) == lead(g).x {
    let a = xpx(p);
    lemma_xpx(p);
    lemma_splits(g, p);
    let q = choose|q: PM| #[trigger] pdividesw(g, f, q, p);
    let (u, v) = choose|u: PM, v: PM| #[trigger] pcombw(g, a, f, u, v, p);
    lemma_canon_pmul(q, g); lemma_canon_pmul(u, a); lemma_canon_pmul(v, f); lemma_xo(u, a); lemma_xo(v, f);
    broadcast use poly_cf;
    assert forall|r: int| 0 <= r < p implies #[trigger] rt(g, r, p) == rt(f, r, p) by {
        lemma_peq_rt(f, pmul(q, g), r, p); lemma_rt_mul(q, g, r, p);
        lemma_peq_rt(g, padd(pmul(u, a), pmul(v, f)), r, p);
        lemma_rt_mul(u, a, r, p); lemma_rt_mul(v, f, r, p);
        lemma_ev_padd(pmul(u, a), pmul(v, f), r, 0);
        if rt(f, r, p) { lemma_div_add(p, evx(pmul(u, a), r), evx(pmul(v, f), r)); }
    }
    lemma_cnt_same(g, f, p, p);
}
// ---- the modular polynomial specialised at y = j ----
/// r is a root modulo p of the modular polynomial at y = j
pub open spec fn jrt(mp: PM, j: int, r: int, p: int) -> bool { divides(p, ev(mp, r, j)) }
pub open spec fn special(mp: PM, j: int, p: int) -> PM { pmod(psum(pmod(mp, p), eyf(j)), p) }
pub proof fn lemma_special(mp: PM, l: int, j: int, p: int) requires is_prime_spec(p), mpok(l), mpshape(mp, l), canon(mp)
    ensures ynonneg(pmod(mp, p)), canon(special(mp, j, p)), xo(special(mp, j, p)), good(special(mp, j, p), p), forall|r: int| #[trigger] rt(special(mp, j, p), r, p) == jrt(mp, j, r, p)
{
    broadcast use poly_cf;
    let m = pmod(mp, p); let s = psum(m, eyf(j)); let f = special(mp, j, p);
    lemma_pmod_keys(mp, p); lemma_psum_canon(m, eyf(j)); lemma_pmod_keys(s, p);
    assert forall|k: MV| #[trigger] s.contains_key(k) implies k == mx1(k.x) && 0 <= k.x <= l + 1 by {
        lemma_keys_psum(m, eyf(j), k);
        let i = choose|i: MV| #[trigger] m.contains_key(i) && eyf(j)(i, m[i]).contains_key(k);
        assert(mp.contains_key(i)); assert(k == yz(i));
    }
    // the coefficient of x^(l+1)
    let t = mx1(l + 1);
    lemma_cf_psum(m, eyf(j), t);
    let h = |k: MV, c: int| cf(eyf(j)(k, c), t);
    assert(cf(m, t) == 1) by { vstd::arithmetic::div_mod::lemma_small_mod(1, p as nat); assert(t == mxy(l + 1, 0)); }
    assert(m.contains_key(t));
    lemma_isum_remove(m, h, t);
    let d = m.remove(t);
    assert(h(t, 1) == 1) by { assert(yz(t) == t); lemma_pow0(j); }
    assert(isum(d, h) == 0) by {
        assert forall|k: MV| #[trigger] d.contains_key(k) implies h(k, d[k]) == 0 by { assert(mp.contains_key(k)); }
        lemma_isum_zero(d, h);
    }
    assert(cf(s, t) == 1);
    vstd::arithmetic::div_mod::lemma_small_mod(1, p as nat);
    assert(cf(f, t) == 1);
    assert forall|k: MV| #[trigger] f.contains_key(k) implies k == t || mlt(k, t) by { assert(s.contains_key(k)); }
    lemma_lead_is(f, t);
    if divides(p, 1) { lemma_div_le(p, 1); }
    assert(xo(f));
    assert forall|r: int| #[trigger] rt(f, r, p) == jrt(mp, j, r, p) by {
        lemma_pmod_idem(s, p);
        lemma_peq_rt(f, s, r, p);
        lemma_pevy_value(m, j, r, 0);
        lemma_ev_pmod(mp, p, r, j);
        let (u, v) = (ev(m, r, j), ev(mp, r, j));
        if divides(p, u) { lemma_div_add(p, u, u - v); }
        if divides(p, v) { lemma_div_add(p, v, u - v); }
    }
}
/// a polynomial in x evaluated at r is the constant of its value
pub proof fn lemma_eval_const(g: PM, r: int, p: int) requires canon(g), xo(g), p > 0 ensures xnonneg(g), psum(g, exf(r)) == mono(m1(), evx(g, r)), (pmod(psum(g, exf(r)), p) == p0()) == rt(g, r, p) {
    broadcast use poly_cf;
    let s = psum(g, exf(r)); let c = cf(s, m1());
    lemma_psum_canon(g, exf(r));
    assert forall|k: MV| #[trigger] s.contains_key(k) implies k == m1() by {
        lemma_keys_psum(g, exf(r), k);
        let i = choose|i: MV| #[trigger] g.contains_key(i) && exf(r)(i, g[i]).contains_key(k);
        assert(k == xz(i));
    }
    lemma_ext(s, mono(m1(), c));
    lemma_pevx_value(g, r, 0, 0);
    lemma_evx_mono(0, c, 0); lemma_pow0(0); assert(mx1(0) == m1()); assert(c * 1 == c);
    assert(ev(g, r, 0) == c);
    lemma_div_mod(p, c);
    let n = pmod(s, p);
    assert(cf(n, m1()) == c % p);
    lemma_pmod_keys(s, p);
    if c % p == 0 { assert forall|k: MV| !n.contains_key(k) by { if n.contains_key(k) { assert(s.contains_key(k)); assert(cf(n, k) != 0); } } assert(n =~= p0()); }
}
/// what sea returns: gcd, degree, Elkies or not, j-invariants found
pub open spec fn sea_ok(g: PM, degree: int, elkies: bool, js: Seq<int>, mp: PM, j: int, p: int) -> bool {
    &&& is_gcd(g, xpx(p), special(mp, j, p), p)
    &&& forall|r: int| 0 <= r < p ==> #[trigger] rt(g, r, p) == jrt(mp, j, r, p)
    &&& degree == cnt(g, p, p)
    &&& elkies == (exists|r: int| 0 <= r < p && #[trigger] jrt(mp, j, r, p))
    &&& forall|i: int| 0 <= i < js.len() ==> 0 <= #[trigger] js[i] < p && jrt(mp, j, js[i], p)
    &&& forall|i: int, k: int| 0 <= i < k < js.len() ==> js[i] < js[k]
    &&& js.len() == (if degree > 2 { 2 } else { degree })
    &&& forall|r: int| 0 <= r < p && #[trigger] jrt(mp, j, r, p) ==> js.contains(r) || (js.len() == 2 && r > js[1])
}
/// the roots below m found so far
pub open spec fn found(js: Seq<int>, g: PM, p: int, m: int) -> bool {
    &&& js.len() == cnt(g, p, m)
    &&& forall|i: int| 0 <= i < js.len() ==> 0 <= #[trigger] js[i] < m && rt(g, js[i], p)
    &&& forall|i: int, k: int| 0 <= i < k < js.len() ==> js[i] < js[k]
    &&& forall|r: int| 0 <= r < m && #[trigger] rt(g, r, p) ==> js.contains(r)
}
pub proof fn lemma_sea_done(js: Seq<int>, g: PM, mp: PM, l: int, j: int, p: int, m: int)
    requires is_prime_spec(p), p >= 3, mpok(l), mpshape(mp, l), canon(mp), is_gcd(g, xpx(p), special(mp, j, p), p), 0 <= m <= p, found(js, g, p, m), js.len() <= 2, js.len() == 2 || js.len() == cnt(g, p, p)
    ensures sea_ok(g, cnt(g, p, p), cnt(g, p, p) > 0, js, mp, j, p)
{
    lemma_special(mp, l, j, p);
    lemma_gcd_roots(g, special(mp, j, p), p);
    lemma_cnt_mono(g, p, m, p);
    let n = cnt(g, p, p);
    assert forall|r: int| 0 <= r < p implies #[trigger] rt(g, r, p) == jrt(mp, j, r, p) by { assert(rt(special(mp, j, p), r, p) == jrt(mp, j, r, p)); }
    if n > 0 { let r = lemma_cnt_pos(g, p, p); assert(jrt(mp, j, r, p)); }
    assert forall|r: int| 0 <= r < p && #[trigger] jrt(mp, j, r, p) implies n > 0 && (js.contains(r) || (js.len() == 2 && r > js[1])) by {
        assert(rt(g, r, p));
        lemma_cnt_has(g, p, p, r);
        if r >= m && js.len() != 2 { lemma_cnt_none(g, p, m, p, r); }
    }
}
pub proof fn lemma_found_step(js: Seq<int>, g: PM, p: int, m: int) requires found(js, g, p, m), m >= 0 ensures rt(g, m, p) ==> found(js.push(m), g, p, m + 1), !rt(g, m, p) ==> found(js, g, p, m + 1) {
    let t = js.push(m);
    if rt(g, m, p) {
        assert forall|r: int| 0 <= r < m + 1 && #[trigger] rt(g, r, p) implies t.contains(r) by {
            if r == m { assert(t[js.len() as int] == r); } else { let i = choose|i: int| 0 <= i < js.len() && js[i] == r; assert(t[i] == r); }
        }
    }
}
/// everything sea needs about one gcd
pub proof fn lemma_sea_gcd(g: PM, mp: PM, l: int, j: int, p: int) requires is_prime_spec(p), p >= 3, mpok(l), mpshape(mp, l), canon(mp), is_gcd(g, xpx(p), special(mp, j, p), p)
    ensures canon(g), xo(g), lead(g).x == cnt(g, p, p), is_lead(g, lead(g)), g.contains_key(lead(g))
{
    lemma_special(mp, l, j, p); lemma_gcd_roots(g, special(mp, j, p), p); lemma_lead(g);
}
