// Divisor sums and truncated power series in q.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
/// sum of d^k over the divisors d <= m of n
pub open spec fn sigto(n: int, k: int, m: int) -> int decreases m { if m <= 0 { 0 } else { sigto(n, k, m - 1) + (if n % m == 0 { pow(m, k) } else { 0 }) } }
pub open spec fn sigma(n: int, k: int) -> int { sigto(n, k, n) }
pub open spec fn qm(n: int) -> MV { mk(0, 0, n) }
/// 1 + 240 sigma_3(1) q + ... + 240 sigma_3(n) q^n
pub open spec fn e4s(n: int) -> PM decreases n { if n <= 0 { p1() } else { padd(e4s(n - 1), mono(qm(n), 240 * sigma(n, 3))) } }
pub open spec fn dfac(n: int) -> PM { psub(p1(), mono(qm(n), 1)) }
/// (1-q)^24 (1-q^2)^24 .. (1-q^n)^24
pub open spec fn dprod(n: int) -> PM decreases n { if n <= 0 { p1() } else { pmul(dprod(n - 1), ppow(dfac(n), 24)) } }
/// 1 + a + .. + a^n
pub open spec fn geo(a: PM, n: int) -> PM decreases n { if n <= 0 { p1() } else { padd(geo(a, n - 1), ppow(a, n)) } }
/// power series in q with non-negative exponents
pub open spec fn qs(m: PM) -> bool { canon(m) && forall|k: MV| #[trigger] m.contains_key(k) ==> k == qm(k.q) && k.q >= 0 }
/// all exponents of q at least n
pub open spec fn qge(m: PM, n: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.q >= n }
pub open spec fn qok(n: int) -> bool { 0 <= n <= 500_000_000 }
pub open spec fn agree(a: PM, b: PM, n: int) -> bool { ptrunc(a, n) == ptrunc(b, n) }

pub proof fn lemma_qs_bnd(m: PM, n: int) requires qs(m), qle(m, n) ensures qbnd(m, n), qonly(m), qpos(m) {}
pub proof fn lemma_qs_1() ensures qs(p1()), cf(p1(), m1()) == 1 { assert(m1() == qm(0)); }
pub proof fn lemma_qs_padd(a: PM, b: PM) requires qs(a), qs(b) ensures qs(padd(a, b)), qs(psub(a, b)) {
    broadcast use poly_cf;
    assert forall|k: MV| #[trigger] padd(a, b).contains_key(k) implies k == qm(k.q) && k.q >= 0 by { if cf(a, k) == 0 && cf(b, k) == 0 { assert(cf(padd(a, b), k) == 0); } }
    assert forall|k: MV| #[trigger] psub(a, b).contains_key(k) implies k == qm(k.q) && k.q >= 0 by { if cf(a, k) == 0 && cf(b, k) == 0 { assert(cf(psub(a, b), k) == 0); } }
}
pub proof fn lemma_qs_trunc(a: PM, n: int) requires qs(a) ensures qs(ptrunc(a, n)), qle(ptrunc(a, n), n), qbnd(ptrunc(a, n), n), n >= 0 ==> cf(ptrunc(a, n), m1()) == cf(a, m1()) { broadcast use lemma_canon_ptrunc, lemma_cf_ptrunc; }
pub proof fn lemma_qs_mul(a: PM, b: PM) requires qs(a), qs(b) ensures qs(pmul(a, b)), cf(pmul(a, b), m1()) == cf(a, m1()) * cf(b, m1()) {
    lemma_canon_pmul(a, b);
    assert forall|i: MV| #[trigger] pmul(a, b).contains_key(i) implies i == qm(i.q) && i.q >= 0 by { let (j, k) = lemma_keys_pmul(a, b, i); }
    lemma_const_mul(a, b);
}
/// constant coefficient of a product
pub proof fn lemma_const_mul(a: PM, b: PM) requires qs(a), qs(b) ensures cf(pmul(a, b), m1()) == cf(a, m1()) * cf(b, m1()) {
    let f = |k: MV, c: int| c * cf(b, mdiv(m1(), k));
    lemma_convolution(a, b, m1());
    if a.contains_key(m1()) {
        lemma_isum_remove(a, f, m1());
        assert(mdiv(m1(), m1()) == m1());
    }
    let d = a.remove(m1());
    assert forall|k: MV| #[trigger] d.contains_key(k) implies f(k, d[k]) == 0 by { assert(a.contains_key(k)); assert(mdiv(m1(), k).q < 0); assert(!b.contains_key(mdiv(m1(), k))); assert(d[k] * 0 == 0); }
    lemma_isum_zero(d, f);
    if !a.contains_key(m1()) { assert(d =~= a); assert(0 * cf(b, m1()) == 0); }
}
pub proof fn lemma_isum_zero(m: PM, f: spec_fn(MV, int) -> int) requires forall|k: MV| #[trigger] m.contains_key(k) ==> f(k, m[k]) == 0 ensures isum(m, f) == 0 decreases m.len() {
    if m.len() != 0 {
        lemma_len0(m);
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        assert forall|j: MV| #[trigger] d.contains_key(j) implies f(j, d[j]) == 0 by { assert(m.contains_key(j)); }
        lemma_isum_zero(d, f);
    }
}
pub proof fn lemma_qs_pow(a: PM, n: int) requires qs(a), n >= 0 ensures qs(ppow(a, n)), cf(a, m1()) == 1 ==> cf(ppow(a, n), m1()) == 1 decreases n {
    if n > 0 { lemma_qs_pow(a, n - 1); lemma_qs_mul(a, ppow(a, n - 1)); } else { lemma_qs_1(); }
}
/// the order of a power grows
pub proof fn lemma_qge_pow(a: PM, n: int) requires qge(a, 1), n >= 0 ensures qge(ppow(a, n), n) decreases n {
    if n > 0 {
        lemma_qge_pow(a, n - 1);
        assert forall|i: MV| #[trigger] ppow(a, n).contains_key(i) implies i.q >= n by { let (j, k) = lemma_keys_pmul(a, ppow(a, n - 1), i); }
    }
}
pub proof fn lemma_trunc_mul2(a: PM, b: PM, n: int) requires qs(a), qs(b) ensures agree(pmul(ptrunc(a, n), ptrunc(b, n)), pmul(a, b), n), agree(pmul(ptrunc(a, n), b), pmul(a, b), n), agree(pmul(a, ptrunc(b, n)), pmul(a, b), n) {
    lemma_qs_trunc(a, n); lemma_qs_trunc(b, n);
    lemma_trunc_mul_r(ptrunc(a, n), b, n);
    lemma_trunc_mul(a, b, n);
    lemma_trunc_mul_r(a, b, n);
}
pub proof fn lemma_dfac(n: int) requires n >= 1 ensures qs(dfac(n)), cf(dfac(n), m1()) == 1, qbnd(dfac(n), n), canon(dfac(n)) {
    broadcast use poly_cf;
    lemma_qs_1();
    lemma_qs_padd(p1(), mono(qm(n), 1));
    assert forall|k: MV| #[trigger] dfac(n).contains_key(k) implies k.q <= n by { if k != m1() && k != qm(n) { assert(cf(dfac(n), k) == 0); } }
}
pub proof fn lemma_dprod(n: int) ensures qs(dprod(n)), cf(dprod(n), m1()) == 1 decreases n {
    lemma_qs_1();
    if n > 0 { lemma_dprod(n - 1); lemma_dfac(n); lemma_qs_pow(dfac(n), 24); lemma_qs_mul(dprod(n - 1), ppow(dfac(n), 24)); }
}
/// C22: the coefficients of E4 up to q^n
pub proof fn lemma_e4(n: int) ensures qs(e4s(n)), n >= 0 ==> qbnd(e4s(n), n), n >= 0 ==> qle(e4s(n), n), forall|k: MV| #[trigger] cf(e4s(n), k) == (if k == m1() { 1 } else if k == qm(k.q) && 1 <= k.q <= n { 240 * sigma(k.q, 3) } else { 0 }) decreases n {
    broadcast use poly_cf;
    lemma_qs_1();
    if n > 0 {
        lemma_e4(n - 1);
        lemma_qs_padd(e4s(n - 1), mono(qm(n), 240 * sigma(n, 3)));
        assert forall|k: MV| #[trigger] e4s(n).contains_key(k) implies k.q <= n by { assert(cf(e4s(n), k) != 0); assert(cf(e4s(n - 1), k) != 0 || k == qm(n)); }
    }
}
/// one factor of the truncated product
pub proof fn lemma_delta_step(pol: PM, u: PM, n: int, order: int) requires n >= 1, qok(order), pol == ptrunc(dprod(n - 1), order), u == ptrunc(ppow(dfac(n), 24), order)
    ensures mulfit(pol, u), qonly(pmul(pol, u)), ptrunc(pmul(pol, u), order) == ptrunc(dprod(n), order)
{
    lemma_dprod(n - 1); lemma_dfac(n); lemma_qs_pow(dfac(n), 24);
    lemma_trunc_mul2(dprod(n - 1), ppow(dfac(n), 24), order);
    lemma_qs_trunc(dprod(n - 1), order); lemma_qs_trunc(ppow(dfac(n), 24), order);
    lemma_qbnd_mul(pol, u, order, order);
}
/// the complement of a series with constant coefficient 1
pub proof fn lemma_compl(d: PM, order: int) requires qs(d), cf(d, m1()) == 1, qle(d, order), order >= 0 ensures qs(psub(p1(), d)), qge(psub(p1(), d), 1), qbnd(psub(p1(), d), order), psub(p1(), psub(p1(), d)) == d {
    broadcast use poly_cf;
    let a = psub(p1(), d);
    lemma_qs_1(); lemma_qs_padd(p1(), d);
    assert forall|k: MV| #[trigger] a.contains_key(k) implies 1 <= k.q <= order by { assert(cf(a, k) != 0); assert(k != m1()); assert(d.contains_key(k)); if k.q == 0 { assert(k == m1()); } }
    lemma_ext(psub(p1(), a), d);
}
pub proof fn lemma_geo(a: PM, n: int) requires qs(a), n >= 0 ensures qs(geo(a, n)), pmul(geo(a, n), psub(p1(), a)) == psub(p1(), ppow(a, n + 1)) decreases n {
    broadcast use poly_cf;
    lemma_qs_1();
    lemma_qs_padd(p1(), a);
    if n == 0 { lemma_mul_1(psub(p1(), a)); lemma_ppow_1(a); }
    else {
        let (g, w) = (geo(a, n - 1), ppow(a, n));
        lemma_geo(a, n - 1);
        lemma_qs_pow(a, n); lemma_qs_pow(a, n + 1);
        lemma_qs_padd(g, w);
        lemma_mul_padd_l(g, w, psub(p1(), a));
        lemma_mul_psub_r(w, p1(), a);
        lemma_mul_1(w);
        lemma_mul_comm(w, a);
        assert(ppow(a, n + 1) == pmul(a, w));
        lemma_ext(padd(psub(p1(), w), psub(w, ppow(a, n + 1))), psub(p1(), ppow(a, n + 1)));
    }
}
/// the truncated geometric series of 1 - d inverts d
pub proof fn lemma_geo_inverse(d: PM, v: PM, order: int) requires qs(d), cf(d, m1()) == 1, qle(d, order), qok(order), v == ptrunc(geo(psub(p1(), d), order), order)
    ensures ptrunc(pmul(v, d), order) == p1(), qs(v), qbnd(v, order), qle(v, order)
{
    broadcast use poly_cf, lemma_cf_ptrunc, lemma_canon_ptrunc;
    let a = psub(p1(), d);
    lemma_compl(d, order);
    lemma_geo(a, order);
    lemma_qs_trunc(geo(a, order), order);
    lemma_trunc_mul2(geo(a, order), d, order);
    lemma_qge_pow(a, order + 1);
    lemma_qs_pow(a, order + 1);
    let w = ppow(a, order + 1);
    lemma_qs_padd(p1(), w); lemma_qs_1();
    assert forall|k: MV| cf(ptrunc(psub(p1(), w), order), k) == #[trigger] cf(p1(), k) by { if w.contains_key(k) { assert(k.q >= order + 1); } }
    lemma_ext(ptrunc(psub(p1(), w), order), p1());
}
pub proof fn lemma_geo_step(pol: PM, t: PM, a: PM, n: int, order: int) requires qs(a), n >= 1, pol == ptrunc(geo(a, n - 1), order), t == ptrunc(ppow(a, n), order) ensures padd(pol, t) == ptrunc(geo(a, n), order) {
    lemma_trunc_padd(geo(a, n - 1), ppow(a, n), order);
}
/// D times the truncated quotient E/D agrees with E
pub proof fn lemma_quot(di: PM, d: PM, e: PM, te: PM, j: PM, order: int) requires qs(di), qs(d), qs(e), order >= 0, ptrunc(pmul(di, d), order) == p1(), te == ptrunc(e, order), j == ptrunc(pmul(di, te), order)
    ensures agree(pmul(j, d), e, order), qs(j), qle(j, order), qbnd(j, order)
{
    lemma_qs_trunc(e, order);
    lemma_qs_mul(di, te); lemma_qs_mul(di, d); lemma_qs_mul(te, d);
    lemma_qs_trunc(pmul(di, te), order);
    lemma_trunc_mul2(pmul(di, te), d, order);
    lemma_mul_assoc(di, te, d); lemma_mul_comm(te, d); lemma_mul_assoc(di, d, te);
    lemma_trunc_mul2(pmul(di, d), te, order);
    lemma_mul_1(te);
    lemma_trunc_id(te, order);
}
// ---- the j-invariant series ----
/// j q, to order n: times delta/q it is E4^3 up to q^n
pub open spec fn is_j1(v: PM, n: int) -> bool { agree(pmul(v, dprod(n)), ppow(e4s(n), 3), n) && qs(v) && qbnd(v, n) }
pub proof fn lemma_inverse_exists(n: int) -> (v: PM) requires qok(n) ensures qs(v), qbnd(v, n), qle(v, n), ptrunc(pmul(v, dprod(n)), n) == p1() {
    broadcast use poly_cf, lemma_canon_ptrunc;
    let d = ptrunc(dprod(n), n);
    lemma_dprod(n); lemma_qs_trunc(dprod(n), n);
    lemma_compl(d, n); lemma_geo(psub(p1(), d), n);
    let v = ptrunc(geo(psub(p1(), d), n), n);
    lemma_geo_inverse(d, v, n);
    lemma_trunc_mul2(v, dprod(n), n);
    lemma_qs_trunc(geo(psub(p1(), d), n), n);
    lemma_trunc_id(v, n);
    v
}
/// the series is determined by its defining equation
pub proof fn lemma_j1_unique(u: PM, v: PM, n: int) requires qok(n), is_j1(u, n), is_j1(v, n) ensures u == v {
    broadcast use lemma_canon_ptrunc;
    let w = lemma_inverse_exists(n);
    lemma_dprod(n); lemma_e4(n); lemma_qs_pow(e4s(n), 3);
    assert forall|t: PM| #[trigger] is_j1(t, n) implies t == ptrunc(pmul(ppow(e4s(n), 3), w), n) by {
        let d = dprod(n);
        lemma_qs_mul(t, d); lemma_qs_mul(w, d);
        lemma_trunc_mul2(pmul(t, d), w, n);
        lemma_trunc_mul2(ppow(e4s(n), 3), w, n);
        lemma_mul_assoc(t, d, w); lemma_mul_comm(d, w);
        lemma_trunc_mul2(t, pmul(w, d), n);
        lemma_mul_1(t); lemma_trunc_id(t, n);
    }
}
pub open spec fn jser1(n: int) -> PM { choose|v: PM| is_j1(v, n) }
/// j up to q^n
pub open spec fn jser(n: int) -> PM { pscale(jser1(n + 1), qm(-1), 1) }
/// Laurent series in q with exponents between lo and hi
pub open spec fn qlb(m: PM, lo: int, hi: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k == qm(k.q) && lo <= k.q <= hi }
pub proof fn lemma_jser(v: PM, n: int) requires qok(n + 1), is_j1(v, n + 1) ensures jser1(n + 1) == v, jser(n) == pscale(v, qm(-1), 1), canon(jser(n)), qlb(jser(n), -1, n), pscale(jser(n), qm(1), 1) == v, mulfit(v, mono(qm(-1), 1)), pmul(v, mono(qm(-1), 1)) == jser(n) {
    broadcast use poly_cf;
    lemma_j1_unique(v, jser1(n + 1), n + 1);
    lemma_mul_mono_r(v, qm(-1), 1);
    lemma_scale_scale(v, qm(-1), 1, qm(1), 1);
    lemma_scale_1(v);
    assert(mmul(qm(-1), qm(1)) == m1());
    assert forall|k: MV| #[trigger] jser(n).contains_key(k) implies k == qm(k.q) && -1 <= k.q <= n by { assert(cf(jser(n), k) != 0); assert(v.contains_key(mdiv(k, qm(-1)))); }
}
pub proof fn lemma_qlb_pow(a: PM, b: int, n: int) requires b >= 0, n >= 0, qlb(a, -b, b) ensures qlb(ppow(a, n), -(b * n), b * n) decreases n {
    if n > 0 {
        lemma_qlb_pow(a, b, n - 1);
        assert(b * (n - 1) + b == b * n) by (nonlinear_arith);
        assert forall|i: MV| #[trigger] ppow(a, n).contains_key(i) implies i == qm(i.q) && -(b * n) <= i.q <= b * n by { let (j, k) = lemma_keys_pmul(a, ppow(a, n - 1), i); }
    }
}
