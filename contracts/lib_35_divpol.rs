// Division polynomials: weights, y-forms, congruences modulo powers of 2, values.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
pub open spec fn yk(i: int) -> MV { mk(0, i, 0) }
pub proof fn lemma_keys_psub(a: PM, b: PM) ensures forall|k: MV| #[trigger] psub(a, b).contains_key(k) ==> a.contains_key(k) || b.contains_key(k) { lemma_keys_padd(a, pneg(b)); reveal(pneg); }
// ---- weight 2 deg_x + 3 deg_y ----
pub open spec fn pw(m: PM, w: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k == mk(k.x, k.y, 0) && k.x >= 0 && k.y >= 0 && 2 * k.x + 3 * k.y <= w }
pub proof fn lemma_pw_add(a: PM, b: PM, w: int) requires pw(a, w), pw(b, w) ensures pw(padd(a, b), w), pw(psub(a, b), w) {
    broadcast use poly_cf;
    assert forall|k: MV| #[trigger] padd(a, b).contains_key(k) implies k == mk(k.x, k.y, 0) && k.x >= 0 && k.y >= 0 && 2 * k.x + 3 * k.y <= w by { lemma_keys_padd(a, b); }
    assert forall|k: MV| #[trigger] psub(a, b).contains_key(k) implies k == mk(k.x, k.y, 0) && k.x >= 0 && k.y >= 0 && 2 * k.x + 3 * k.y <= w by { lemma_keys_psub(a, b); }
}
pub proof fn lemma_pw_mul(a: PM, b: PM, v: int, w: int) requires pw(a, v), pw(b, w) ensures pw(pmul(a, b), v + w), v + w <= mx() ==> mulfit(a, b), nonneg(a), nonneg(b) {
    assert forall|i: MV| #[trigger] pmul(a, b).contains_key(i) implies i == mk(i.x, i.y, 0) && i.x >= 0 && i.y >= 0 && 2 * i.x + 3 * i.y <= v + w by { let (j, k) = lemma_keys_pmul(a, b, i); }
}
pub proof fn lemma_pw_pow(a: PM, w: int, n: int) requires pw(a, w), n >= 0 ensures pw(ppow(a, n), w * n) decreases n {
    if n == 0 { assert(w * 0 == 0); }
    if n > 0 {
        lemma_pw_pow(a, w, n - 1);
        lemma_pw_mul(a, ppow(a, n - 1), w, w * (n - 1));
        assert(w + w * (n - 1) == w * n) by (nonlinear_arith);
    }
}
pub proof fn lemma_pw_fit(a: PM, w: int, n: int) requires pw(a, w), 1 <= n <= 3, w <= 715827882 ensures powfit(a, n) {
    assert(w * 3 <= mx());
    assert(715827882 <= mx() / n) by { if n == 1 { assert(mx() / 1 == mx()); } else if n == 2 { assert(mx() / 2 == 1073741823int); } else { assert(mx() / 3 == 715827882int); } }
}
pub proof fn lemma_pw_pred(m: PM, a: int, b: int, w: int) requires pw(m, w) ensures pw(pred(m, a, b), w), w <= mx() ==> redfit(m), canon(pred(m, a, b)), nonneg(m) {
    lemma_psum_canon(m, redf(a, b));
    let r = pred(m, a, b);
    assert forall|i: MV| #[trigger] r.contains_key(i) implies i == mk(i.x, i.y, 0) && i.x >= 0 && i.y >= 0 && 2 * i.x + 3 * i.y <= w by {
        lemma_keys_psum(m, redf(a, b), i);
        let k = choose|k: MV| #[trigger] m.contains_key(k) && redf(a, b)(k, m[k]).contains_key(i);
        if k.y >= 2 {
            let h = k.y / 2;
            lemma_keys_pscale(ppow(cubic(a, b), h), ylow(k), m[k]);
            lemma_pw_cubic(a, b); lemma_pw_pow(cubic(a, b), 6, h);
            assert(ppow(cubic(a, b), h).contains_key(mdiv(i, ylow(k))));
        }
    }
    assert forall|k: MV| #[trigger] m.contains_key(k) && w <= mx() && k.y >= 2 implies abs1(k.x) + 3 * (k.y / 2) <= mx() by { }
}
pub proof fn lemma_pw_cubic(a: int, b: int) ensures pw(cubic(a, b), 6) {
    broadcast use poly_cf;
    let c = cubic(a, b);
    assert forall|k: MV| #[trigger] c.contains_key(k) implies k == mk(k.x, k.y, 0) && k.x >= 0 && k.y >= 0 && 2 * k.x + 3 * k.y <= 6 by { assert(cf(c, k) != 0); }
}
// ---- forms in y ----
pub open spec fn yeq(m: PM, e: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y == e }
pub open spec fn yev(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y % 2 == 0 && k.y >= 0 }
pub proof fn lemma_yeq_add(a: PM, b: PM, e: int) requires yeq(a, e), yeq(b, e) ensures yeq(psub(a, b), e) {
    assert forall|k: MV| #[trigger] psub(a, b).contains_key(k) implies k.y == e by { lemma_keys_psub(a, b); }
}
pub proof fn lemma_yeq_mul(a: PM, b: PM, d: int, e: int) requires yeq(a, d), yeq(b, e) ensures yeq(pmul(a, b), d + e) {
    assert forall|i: MV| #[trigger] pmul(a, b).contains_key(i) implies i.y == d + e by { let (j, k) = lemma_keys_pmul(a, b, i); }
}
pub proof fn lemma_yeq_pow(a: PM, d: int, n: int) requires yeq(a, d), n >= 0 ensures yeq(ppow(a, n), d * n) decreases n {
    if n == 0 { assert(d * 0 == 0); }
    if n > 0 { lemma_yeq_pow(a, d, n - 1); lemma_yeq_mul(a, ppow(a, n - 1), d, d * (n - 1)); assert(d + d * (n - 1) == d * n) by (nonlinear_arith); }
}
pub proof fn lemma_yeq_pred(m: PM, a: int, b: int) requires yev(m) ensures yeq(pred(m, a, b), 0) {
    let r = pred(m, a, b);
    assert forall|i: MV| #[trigger] r.contains_key(i) implies i.y == 0 by {
        lemma_keys_psum(m, redf(a, b), i);
        let k = choose|k: MV| #[trigger] m.contains_key(k) && redf(a, b)(k, m[k]).contains_key(i);
        if k.y >= 2 {
            lemma_keys_pscale(ppow(cubic(a, b), k.y / 2), ylow(k), m[k]);
            lemma_cubic(a, b); lemma_y0_pow(cubic(a, b), k.y / 2); assert(ylow(k).y == 0);
            assert(ppow(cubic(a, b), k.y / 2).contains_key(mdiv(i, ylow(k))));
        }
    }
}
// ---- all coefficients divisible ----
pub open spec fn dv(m: PM, c: int) -> bool { forall|k: MV| #[trigger] cf(m, k) % c == 0 }
pub open spec fn cg(a: PM, b: PM, c: int) -> bool { dv(psub(a, b), c) }
pub proof fn lemma_modmul(a: int, b: int, s: int, t: int) requires s > 0, t > 0, a % s == 0, b % t == 0 ensures (a * b) % (s * t) == 0, s * t > 0 {
    let (u, v) = (a / s, b / t);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, t);
    assert(a * b == (u * v) * (s * t)) by (nonlinear_arith) requires a == s * u, b == t * v;
    assert(s * t > 0) by (nonlinear_arith) requires s > 0, t > 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(u * v, s * t);
}
pub proof fn lemma_modadd(a: int, b: int, c: int) requires c > 0, a % c == 0, b % c == 0 ensures (a + b) % c == 0, (a - b) % c == 0 {
    let (u, v) = (a / c, b / c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, c);
    assert(a + b == (u + v) * c) by (nonlinear_arith) requires a == c * u, b == c * v;
    assert(a - b == (u - v) * c) by (nonlinear_arith) requires a == c * u, b == c * v;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(u + v, c); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(u - v, c);
}
pub proof fn lemma_moddown(a: int, c: int, d: int) requires d > 0, c % d == 0, c > 0, a % c == 0 ensures a % d == 0 {
    let (u, v) = (a / c, c / d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, d);
    assert(a == (v * u) * d) by (nonlinear_arith) requires a == c * u, c == d * v;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(v * u, d);
}
pub proof fn lemma_dv_down(m: PM, c: int, d: int) requires d > 0, c > 0, c % d == 0, dv(m, c) ensures dv(m, d) {
    assert forall|k: MV| #[trigger] cf(m, k) % d == 0 by { lemma_moddown(cf(m, k), c, d); }
}
pub proof fn lemma_dv_1(m: PM) ensures dv(m, 1) {}
pub proof fn lemma_dv_add(a: PM, b: PM, c: int) requires c > 0, dv(a, c), dv(b, c) ensures dv(padd(a, b), c), dv(psub(a, b), c) {
    broadcast use poly_cf;
    assert forall|k: MV| #[trigger] cf(padd(a, b), k) % c == 0 by { lemma_modadd(cf(a, k), cf(b, k), c); }
    assert forall|k: MV| #[trigger] cf(psub(a, b), k) % c == 0 by { lemma_modadd(cf(a, k), cf(b, k), c); }
}
pub proof fn lemma_dv_scale(b: PM, k: MV, c: int, s: int, t: int) requires s > 0, t > 0, c % s == 0, dv(b, t) ensures dv(pscale(b, k, c), s * t) {
    broadcast use poly_cf;
    assert forall|j: MV| #[trigger] cf(pscale(b, k, c), j) % (s * t) == 0 by { lemma_modmul(c, cf(b, mdiv(j, k)), s, t); }
}
pub proof fn lemma_dv_psum(m: PM, f: spec_fn(MV, int) -> PM, c: int) requires c > 0, forall|k: MV| #[trigger] m.contains_key(k) ==> dv(f(k, m[k]), c) ensures dv(psum(m, f), c) decreases m.len() {
    broadcast use poly_cf;
    if m.len() == 0 { assert forall|k: MV| #[trigger] cf(psum(m, f), k) % c == 0 by { vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat); } }
    if m.len() != 0 {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        assert forall|i: MV| #[trigger] d.contains_key(i) implies dv(f(i, d[i]), c) by { assert(m.contains_key(i)); }
        lemma_dv_psum(d, f, c);
        lemma_dv_add(psum(d, f), f(k, m[k]), c);
    }
}
pub proof fn lemma_dv_mul(a: PM, b: PM, s: int, t: int) requires s > 0, t > 0, dv(a, s), dv(b, t) ensures dv(pmul(a, b), s * t) {
    assert(s * t > 0) by (nonlinear_arith) requires s > 0, t > 0;
    assert forall|k: MV| #[trigger] a.contains_key(k) implies dv(scl(b)(k, a[k]), s * t) by { assert(cf(a, k) % s == 0); lemma_dv_scale(b, k, a[k], s, t); }
    lemma_dv_psum(a, scl(b), s * t);
}
pub proof fn lemma_dv_pred(m: PM, a: int, b: int, c: int) requires c > 0, dv(m, c) ensures dv(pred(m, a, b), c) {
    broadcast use poly_cf;
    assert forall|k: MV| #[trigger] m.contains_key(k) implies dv(redf(a, b)(k, m[k]), c) by {
        assert(cf(m, k) % c == 0);
        if k.y >= 2 { lemma_dv_1(ppow(cubic(a, b), k.y / 2)); lemma_dv_scale(ppow(cubic(a, b), k.y / 2), ylow(k), m[k], c, 1); assert(c * 1 == c); }
        else { assert forall|i: MV| #[trigger] cf(mono(k, m[k]), i) % c == 0 by { vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat); } }
    }
    lemma_dv_psum(m, redf(a, b), c);
}
pub proof fn lemma_cg_refl(a: PM, c: int) requires canon(a), c > 0 ensures cg(a, a, c) { lemma_psub_self(a); assert forall|k: MV| #[trigger] cf(psub(a, a), k) % c == 0 by { vstd::arithmetic::div_mod::lemma_small_mod(0, c as nat); } }
/// products of congruent factors, to the precision their divisibility allows
pub proof fn lemma_cmul(a: PM, b: PM, c: PM, d: PM, s: int, t: int, u: int, v: int, n: int)
    requires canon(a), canon(b), canon(c), canon(d), s > 0, t > 0, u > 0, v > 0, n > 0, cg(a, b, s), dv(c, t), dv(b, u), cg(c, d, v), (s * t) % n == 0, (u * v) % n == 0 ensures cg(pmul(a, c), pmul(b, d), n)
{
    broadcast use poly_cf;
    lemma_dv_mul(psub(a, b), c, s, t); lemma_dv_mul(b, psub(c, d), u, v);
    assert(s * t > 0 && u * v > 0) by (nonlinear_arith) requires s > 0, t > 0, u > 0, v > 0;
    lemma_dv_down(pmul(psub(a, b), c), s * t, n); lemma_dv_down(pmul(b, psub(c, d)), u * v, n);
    lemma_mul_psub_l(a, b, c); lemma_mul_psub_r(b, c, d);
    lemma_canon_pmul(a, c); lemma_canon_pmul(b, c); lemma_canon_pmul(b, d);
    lemma_dv_add(psub(pmul(a, c), pmul(b, c)), psub(pmul(b, c), pmul(b, d)), n);
    lemma_ext(padd(psub(pmul(a, c), pmul(b, c)), psub(pmul(b, c), pmul(b, d))), psub(pmul(a, c), pmul(b, d)));
}
pub proof fn lemma_csub(a: PM, b: PM, c: PM, d: PM, n: int) requires n > 0, cg(a, b, n), cg(c, d, n) ensures cg(psub(a, c), psub(b, d), n) {
    broadcast use poly_cf;
    lemma_dv_add(psub(a, b), psub(c, d), n);
    assert forall|k: MV| #[trigger] cf(psub(psub(a, c), psub(b, d)), k) % n == 0 by { assert(cf(psub(psub(a, b), psub(c, d)), k) % n == 0); }
}
/// a polynomial congruent to a divisible one is divisible
pub proof fn lemma_dv_cg(a: PM, b: PM, c: int, d: int) requires c > 0, d > 0, c % d == 0, cg(a, b, c), dv(b, d) ensures dv(a, d) {
    broadcast use poly_cf;
    lemma_dv_down(psub(a, b), c, d);
    assert forall|k: MV| #[trigger] cf(a, k) % d == 0 by { assert(cf(psub(a, b), k) % d == 0); assert(cf(b, k) % d == 0); lemma_modadd(cf(psub(a, b), k), cf(b, k), d); }
}
/// the square of a congruence modulo 4 between even polynomials holds modulo 8
pub proof fn lemma_csq(a: PM, b: PM) requires canon(a), canon(b), cg(a, b, 4), dv(a, 2), dv(b, 2) ensures cg(pmul(a, a), pmul(b, b), 8) { lemma_cmul(a, b, a, b, 4, 2, 2, 4, 8); }
// ---- c y^i (x^2 + a)^e ----
pub open spec fn hh(a: int) -> PM { padd(mono(mk(2, 0, 0), 1), mono(m1(), a)) }
pub open spec fn hm(a: int, e: int, i: int, c: int) -> PM { pscale(ppow(hh(a), e), yk(i), c) }
pub proof fn lemma_hm_mul(a: int, e: int, i: int, c: int, f: int, j: int, d: int) requires e >= 0, f >= 0 ensures pmul(hm(a, e, i, c), hm(a, f, j, d)) == hm(a, e + f, i + j, c * d), canon(hm(a, e, i, c)) {
    broadcast use poly_cf;
    let (p, q) = (ppow(hh(a), e), ppow(hh(a), f));
    lemma_canon_ppow(hh(a), e); lemma_canon_ppow(hh(a), f);
    lemma_mul_scale(p, yk(i), c, hm(a, f, j, d));
    lemma_mul_comm(p, hm(a, f, j, d));
    lemma_mul_scale(q, yk(j), d, p);
    lemma_mul_comm(q, p);
    lemma_ppow_add(hh(a), e, f);
    lemma_scale_scale(pmul(p, q), yk(j), d, yk(i), c);
    assert(mmul(yk(j), yk(i)) == yk(i + j));
    assert(d * c == c * d) by (nonlinear_arith);
}
pub proof fn lemma_hm(a: int, e: int, i: int, c: int) ensures canon(hm(a, e, i, c)), forall|n: int| n > 0 && #[trigger] (c % n) == 0 ==> dv(hm(a, e, i, c), n), dv(hm(a, e, i, c), 1) {
    broadcast use poly_cf;
    assert forall|n: int| n > 0 && #[trigger] (c % n) == 0 implies dv(hm(a, e, i, c), n) by { lemma_dv_1(ppow(hh(a), e)); lemma_dv_scale(ppow(hh(a), e), yk(i), c, n, 1); assert(n * 1 == n); }
    lemma_dv_1(hm(a, e, i, c));
}
pub proof fn lemma_hm_sub(a: int, e: int, i: int, c: int, d: int) ensures psub(hm(a, e, i, c), hm(a, e, i, d)) == hm(a, e, i, c - d) {
    broadcast use poly_cf;
    let (u, v) = (psub(hm(a, e, i, c), hm(a, e, i, d)), hm(a, e, i, c - d));
    assert forall|k: MV| cf(u, k) == cf(v, k) by { let t = cf(ppow(hh(a), e), mdiv(k, yk(i))); assert(c * t - d * t == (c - d) * t) by (nonlinear_arith); }
    lemma_ext(u, v);
}
// ---- the division polynomials: initial values and recurrences in Z[x,y]/(y^2 - x^3 - ax - b) ----
pub open spec fn xk(i: int) -> MV { mk(i, 0, 0) }
pub open spec fn psi3(a: int, b: int) -> PM { padd(padd(padd(mono(xk(4), 3), mono(xk(2), 6 * a)), mono(xk(1), 12 * b)), mono(m1(), -(a * a))) }
pub open spec fn psi4g(a: int, b: int) -> PM { padd(padd(padd(padd(padd(mono(xk(6), 1), mono(xk(4), 5 * a)), mono(xk(3), 20 * b)), mono(xk(2), -5 * (a * a))), mono(xk(1), -4 * a * b)), mono(m1(), -8 * (b * b) - a * a * a)) }
/// e f^k - g h^k
pub open spec fn dif(e: PM, f: PM, g: PM, h: PM, k: int) -> PM { psub(pmul(e, ppow(f, k)), pmul(g, ppow(h, k))) }
pub open spec fn psip(a: int, b: int, n: int) -> PM decreases n {
    if n <= 0 { p0() } else if n == 1 { p1() } else if n == 2 { mono(yk(1), 2) } else if n == 3 { psi3(a, b) } else if n == 4 { pscale(psi4g(a, b), yk(1), 4) }
    else if n % 2 == 1 { let m = (n - 1) / 2; pred(dif(psip(a, b, m + 2), psip(a, b, m), psip(a, b, m - 1), psip(a, b, m + 1), 3), a, b) }
    else { let m = n / 2; pdivm(pmul(psip(a, b, m), dif(psip(a, b, m + 2), psip(a, b, m - 1), psip(a, b, m - 2), psip(a, b, m + 1), 2)), yk(1), 2) }
}
/// x psi_n^2 - psi_(n+1) psi_(n-1)
pub open spec fn phip(a: int, b: int, n: int) -> PM { pred(psub(pmul(mono(xk(1), 1), ppow(psip(a, b, n), 2)), pmul(psip(a, b, n + 1), psip(a, b, n - 1))), a, b) }
pub open spec fn omgn(a: int, b: int, n: int) -> PM { dif(psip(a, b, n + 2), psip(a, b, n - 1), psip(a, b, n - 2), psip(a, b, n + 1), 2) }
pub open spec fn is_psi(q: PM, a: int, b: int, n: int) -> bool {
    canon(q) && pw(q, n * n - 1)
    && (n % 2 == 1 ==> yeq(q, 0) && cg(q, hm(a, (n * n - 1) / 4, 0, 1), 2))
    && (n % 2 == 0 ==> yeq(q, 1) && cg(q, hm(a, (n * n - 4) / 4, 1, n), 4))
}
pub proof fn lemma_psi_even_coefs(q: PM, a: int, b: int, n: int) requires is_psi(q, a, b, n), n % 2 == 0 ensures dv(q, 2) {
    lemma_hm(a, (n * n - 4) / 4, 1, n);
    lemma_dv_cg(q, hm(a, (n * n - 4) / 4, 1, n), 4, 2);
}
pub proof fn lemma_psi_base(a: int, b: int) ensures is_psi(p0(), a, b, 0), is_psi(p1(), a, b, 1), is_psi(mono(yk(1), 2), a, b, 2), is_psi(psi3(a, b), a, b, 3), is_psi(pscale(psi4g(a, b), yk(1), 4), a, b, 4) {
    broadcast use poly_cf;
    assert((0 * 0 - 4) / 4int == -1int && (1 * 1 - 1) / 4int == 0 && (2 * 2 - 4) / 4int == 0 && (3 * 3 - 1) / 4int == 2 && (4 * 4 - 4) / 4int == 3) by (compute);
    // 0
    lemma_hm(a, -1, 1, 0);
    assert forall|k: MV| #[trigger] cf(psub(p0(), hm(a, -1, 1, 0)), k) % 4 == 0 by { assert(0 * cf(ppow(hh(a), -1), mdiv(k, yk(1))) == 0); }
    // 1
    assert(ppow(hh(a), 0) == p1());
    assert forall|k: MV| #[trigger] cf(psub(p1(), hm(a, 0, 0, 1)), k) % 2 == 0 by { assert(mdiv(k, yk(0)) == k); assert(1 * cf(p1(), k) == cf(p1(), k)); }
    // 2
    assert forall|k: MV| #[trigger] cf(psub(mono(yk(1), 2), hm(a, 0, 1, 2)), k) % 4 == 0 by { assert(mdiv(k, yk(1)) == m1() <==> k == yk(1)); }
    lemma_psi_base3(a, b); lemma_psi_base4(a, b);
}
pub proof fn lemma_hh2(a: int) ensures ppow(hh(a), 2) == padd(padd(mono(xk(4), 1), mono(xk(2), 2 * a)), mono(m1(), a * a)) {
    broadcast use poly_cf;
    reveal_with_fuel(ppow, 3);
    lemma_mul_1(hh(a));
    lemma_mul_padd_l(mono(mk(2, 0, 0), 1), mono(m1(), a), hh(a));
    lemma_mul_mono_l(mk(2, 0, 0), 1, hh(a)); lemma_mul_mono_l(m1(), a, hh(a));
    lemma_canon_pmul(hh(a), hh(a));
    let (u, v) = (pmul(hh(a), hh(a)), padd(padd(mono(xk(4), 1), mono(xk(2), 2 * a)), mono(m1(), a * a)));
    let (p, q) = (mono(mk(2, 0, 0), 1), mono(m1(), a));
    lemma_scale_padd(p, q, mk(2, 0, 0), 1); lemma_scale_padd(p, q, m1(), a);
    lemma_scale_mono(mk(2, 0, 0), 1, mk(2, 0, 0), 1); lemma_scale_mono(m1(), a, mk(2, 0, 0), 1); lemma_scale_mono(mk(2, 0, 0), 1, m1(), a); lemma_scale_mono(m1(), a, m1(), a);
    assert(mmul(mk(2, 0, 0), mk(2, 0, 0)) == xk(4) && mmul(m1(), mk(2, 0, 0)) == xk(2) && mmul(mk(2, 0, 0), m1()) == xk(2) && mmul(m1(), m1()) == m1());
    assert(1 * a == a && a * 1 == a && 1 * 1 == 1);
    assert(u == padd(padd(mono(xk(4), 1), mono(xk(2), a)), padd(mono(xk(2), a), mono(m1(), a * a))));
    assert forall|k: MV| cf(u, k) == cf(v, k) by { }
    lemma_ext(u, v);
}
pub proof fn lemma_psi_base3(a: int, b: int) ensures is_psi(psi3(a, b), a, b, 3) {
    broadcast use poly_cf;
    assert((3 * 3 - 1) / 4int == 2) by (compute);
    lemma_hh2(a);
    assert forall|k: MV| #[trigger] psi3(a, b).contains_key(k) implies k.y == 0 && k == mk(k.x, k.y, 0) && 0 <= k.x <= 4 by { assert(cf(psi3(a, b), k) != 0); }
    assert forall|k: MV| #[trigger] cf(psub(psi3(a, b), hm(a, 2, 0, 1)), k) % 2 == 0 by {
        assert(mdiv(k, yk(0)) == k);
        let c = cf(psub(psi3(a, b), hm(a, 2, 0, 1)), k);
        let t = cf(ppow(hh(a), 2), k);
        assert(1 * t == t);
        if k == xk(4) { assert(c == 2); } else if k == xk(2) { assert(c == 6 * a - 2 * a); } else if k == xk(1) { assert(c == 12 * b); } else if k == m1() { assert(c == -(a * a) - a * a); } else { assert(c == 0); }
    }
}
pub proof fn lemma_psi_base4(a: int, b: int) ensures is_psi(pscale(psi4g(a, b), yk(1), 4), a, b, 4) {
    broadcast use poly_cf;
    assert((4 * 4 - 4) / 4int == 3) by (compute);
    let (g, q) = (psi4g(a, b), pscale(psi4g(a, b), yk(1), 4));
    lemma_keys_pscale(g, yk(1), 4);
    assert forall|k: MV| #[trigger] q.contains_key(k) implies k.y == 1 && k == mk(k.x, k.y, 0) && 0 <= k.x <= 6 by { let j = mdiv(k, yk(1)); assert(g.contains_key(j)); assert(cf(g, j) != 0); }
    lemma_dv_1(g); lemma_dv_scale(g, yk(1), 4, 4, 1);
    lemma_hm(a, 3, 1, 4);
    lemma_dv_add(q, hm(a, 3, 1, 4), 4);
}
/// squares around m
pub proof fn lemma_sqs3(m: int) ensures (m + 2) * (m + 2) == m * m + 4 * m + 4, (m - 1) * (m - 1) == m * m - 2 * m + 1, (m + 1) * (m + 1) == m * m + 2 * m + 1, (m - 2) * (m - 2) == m * m - 4 * m + 4, (2 * m + 1) * (2 * m + 1) == 4 * (m * m) + 4 * m + 1, (2 * m) * (2 * m) == 4 * (m * m), 4 * m * m == 4 * (m * m), 3 * m * m == 3 * (m * m), 2 * m * m == 2 * (m * m) {
    assert((m + 2) * (m + 2) == m * m + 4 * m + 4) by (nonlinear_arith);
    assert((m - 1) * (m - 1) == m * m - 2 * m + 1) by (nonlinear_arith);
    assert((m + 1) * (m + 1) == m * m + 2 * m + 1) by (nonlinear_arith);
    assert((m - 2) * (m - 2) == m * m - 4 * m + 4) by (nonlinear_arith);
    assert((2 * m + 1) * (2 * m + 1) == 4 * (m * m) + 4 * m + 1) by (nonlinear_arith);
    assert((2 * m) * (2 * m) == 4 * (m * m)) by (nonlinear_arith);
    assert(4 * m * m == 4 * (m * m) && 3 * m * m == 3 * (m * m) && 2 * m * m == 2 * (m * m)) by (nonlinear_arith);
}
/// weight of e f^3 (weights of e, f given)
pub proof fn lemma_w_side(e: PM, f: PM, k: int, v: int, w: int) requires canon(e), canon(f), k >= 0, pw(e, v), pw(f, w) ensures pw(pmul(e, ppow(f, k)), v + w * k), canon(pmul(e, ppow(f, k))), canon(ppow(f, k)), pw(ppow(f, k), w * k) {
    lemma_canon_ppow(f, k); lemma_canon_pmul(e, ppow(f, k)); lemma_pw_pow(f, w, k); lemma_pw_mul(e, ppow(f, k), v, w * k);
}
pub proof fn lemma_y_side(e: PM, f: PM, k: int, v: int, w: int) requires k >= 0, yeq(e, v), yeq(f, w) ensures yeq(pmul(e, ppow(f, k)), v + w * k) {
    lemma_yeq_pow(f, w, k); lemma_yeq_mul(e, ppow(f, k), v, w * k);
}
proof fn lemma_odd_w(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 2, is_psi(e, a, b, m + 2), is_psi(f, a, b, m), is_psi(g, a, b, m - 1), is_psi(h, a, b, m + 1)
    ensures pw(pmul(e, ppow(f, 3)), 4 * m * m + 4 * m), pw(pmul(g, ppow(h, 3)), 4 * m * m + 4 * m), pw(dif(e, f, g, h, 3), 4 * m * m + 4 * m), canon(dif(e, f, g, h, 3)), canon(ppow(f, 3)), canon(ppow(h, 3)), pw(ppow(f, 3), (m * m - 1) * 3), pw(ppow(h, 3), ((m + 1) * (m + 1) - 1) * 3), canon(pmul(e, ppow(f, 3))), canon(pmul(g, ppow(h, 3)))
{
    broadcast use lemma_canon_padd;
    lemma_sqs3(m);
    lemma_w_side(e, f, 3, (m + 2) * (m + 2) - 1, m * m - 1); lemma_w_side(g, h, 3, (m - 1) * (m - 1) - 1, (m + 1) * (m + 1) - 1);
    lemma_pw_add(pmul(e, ppow(f, 3)), pmul(g, ppow(h, 3)), 4 * m * m + 4 * m);
}
/// e f^3 - g h^3 modulo 2, and its form in y
proof fn lemma_odd_cg(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 2, is_psi(e, a, b, m + 2), is_psi(f, a, b, m), is_psi(g, a, b, m - 1), is_psi(h, a, b, m + 1)
    ensures cg(dif(e, f, g, h, 3), hm(a, m * m + m, 0, 1), 2), yev(dif(e, f, g, h, 3))
{
    broadcast use poly_cf;
    let (u, v) = (pmul(e, ppow(f, 3)), pmul(g, ppow(h, 3)));
    let d = dif(e, f, g, h, 3);
    let t = hm(a, m * m + m, 0, 1);
    lemma_hm(a, m * m + m, 0, 1);
    lemma_psub_0(t);
    if m % 2 == 1 {
        lemma_y_side(e, f, 3, 0, 0); lemma_y_side(g, h, 3, 1, 1);
        lemma_odd_e(a, b, m, e, f); 
        lemma_psi_even_coefs(g, a, b, m - 1); lemma_dv_1(ppow(h, 3)); lemma_dv_mul(g, ppow(h, 3), 2, 1);
        lemma_cg_0(v, 2);
        lemma_csub(u, t, v, p0(), 2);
    } else {
        lemma_y_side(e, f, 3, 1, 1); lemma_y_side(g, h, 3, 0, 0);
        lemma_odd_h(a, b, m, g, h);
        lemma_psi_even_coefs(e, a, b, m + 2); lemma_dv_1(ppow(f, 3)); lemma_dv_mul(e, ppow(f, 3), 2, 1);
        lemma_cg_0(u, 2);
        lemma_csub(u, p0(), v, t, 2);
        assert forall|k: MV| #[trigger] cf(psub(d, t), k) % 2 == 0 by { assert(cf(psub(psub(u, v), psub(p0(), t)), k) % 2 == 0); }
    }
    assert forall|k: MV| #[trigger] d.contains_key(k) implies k.y % 2 == 0 && k.y >= 0 by { lemma_keys_psub(u, v); }
}
/// psi_(2m+1)
pub proof fn lemma_psi_odd(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 2, is_psi(e, a, b, m + 2), is_psi(f, a, b, m), is_psi(g, a, b, m - 1), is_psi(h, a, b, m + 1)
    ensures is_psi(pred(dif(e, f, g, h, 3), a, b), a, b, 2 * m + 1), pw(pmul(e, ppow(f, 3)), 4 * m * m + 4 * m), pw(pmul(g, ppow(h, 3)), 4 * m * m + 4 * m), pw(dif(e, f, g, h, 3), 4 * m * m + 4 * m), canon(dif(e, f, g, h, 3)), canon(ppow(f, 3)), canon(ppow(h, 3)), pw(f, m * m - 1), pw(h, (m + 1) * (m + 1) - 1), pw(ppow(f, 3), (m * m - 1) * 3), pw(ppow(h, 3), ((m + 1) * (m + 1) - 1) * 3)
{
    let d = dif(e, f, g, h, 3);
    let q = pred(d, a, b);
    let s = m * m + m;
    let t = hm(a, s, 0, 1);
    lemma_odd_w(a, b, m, e, f, g, h); lemma_odd_cg(a, b, m, e, f, g, h);
    lemma_pw_pred(d, a, b, 4 * m * m + 4 * m);
    lemma_yeq_pred(d, a, b);
    // t has no y: it is its own normal form, so the congruence survives the reduction
    lemma_hm(a, s, 0, 1); lemma_hm_y(a, s, 0, 1);
    lemma_pred_id(t, a, b);
    lemma_pred_psub(d, t, a, b);
    lemma_dv_pred(psub(d, t), a, b, 2);
    lemma_sqs3(m);
    let n2 = (2 * m + 1) * (2 * m + 1);
    assert(n2 == 4 * s + 1);
    assert((n2 - 1) / 4 == s);
    assert((2 * m + 1) % 2 == 1);
}
pub proof fn lemma_cg_0(v: PM, n: int) requires n > 0, dv(v, n) ensures cg(v, p0(), n) {
    broadcast use poly_cf;
    assert forall|k: MV| #[trigger] cf(psub(v, p0()), k) % n == 0 by { assert(cf(v, k) % n == 0); }
}
pub proof fn lemma_psub_0(t: PM) requires canon(t) ensures psub(t, p0()) == t { broadcast use poly_cf; lemma_ext(psub(t, p0()), t); }
pub proof fn lemma_pred_psub(d: PM, t: PM, a: int, b: int) requires canon(d), canon(t) ensures pred(psub(d, t), a, b) == psub(pred(d, a, b), pred(t, a, b)) {
    broadcast use poly_cf;
    lemma_redf_lin(a, b);
    let s = psub(d, t);
    lemma_psum_padd(s, t, redf(a, b));
    lemma_ext(padd(s, t), d);
    lemma_psum_canon(s, redf(a, b)); lemma_psum_canon(t, redf(a, b)); lemma_psum_canon(d, redf(a, b));
    let (u, v) = (pred(s, a, b), psub(pred(d, a, b), pred(t, a, b)));
    assert forall|k: MV| cf(u, k) == cf(v, k) by { assert(cf(pred(d, a, b), k) == cf(padd(pred(s, a, b), pred(t, a, b)), k)); }
    lemma_ext(u, v);
}
pub proof fn lemma_hm_y(a: int, e: int, i: int, c: int) ensures yeq(hm(a, e, i, c), i) {
    broadcast use poly_cf;
    lemma_hh_y(a); 
    lemma_y0_pow(hh(a), e);
    lemma_keys_pscale(ppow(hh(a), e), yk(i), c);
    assert forall|k: MV| #[trigger] hm(a, e, i, c).contains_key(k) implies k.y == i by { assert(ppow(hh(a), e).contains_key(mdiv(k, yk(i)))); }
}
pub proof fn lemma_hh_y(a: int) ensures y0(hh(a)), canon(hh(a)) { broadcast use poly_cf; assert forall|k: MV| #[trigger] hh(a).contains_key(k) implies k.y == 0 by { assert(cf(hh(a), k) != 0); } }
/// powers of c y^i (x^2+a)^e
pub proof fn lemma_hm_sq(a: int, e: int, i: int, c: int) requires e >= 0 ensures ppow(hm(a, e, i, c), 2) == hm(a, 2 * e, 2 * i, c * c) {
    lemma_hm_mul(a, e, i, c, e, i, c);
    reveal_with_fuel(ppow, 3); lemma_mul_1(hm(a, e, i, c));
}
pub proof fn lemma_ppow2(q: PM) requires canon(q) ensures ppow(q, 2) == pmul(q, q) { reveal_with_fuel(ppow, 3); lemma_mul_1(q); }
pub proof fn lemma_ppow3(q: PM) requires canon(q) ensures ppow(q, 3) == pmul(q, pmul(q, q)) { reveal_with_fuel(ppow, 4); lemma_mul_1(q); }
pub proof fn lemma_cg_pow(q: PM, r: PM, n: int) requires canon(q), canon(r), n > 0, cg(q, r, n) ensures cg(ppow(q, 2), ppow(r, 2), n), cg(ppow(q, 3), ppow(r, 3), n) {
    lemma_ppow2(q); lemma_ppow2(r); lemma_ppow3(q); lemma_ppow3(r);
    lemma_canon_pmul(q, q); lemma_canon_pmul(r, r);
    lemma_dv_1(q); lemma_dv_1(r); lemma_dv_1(pmul(q, q));
    assert((n * 1) % n == 0 && (1 * n) % n == 0) by { assert(n * 1 == n && 1 * n == n); vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
    lemma_cmul(q, r, q, r, n, 1, 1, n, n);
    lemma_cmul(q, r, pmul(q, q), pmul(r, r), n, 1, 1, n, n);
}
/// e f^3 == (x^2+a)^(m^2+m) modulo 2, for odd m
pub proof fn lemma_odd_e(a: int, b: int, m: int, e: PM, f: PM) requires m >= 0, m % 2 == 1, is_psi(e, a, b, m + 2), is_psi(f, a, b, m) ensures cg(pmul(e, ppow(f, 3)), hm(a, m * m + m, 0, 1), 2) {
    let (i, j) = (((m + 2) * (m + 2) - 1) / 4, (m * m - 1) / 4);
    lemma_sq4(m); lemma_sq4(m + 2);
    assert(4 * i == (m + 2) * (m + 2) - 1 && 4 * j == m * m - 1);
    assert(i + 3 * j == m * m + m && i >= 0 && j >= 0) by (nonlinear_arith) requires 4 * i == (m + 2) * (m + 2) - 1, 4 * j == m * m - 1, m >= 1;
    lemma_prod3(a, i, j, e, f, hm(a, i, 0, 1), hm(a, j, 0, 1));
    assert(i + 3 * j == m * m + m);
}
pub proof fn lemma_odd_h(a: int, b: int, m: int, g: PM, h: PM) requires m >= 2, m % 2 == 0, is_psi(g, a, b, m - 1), is_psi(h, a, b, m + 1) ensures cg(pmul(g, ppow(h, 3)), hm(a, m * m + m, 0, 1), 2) {
    let (i, j) = (((m - 1) * (m - 1) - 1) / 4, ((m + 1) * (m + 1) - 1) / 4);
    lemma_sq4(m - 1); lemma_sq4(m + 1);
    assert(i + 3 * j == m * m + m && i >= 0 && j >= 0) by (nonlinear_arith) requires 4 * i == (m - 1) * (m - 1) - 1, 4 * j == (m + 1) * (m + 1) - 1, m >= 2;
    lemma_prod3(a, i, j, g, h, hm(a, i, 0, 1), hm(a, j, 0, 1));
}
pub proof fn lemma_prod3(a: int, i: int, j: int, e: PM, f: PM, s: PM, t: PM) requires i >= 0, j >= 0, canon(e), canon(f), s == hm(a, i, 0, 1), t == hm(a, j, 0, 1), cg(e, s, 2), cg(f, t, 2) ensures cg(pmul(e, ppow(f, 3)), hm(a, i + 3 * j, 0, 1), 2) {
    lemma_hm(a, i, 0, 1); lemma_hm(a, j, 0, 1);
    lemma_cg_pow(f, t, 2);
    lemma_canon_ppow(f, 3); lemma_canon_ppow(t, 3);
    lemma_dv_1(e); lemma_dv_1(s); lemma_dv_1(ppow(f, 3));
    lemma_cmul(e, s, ppow(f, 3), ppow(t, 3), 2, 1, 1, 2, 2);
    lemma_hm_mul(a, j, 0, 1, j, 0, 1); lemma_hm_mul(a, j, 0, 1, 2 * j, 0, 1); lemma_hm_mul(a, i, 0, 1, 3 * j, 0, 1);
    lemma_ppow3(t);
}
pub proof fn lemma_sq4(m: int) ensures m % 2 == 1 ==> 4 * ((m * m - 1) / 4) == m * m - 1, m % 2 == 0 ==> 4 * ((m * m - 4) / 4) == m * m - 4, m % 2 == 0 ==> 4 * ((m * m) / 4) == m * m {
    let k = m / 2; let (s, c) = (m * m, k * k);
    if m % 2 == 1 { assert(s == 4 * (c + k) + 1) by (nonlinear_arith) requires m == 2 * k + 1, s == m * m, c == k * k; lemma_div4(s - 1, c + k); }
    else { assert(s == 4 * c) by (nonlinear_arith) requires m == 2 * k, s == m * m, c == k * k; lemma_div4(s, c); lemma_div4(s - 4, c - 1); }
}
proof fn lemma_div4(a: int, c: int) requires a == 4 * c ensures 4 * (a / 4) == a { }
/// e f^2 - g h^2 with e, f, g, h = psi_(m+2), psi_(m-1), psi_(m-2), psi_(m+1)
pub proof fn lemma_dif2(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 2, is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1)
    ensures pw(pmul(e, ppow(f, 2)), 3 * m * m + 3), pw(pmul(g, ppow(h, 2)), 3 * m * m + 3), pw(dif(e, f, g, h, 2), 3 * m * m + 3), canon(dif(e, f, g, h, 2)), canon(ppow(f, 2)), canon(ppow(h, 2)),
        pw(ppow(f, 2), ((m - 1) * (m - 1) - 1) * 2), pw(ppow(h, 2), ((m + 1) * (m + 1) - 1) * 2), dv(dif(e, f, g, h, 2), 4),
        m % 2 == 1 ==> yeq(dif(e, f, g, h, 2), 2) && cg(dif(e, f, g, h, 2), hm(a, 3 * ((m * m - 1) / 4), 2, -4 * m), 8),
        m % 2 == 0 ==> yeq(dif(e, f, g, h, 2), 1), m % 2 == 0 && m > 2 ==> cg(dif(e, f, g, h, 2), hm(a, 3 * ((m * m) / 4), 1, 4), 4),
{
    lemma_dif2_w(a, b, m, e, f, g, h);
    let (f2, h2) = (ppow(f, 2), ppow(h, 2));
    let (u, v) = (pmul(e, f2), pmul(g, h2));
    let d = dif(e, f, g, h, 2);
    if m % 2 == 1 {
        lemma_y_side(e, f, 2, 0, 1); lemma_y_side(g, h, 2, 0, 1); lemma_yeq_add(u, v, 2);
        lemma_dif2_odd(a, b, m, e, f, g, h);
        let z = 3 * ((m * m - 1) / 4);
        lemma_hm(a, z, 2, -4 * m);
        lemma_div4b(-4 * m, -m);
        lemma_dv_cg(d, hm(a, z, 2, -4 * m), 8, 4);
    } else {
        lemma_y_side(e, f, 2, 1, 0); lemma_y_side(g, h, 2, 1, 0); lemma_yeq_add(u, v, 1);
        if m == 2 { lemma_dif2_2(a, b, e, f, g, h); }
        else {
            lemma_dif2_even(a, b, m, e, f, g, h);
            let z = 3 * ((m * m) / 4);
            lemma_hm(a, z, 1, 4);
            lemma_dv_cg(d, hm(a, z, 1, 4), 4, 4);
        }
    }
}
proof fn lemma_dif2_w(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 2, is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1)
    ensures pw(pmul(e, ppow(f, 2)), 3 * m * m + 3), pw(pmul(g, ppow(h, 2)), 3 * m * m + 3), pw(dif(e, f, g, h, 2), 3 * m * m + 3), canon(dif(e, f, g, h, 2)), canon(ppow(f, 2)), canon(ppow(h, 2)),
        pw(ppow(f, 2), ((m - 1) * (m - 1) - 1) * 2), pw(ppow(h, 2), ((m + 1) * (m + 1) - 1) * 2), canon(pmul(e, ppow(f, 2))), canon(pmul(g, ppow(h, 2)))
{
    broadcast use lemma_canon_padd;
    lemma_sqs3(m);
    lemma_w_side(e, f, 2, (m + 2) * (m + 2) - 1, (m - 1) * (m - 1) - 1); lemma_w_side(g, h, 2, (m - 2) * (m - 2) - 1, (m + 1) * (m + 1) - 1);
    lemma_pw_add(pmul(e, ppow(f, 2)), pmul(g, ppow(h, 2)), 3 * m * m + 3);
}
proof fn lemma_dif2_2(a: int, b: int, e: PM, f: PM, g: PM, h: PM) requires is_psi(e, a, b, 4), is_psi(f, a, b, 1), is_psi(g, a, b, 0), is_psi(h, a, b, 3) ensures dv(dif(e, f, g, h, 2), 4) {
    let (i, j) = ((4 * 4 - 4) / 4int, (0 * 0 - 4) / 4int);
    lemma_hm_dv(a, i, 1, 4, 4); lemma_hm_dv(a, j, 1, 0, 4);
    lemma_dv_cg(e, hm(a, i, 1, 4), 4, 4); lemma_dv_cg(g, hm(a, j, 1, 0), 4, 4);
    lemma_dv_1(ppow(f, 2)); lemma_dv_1(ppow(h, 2)); lemma_dv_mul(e, ppow(f, 2), 4, 1); lemma_dv_mul(g, ppow(h, 2), 4, 1); lemma_dv_add(pmul(e, ppow(f, 2)), pmul(g, ppow(h, 2)), 4);
}
proof fn lemma_div4b(a: int, c: int) requires a == 4 * c ensures a % 4 == 0 { }
proof fn lemma_dif2_odd(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 3, m % 2 == 1, is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1) ensures cg(dif(e, f, g, h, 2), hm(a, 3 * ((m * m - 1) / 4), 2, -4 * m), 8) {
    let z = (m * m - 1) / 4;
    let (i, j, k, l) = (((m + 2) * (m + 2) - 1) / 4, ((m - 1) * (m - 1) - 4) / 4, ((m - 2) * (m - 2) - 1) / 4, ((m + 1) * (m + 1) - 4) / 4);
    lemma_sq4(m); lemma_sq4(m + 2); lemma_sq4(m - 1); lemma_sq4(m - 2); lemma_sq4(m + 1);
    let s = m * m;
    assert((m + 2) * (m + 2) == s + 4 * m + 4 && (m - 2) * (m - 2) == s - 4 * m + 4 && (m - 1) * (m - 1) == s - 2 * m + 1 && (m + 1) * (m + 1) == s + 2 * m + 1 && s >= 3 * m) by (nonlinear_arith) requires s == m * m, m >= 3;
    assert(i + 2 * j == 3 * z && k + 2 * l == 3 * z && i >= 0 && j >= 0 && k >= 0 && l >= 0);
    lemma_psi_even_coefs(f, a, b, m - 1); lemma_psi_even_coefs(h, a, b, m + 1);
    lemma_side_odd(a, i, j, m - 1, e, f); lemma_side_odd(a, k, l, m + 1, g, h);
    let (p, q) = ((m - 1) * (m - 1), (m + 1) * (m + 1));
    lemma_csub(pmul(e, ppow(f, 2)), hm(a, 3 * z, 2, p), pmul(g, ppow(h, 2)), hm(a, 3 * z, 2, q), 8);
    lemma_hm_sub(a, 3 * z, 2, p, q);
    assert(p - q == -4 * m);
}
/// e f^2 modulo 8, e of odd index, f of even index
proof fn lemma_side_odd(a: int, i: int, j: int, c: int, e: PM, f: PM) requires i >= 0, j >= 0, c % 2 == 0, canon(e), canon(f), cg(e, hm(a, i, 0, 1), 2), cg(f, hm(a, j, 1, c), 4), dv(f, 2) ensures cg(pmul(e, ppow(f, 2)), hm(a, i + 2 * j, 2, c * c), 8) {
    let (s, t) = (hm(a, i, 0, 1), hm(a, j, 1, c));
    lemma_hm(a, i, 0, 1); lemma_hm(a, j, 1, c);
    lemma_csq(f, t);
    lemma_ppow2(f); lemma_ppow2(t);
    lemma_canon_pmul(f, f); lemma_canon_pmul(t, t);
    lemma_dv_mul(f, f, 2, 2);
    lemma_dv_1(s);
    lemma_cmul(e, s, pmul(f, f), pmul(t, t), 2, 4, 1, 8, 8);
    lemma_hm_mul(a, j, 1, c, j, 1, c); lemma_hm_mul(a, i, 0, 1, 2 * j, 2, c * c);
    assert(1 * (c * c) == c * c);
}
proof fn lemma_dif2_even(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires m >= 4, m % 2 == 0, is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1) ensures cg(dif(e, f, g, h, 2), hm(a, 3 * ((m * m) / 4), 1, 4), 4) {
    let z = (m * m) / 4;
    let (i, j, k, l) = (((m + 2) * (m + 2) - 4) / 4, ((m - 1) * (m - 1) - 1) / 4, ((m - 2) * (m - 2) - 4) / 4, ((m + 1) * (m + 1) - 1) / 4);
    lemma_sq4(m); lemma_sq4(m + 2); lemma_sq4(m - 1); lemma_sq4(m - 2); lemma_sq4(m + 1);
    let s = m * m;
    assert((m + 2) * (m + 2) == s + 4 * m + 4 && (m - 2) * (m - 2) == s - 4 * m + 4 && (m - 1) * (m - 1) == s - 2 * m + 1 && (m + 1) * (m + 1) == s + 2 * m + 1 && s >= 4 * m) by (nonlinear_arith) requires s == m * m, m >= 4;
    assert(i + 2 * j == 3 * z && k + 2 * l == 3 * z && i >= 0 && j >= 0 && k >= 0 && l >= 0);
    lemma_side_even(a, i, j, m + 2, e, f); lemma_side_even(a, k, l, m - 2, g, h);
    lemma_csub(pmul(e, ppow(f, 2)), hm(a, 3 * z, 1, m + 2), pmul(g, ppow(h, 2)), hm(a, 3 * z, 1, m - 2), 4);
    lemma_hm_sub(a, 3 * z, 1, m + 2, m - 2);
}
/// e f^2 modulo 4, e of even index, f of odd index
proof fn lemma_side_even(a: int, i: int, j: int, c: int, e: PM, f: PM) requires i >= 0, j >= 0, c % 2 == 0, canon(e), canon(f), cg(e, hm(a, i, 1, c), 4), cg(f, hm(a, j, 0, 1), 2) ensures cg(pmul(e, ppow(f, 2)), hm(a, i + 2 * j, 1, c), 4) {
    let (s, t) = (hm(a, i, 1, c), hm(a, j, 0, 1));
    lemma_hm(a, i, 1, c); lemma_hm(a, j, 0, 1);
    lemma_cg_pow(f, t, 2);
    lemma_canon_ppow(f, 2); lemma_canon_ppow(t, 2);
    lemma_dv_1(ppow(f, 2));
    lemma_cmul(e, s, ppow(f, 2), ppow(t, 2), 4, 1, 2, 2, 4);
    lemma_ppow2(t); lemma_hm_mul(a, j, 0, 1, j, 0, 1); lemma_hm_mul(a, i, 1, c, 2 * j, 0, 1);
    assert(c * 1 == c);
}
/// division by c y^1 of a polynomial with y in every term and coefficients divisible by c
pub proof fn lemma_divy(i: PM, c: int, w: int, s: int) requires canon(i), c > 0, dv(i, c), pw(i, w), yeq(i, s), s >= 1 ensures pscale(pdivm(i, yk(1), c), yk(1), c) == i, pw(pdivm(i, yk(1), c), w - 3), yeq(pdivm(i, yk(1), c), s - 1), canon(pdivm(i, yk(1), c)), w <= mx() ==> divfit(i, yk(1)) {
    broadcast use poly_cf;
    let q = pdivm(i, yk(1), c);
    assert forall|j: MV| #[trigger] i.contains_key(j) implies divides(c, i[j]) by { assert(cf(i, j) % c == 0); lemma_div_mod(c, i[j]); }
    lemma_pdivm_exact(i, yk(1), c);
    lemma_mul_mono_r(q, yk(1), c);
    assert forall|k: MV| #[trigger] q.contains_key(k) implies k.y == s - 1 && k == mk(k.x, k.y, 0) && k.x >= 0 && k.y >= 0 && 2 * k.x + 3 * k.y <= w - 3 by {
        lemma_cf_pdivm(i, yk(1), c, k); lemma_fdiv0(c);
        assert(cf(i, mmul(k, yk(1))) != 0); assert(i.contains_key(mmul(k, yk(1))));
    }
}
/// psi_(2m), m >= 3
pub proof fn lemma_psi_even(a: int, b: int, m: int, q: PM, e: PM, f: PM, g: PM, h: PM) requires m >= 3, is_psi(q, a, b, m), is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1)
    ensures is_psi(pdivm(pmul(q, dif(e, f, g, h, 2)), yk(1), 2), a, b, 2 * m), pscale(pdivm(pmul(q, dif(e, f, g, h, 2)), yk(1), 2), yk(1), 2) == pmul(q, dif(e, f, g, h, 2)), pw(pmul(q, dif(e, f, g, h, 2)), 4 * m * m + 2), canon(pmul(q, dif(e, f, g, h, 2))),
        4 * m * m + 2 <= mx() ==> divfit(pmul(q, dif(e, f, g, h, 2)), yk(1))
{
    broadcast use poly_cf;
    let d = dif(e, f, g, h, 2);
    let i = pmul(q, d); let r = pdivm(i, yk(1), 2); let n = 2 * m;
    lemma_dif2(a, b, m, e, f, g, h);
    lemma_canon_pmul(q, d);
    lemma_pw_mul(q, d, m * m - 1, 3 * m * m + 3);
    let s = m * m;
    assert(3 * m * m == 3 * s && 4 * m * m == 4 * s && n * n == 4 * s) by (nonlinear_arith) requires s == m * m, n == 2 * m;
    assert(s - 1 >= 0) by (nonlinear_arith) requires s == m * m, m >= 3;
    if m % 2 == 1 { lemma_yeq_mul(q, d, 0, 2); } else { lemma_yeq_mul(q, d, 1, 1); }
    let t = hm(a, s - 1, 2, 2 * n);
    lemma_psi_even_cg(a, b, m, q, d);
    assert(cg(i, t, 8));
    lemma_hm(a, s - 1, 2, 2 * n);
    lemma_div4b(2 * n, m);
    lemma_dv_cg(i, t, 8, 4); lemma_dv_down(i, 4, 2);
    lemma_divy(i, 2, 4 * s + 2, 2);
    let o = hm(a, s - 1, 1, n);
    lemma_hm(a, s - 1, 1, n);
    lemma_scale_scale(ppow(hh(a), s - 1), yk(1), n, yk(1), 2);
    assert(mmul(yk(1), yk(1)) == yk(2) && n * 2 == 2 * n);
    assert(pscale(o, yk(1), 2) == t);
    assert forall|k: MV| #[trigger] cf(psub(r, o), k) % 4 == 0 by {
        let k2 = mmul(k, yk(1));
        assert(mdiv(k2, yk(1)) == k);
        assert(cf(psub(i, t), k2) == 2 * cf(r, k) - 2 * cf(o, k));
        assert(cf(psub(i, t), k2) % 8 == 0);
    }
    assert((4 * s - 4) / 4 == s - 1);
}
proof fn lemma_psi_even_cg(a: int, b: int, m: int, q: PM, d: PM) requires m >= 3, is_psi(q, a, b, m), canon(d), dv(d, 4),
        m % 2 == 1 ==> cg(d, hm(a, 3 * ((m * m - 1) / 4), 2, -4 * m), 8), m % 2 == 0 ==> cg(d, hm(a, 3 * ((m * m) / 4), 1, 4), 4)
    ensures cg(pmul(q, d), hm(a, m * m - 1, 2, 4 * m), 8)
{
    broadcast use poly_cf;
    let s = m * m;
    lemma_sq4(m);
    assert(s >= 9) by (nonlinear_arith) requires s == m * m, m >= 3;
    if m % 2 == 1 {
        let z = (s - 1) / 4;
        let (u, v) = (hm(a, z, 0, 1), hm(a, 3 * z, 2, -4 * m));
        lemma_hm(a, z, 0, 1); lemma_hm(a, 3 * z, 2, -4 * m); lemma_dv_1(u);
        lemma_cmul(q, u, d, v, 2, 4, 1, 8, 8);
        lemma_hm_mul(a, z, 0, 1, 3 * z, 2, -4 * m);
        assert(1 * (-4 * m) == -4 * m);
        // -4m and 4m agree modulo 8
        let (x, y) = (hm(a, s - 1, 2, -4 * m), hm(a, s - 1, 2, 4 * m));
        lemma_hm_sub(a, s - 1, 2, -4 * m, 4 * m);
        lemma_hm(a, s - 1, 2, -8 * m);
        assert((-8 * m) % 8 == 0);
        assert(dv(psub(x, y), 8));
        lemma_dv_add(psub(pmul(q, d), x), psub(x, y), 8);
        assert forall|k: MV| #[trigger] cf(psub(pmul(q, d), y), k) % 8 == 0 by { assert(cf(padd(psub(pmul(q, d), x), psub(x, y)), k) % 8 == 0); }
    } else {
        let (z, l) = (s / 4, (s - 4) / 4);
        let (u, v) = (hm(a, l, 1, m), hm(a, 3 * z, 1, 4));
        lemma_hm(a, l, 1, m); lemma_hm(a, 3 * z, 1, 4);
        lemma_dv_down(d, 4, 2);
        lemma_cmul(q, u, d, v, 4, 2, 2, 4, 8);
        lemma_hm_mul(a, l, 1, m, 3 * z, 1, 4);
        assert(m * 4 == 4 * m && l + 3 * z == s - 1);
    }
}
/// every psi_n: degree, parity in y, coefficients; and the recurrences as identities
pub proof fn lemma_psip(a: int, b: int, n: int) requires n >= 0 ensures is_psi(psip(a, b, n), a, b, n) decreases n {
    if n <= 4 { lemma_psi_base(a, b); }
    else if n % 2 == 1 {
        let m = (n - 1) / 2;
        lemma_psip(a, b, m + 2); lemma_psip(a, b, m); lemma_psip(a, b, m - 1); lemma_psip(a, b, m + 1);
        lemma_psi_odd(a, b, m, psip(a, b, m + 2), psip(a, b, m), psip(a, b, m - 1), psip(a, b, m + 1));
    } else {
        let m = n / 2;
        lemma_psip(a, b, m + 2); lemma_psip(a, b, m - 1); lemma_psip(a, b, m - 2); lemma_psip(a, b, m + 1); lemma_psip(a, b, m);
        lemma_psi_even(a, b, m, psip(a, b, m), psip(a, b, m + 2), psip(a, b, m - 1), psip(a, b, m - 2), psip(a, b, m + 1));
    }
}
/// 2 y psi_(2m) == psi_m (psi_(m+2) psi_(m-1)^2 - psi_(m-2) psi_(m+1)^2): the division that defines psi_(2m) is exact
pub proof fn lemma_psi_recurrence_even(a: int, b: int, m: int) requires m >= 3 ensures pscale(psip(a, b, 2 * m), yk(1), 2) == pmul(psip(a, b, m), omgn(a, b, m)) {
    lemma_psip(a, b, m + 2); lemma_psip(a, b, m - 1); lemma_psip(a, b, m - 2); lemma_psip(a, b, m + 1); lemma_psip(a, b, m);
    lemma_psi_even(a, b, m, psip(a, b, m), psip(a, b, m + 2), psip(a, b, m - 1), psip(a, b, m - 2), psip(a, b, m + 1));
}
/// omega_n: 4 y omega_n == psi_(n+2) psi_(n-1)^2 - psi_(n-2) psi_(n+1)^2, and it is already in normal form
pub open spec fn omgp(a: int, b: int, n: int) -> PM { if n == 1 { mono(yk(1), 1) } else { pdivm(omgn(a, b, n), yk(1), 4) } }
pub proof fn lemma_omega(a: int, b: int, n: int) requires n >= 2 ensures pscale(omgp(a, b, n), yk(1), 4) == omgn(a, b, n), canon(omgp(a, b, n)), pred(omgp(a, b, n), a, b) == omgp(a, b, n), pw(omgp(a, b, n), 3 * n * n), yeq(omgp(a, b, n), if n % 2 == 1 { 1 } else { 0 }), canon(omgn(a, b, n)), 3 * n * n + 3 <= mx() ==> divfit(omgn(a, b, n), yk(1)) && redfit(omgp(a, b, n)) {
    lemma_psip(a, b, n + 2); lemma_psip(a, b, n - 1); lemma_psip(a, b, n - 2); lemma_psip(a, b, n + 1);
    lemma_dif2(a, b, n, psip(a, b, n + 2), psip(a, b, n - 1), psip(a, b, n - 2), psip(a, b, n + 1));
    lemma_divy(omgn(a, b, n), 4, 3 * n * n + 3, if n % 2 == 1 { 2int } else { 1 });
    lemma_pred_id(omgp(a, b, n), a, b);
}
// ---- the exponents stay within i32 ----
pub proof fn lemma_mulfit_pw(p: PM, q: PM, v: int, w: int) requires pw(p, v), pw(q, w), v + w <= mx() ensures mulfit(p, q), mulfit(q, p) { lemma_pw_mul(p, q, v, w); lemma_mulfit_sym(p, q); }
pub proof fn lemma_sqs(m: int, n: int) requires 0 <= m <= n ensures m * m <= n * n, m <= m * m { assert(m * m <= n * n) by (nonlinear_arith) requires 0 <= m <= n; assert(m <= m * m) by (nonlinear_arith) requires 0 <= m; }
pub proof fn lemma_fit_odd(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires 2 <= m <= 10001, is_psi(e, a, b, m + 2), is_psi(f, a, b, m), is_psi(g, a, b, m - 1), is_psi(h, a, b, m + 1)
    ensures powfit(f, 3), powfit(h, 3), canon(ppow(f, 3)), canon(ppow(h, 3)), mulfit(e, ppow(f, 3)), mulfit(g, ppow(h, 3)), mulfit(ppow(f, 3), e), mulfit(ppow(h, 3), g), canon(pmul(e, ppow(f, 3))), canon(pmul(g, ppow(h, 3))), canon(dif(e, f, g, h, 3)), redfit(dif(e, f, g, h, 3)), 
{
    lemma_psi_odd(a, b, m, e, f, g, h);
    lemma_sqs(m + 2, 10003);
    let s = m * m;
    assert((m + 1) * (m + 1) == s + 2 * m + 1 && (m + 2) * (m + 2) == s + 4 * m + 4 && (m - 1) * (m - 1) == s - 2 * m + 1 && 4 * m * m == 4 * s) by (nonlinear_arith) requires s == m * m;
    lemma_pw_fit(f, m * m - 1, 3); lemma_pw_fit(h, (m + 1) * (m + 1) - 1, 3);
    lemma_mulfit_pw(e, ppow(f, 3), (m + 2) * (m + 2) - 1, (m * m - 1) * 3); lemma_mulfit_pw(g, ppow(h, 3), (m - 1) * (m - 1) - 1, ((m + 1) * (m + 1) - 1) * 3);
    lemma_canon_pmul(e, ppow(f, 3)); lemma_canon_pmul(g, ppow(h, 3));
    lemma_pw_pred(dif(e, f, g, h, 3), a, b, 4 * m * m + 4 * m);
}
pub proof fn lemma_fit_dif2(a: int, b: int, m: int, e: PM, f: PM, g: PM, h: PM) requires 2 <= m <= 20000, is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1)
    ensures powfit(f, 2), powfit(h, 2), canon(ppow(f, 2)), canon(ppow(h, 2)), mulfit(e, ppow(f, 2)), mulfit(g, ppow(h, 2)), mulfit(ppow(f, 2), e), mulfit(ppow(h, 2), g), canon(pmul(e, ppow(f, 2))), canon(pmul(g, ppow(h, 2))), canon(dif(e, f, g, h, 2)), 
{
    lemma_dif2(a, b, m, e, f, g, h);
    lemma_sqs(m + 2, 20002);
    let s = m * m;
    assert((m + 1) * (m + 1) == s + 2 * m + 1 && (m + 2) * (m + 2) == s + 4 * m + 4 && (m - 1) * (m - 1) == s - 2 * m + 1 && (m - 2) * (m - 2) == s - 4 * m + 4) by (nonlinear_arith) requires s == m * m;
    lemma_pw_fit(f, (m - 1) * (m - 1) - 1, 2); lemma_pw_fit(h, (m + 1) * (m + 1) - 1, 2);
    lemma_mulfit_pw(e, ppow(f, 2), (m + 2) * (m + 2) - 1, ((m - 1) * (m - 1) - 1) * 2); lemma_mulfit_pw(g, ppow(h, 2), (m - 2) * (m - 2) - 1, ((m + 1) * (m + 1) - 1) * 2);
    lemma_canon_pmul(e, ppow(f, 2)); lemma_canon_pmul(g, ppow(h, 2));
}
pub proof fn lemma_fit_even(a: int, b: int, m: int, q: PM, e: PM, f: PM, g: PM, h: PM) requires 3 <= m <= 10001, is_psi(q, a, b, m), is_psi(e, a, b, m + 2), is_psi(f, a, b, m - 1), is_psi(g, a, b, m - 2), is_psi(h, a, b, m + 1)
    ensures ({ let i = pmul(q, dif(e, f, g, h, 2)); let r = pdivm(i, yk(1), 2); mulfit(q, dif(e, f, g, h, 2)) && mulfit(dif(e, f, g, h, 2), q) && canon(i) && divfit(i, yk(1)) && canon(r) && redfit(r) && pred(r, a, b) == r })
{
    let i = pmul(q, dif(e, f, g, h, 2)); let r = pdivm(i, yk(1), 2);
    lemma_dif2(a, b, m, e, f, g, h);
    lemma_psi_even(a, b, m, q, e, f, g, h);
    lemma_sqs(m, 10001);
    let s = m * m;
    assert(3 * m * m == 3 * s && 4 * m * m == 4 * s && (2 * m) * (2 * m) == 4 * s) by (nonlinear_arith) requires s == m * m;
    lemma_mulfit_pw(q, dif(e, f, g, h, 2), m * m - 1, 3 * m * m + 3);
    assert(4 * m * m + 2 <= mx());
    assert(yle1(r));
    lemma_pred_id(r, a, b);
    lemma_pw_pred(r, a, b, (2 * m) * (2 * m) - 1);
}
pub proof fn lemma_fit_phi(a: int, b: int, n: int) requires 1 <= n <= 20000
    ensures ({ let (p, q, r) = (psip(a, b, n), psip(a, b, n + 1), psip(a, b, n - 1)); let (u, v) = (pmul(mono(xk(1), 1), ppow(p, 2)), pmul(q, r)); canon(p) && canon(q) && canon(r) && powfit(p, 2) && canon(ppow(p, 2)) && u == pscale(ppow(p, 2), xk(1), 1) && mulfit(mono(xk(1), 1), ppow(p, 2)) && mulfit(ppow(p, 2), mono(xk(1), 1)) && mulfit(q, r) && mulfit(r, q)
        && canon(u) && canon(v) && canon(psub(u, v)) && redfit(psub(u, v)) && canon(phip(a, b, n)) && pw(phip(a, b, n), 2 * n * n) && yeq(phip(a, b, n), 0) })
{
    broadcast use poly_cf;
    let (p, q, r) = (psip(a, b, n), psip(a, b, n + 1), psip(a, b, n - 1));
    let x = mono(xk(1), 1);
    let (u, v) = (pmul(x, ppow(p, 2)), pmul(q, r));
    lemma_psip(a, b, n); lemma_psip(a, b, n + 1); lemma_psip(a, b, n - 1);
    lemma_sqs(n, 20000);
    let s = n * n;
    assert((n + 1) * (n + 1) == s + 2 * n + 1 && (n - 1) * (n - 1) == s - 2 * n + 1 && 2 * n * n == 2 * s) by (nonlinear_arith) requires s == n * n;
    lemma_pw_fit(p, n * n - 1, 2); lemma_pw_pow(p, n * n - 1, 2); lemma_canon_ppow(p, 2);
    lemma_mul_mono_l(xk(1), 1, ppow(p, 2));
    assert(pw(x, 2));
    lemma_mulfit_pw(x, ppow(p, 2), 2, (n * n - 1) * 2); lemma_pw_mul(x, ppow(p, 2), 2, (n * n - 1) * 2);
    lemma_mulfit_pw(q, r, (n + 1) * (n + 1) - 1, (n - 1) * (n - 1) - 1); lemma_pw_mul(q, r, (n + 1) * (n + 1) - 1, (n - 1) * (n - 1) - 1);
    lemma_canon_pmul(x, ppow(p, 2)); lemma_canon_pmul(q, r);
    assert(2 + (s - 1) * 2 == 2 * s && s + 2 * n + 1 - 1 + (s - 2 * n + 1 - 1) == 2 * s);
    lemma_pw_add(u, v, 2 * s);
    lemma_pw_pred(psub(u, v), a, b, 2 * s);
    let d = if n % 2 == 1 { 0int } else { 1 };
    lemma_yeq_pow(p, d, 2); assert(yeq(x, 0)); lemma_yeq_mul(x, ppow(p, 2), 0, d * 2); lemma_yeq_mul(q, r, 1 - d, 1 - d);
    assert forall|k: MV| #[trigger] psub(u, v).contains_key(k) implies k.y % 2 == 0 && k.y >= 0 by { lemma_keys_psub(u, v); }
    lemma_yeq_pred(psub(u, v), a, b);
}
pub proof fn lemma_fit_omega(a: int, b: int, n: int) requires 2 <= n <= 20000 ensures divfit(omgn(a, b, n), yk(1)), redfit(omgp(a, b, n)) {
    lemma_sqs(n, 20000);
    let s = n * n; assert(3 * n * n == 3 * s) by (nonlinear_arith) requires s == n * n;
    lemma_omega(a, b, n);
}
// ---- values: at every integer point of the curve the recurrences hold as number identities ----
pub open spec fn pv(a: int, b: int, x: int, y: int, n: int) -> int { ev(psip(a, b, n), x, y) }
pub proof fn lemma_ev_dif(e: PM, f: PM, g: PM, h: PM, k: int, x: int, y: int) requires canon(e), canon(f), canon(g), canon(h), nonneg(e), nonneg(f), nonneg(g), nonneg(h), k >= 0
    ensures ev(dif(e, f, g, h, k), x, y) == ev(e, x, y) * pow(ev(f, x, y), k) - ev(g, x, y) * pow(ev(h, x, y), k), nonneg(dif(e, f, g, h, k)), canon(dif(e, f, g, h, k))
{
    broadcast use poly_cf;
    let (u, v) = (pmul(e, ppow(f, k)), pmul(g, ppow(h, k)));
    lemma_canon_ppow(f, k); lemma_canon_ppow(h, k); lemma_nonneg_ppow(f, k); lemma_nonneg_ppow(h, k);
    lemma_canon_pmul(e, ppow(f, k)); lemma_canon_pmul(g, ppow(h, k)); lemma_nonneg_pmul(e, ppow(f, k)); lemma_nonneg_pmul(g, ppow(h, k));
    lemma_ev_ppow(f, k, x, y); lemma_ev_ppow(h, k, x, y); lemma_ev_pmul(e, ppow(f, k), x, y); lemma_ev_pmul(g, ppow(h, k), x, y);
    lemma_ev_psub(u, v, x, y);
    assert forall|i: MV| #[trigger] psub(u, v).contains_key(i) implies i.x >= 0 && i.y >= 0 by { lemma_keys_psub(u, v); }
}
pub proof fn lemma_values(a: int, b: int, x: int, y: int, m: int) requires y * y == cub(a, b, x), m >= 2
    ensures pv(a, b, x, y, 2 * m + 1) == pv(a, b, x, y, m + 2) * pow(pv(a, b, x, y, m), 3) - pv(a, b, x, y, m - 1) * pow(pv(a, b, x, y, m + 1), 3),
        m >= 3 ==> 2 * y * pv(a, b, x, y, 2 * m) == pv(a, b, x, y, m) * (pv(a, b, x, y, m + 2) * pow(pv(a, b, x, y, m - 1), 2) - pv(a, b, x, y, m - 2) * pow(pv(a, b, x, y, m + 1), 2)),
        4 * y * ev(omgp(a, b, m), x, y) == pv(a, b, x, y, m + 2) * pow(pv(a, b, x, y, m - 1), 2) - pv(a, b, x, y, m - 2) * pow(pv(a, b, x, y, m + 1), 2),
        ev(phip(a, b, m), x, y) == x * pow(pv(a, b, x, y, m), 2) - pv(a, b, x, y, m + 1) * pv(a, b, x, y, m - 1)
{
    broadcast use poly_cf;
    let (q, e, f, g, h) = (psip(a, b, m), psip(a, b, m + 2), psip(a, b, m - 1), psip(a, b, m - 2), psip(a, b, m + 1));
    lemma_psip(a, b, m); lemma_psip(a, b, m + 2); lemma_psip(a, b, m - 1); lemma_psip(a, b, m - 2); lemma_psip(a, b, m + 1); lemma_psip(a, b, 2 * m); 
    lemma_ev_dif(e, q, f, h, 3, x, y); lemma_ev_dif(e, f, g, h, 2, x, y);
    lemma_pred_value(dif(e, q, f, h, 3), a, b, x, y);
    assert((2 * m + 1 - 1) / 2 == m && (2 * m + 1) % 2 == 1);
    assert(psip(a, b, 2 * m + 1) == pred(dif(e, q, f, h, 3), a, b));
    lemma_mval_y(x, y);
    if m >= 3 {
        lemma_psi_recurrence_even(a, b, m);
        lemma_ev_pmul(q, omgn(a, b, m), x, y);
        lemma_ev_pscale(psip(a, b, 2 * m), yk(1), 2, x, y);
        assert(y * 2 == 2 * y);
    }
    lemma_omega(a, b, m);
    lemma_ev_pscale(omgp(a, b, m), yk(1), 4, x, y);
    assert(y * 4 == 4 * y);
    // phi
    let xm = mono(xk(1), 1);
    assert(nonneg(xm));
    lemma_canon_ppow(q, 2); lemma_nonneg_ppow(q, 2); lemma_ev_ppow(q, 2, x, y); lemma_ev_pmul(xm, ppow(q, 2), x, y); lemma_ev_pmul(h, f, x, y); lemma_ev_mono(xk(1), 1, x, y);
    let (u, v) = (pmul(xm, ppow(q, 2)), pmul(h, f));
    lemma_canon_pmul(xm, ppow(q, 2)); lemma_canon_pmul(h, f); lemma_nonneg_pmul(xm, ppow(q, 2)); lemma_nonneg_pmul(h, f);
    lemma_ev_psub(u, v, x, y);
    assert forall|i: MV| #[trigger] psub(u, v).contains_key(i) implies i.x >= 0 && i.y >= 0 by { lemma_keys_psub(u, v); }
    lemma_pred_value(psub(u, v), a, b, x, y);
}
pub proof fn lemma_mval_y(x: int, y: int) ensures mval(yk(1), x, y) == y, mval(xk(1), x, y) == x { reveal_with_fuel(pow, 3); assert(pow(x, 0) == 1 && pow(y, 0) == 1 && pow(x, 1) == x * 1 && pow(y, 1) == y * 1); }
pub proof fn lemma_fit_psi4(a: int, b: int) ensures canon(psi4g(a, b)), mulfit(mono(yk(1), 4), psi4g(a, b)), mulfit(psi4g(a, b), mono(yk(1), 4)) {
    broadcast use poly_cf;
    let g = psi4g(a, b);
    assert forall|k: MV| #[trigger] g.contains_key(k) implies k == mk(k.x, k.y, 0) && k.x >= 0 && k.y >= 0 && 2 * k.x + 3 * k.y <= 12 by { assert(cf(g, k) != 0); }
    assert(pw(g, 12)); assert(pw(mono(yk(1), 4), 3));
    lemma_mulfit_pw(mono(yk(1), 4), g, 3, 12);
}
pub proof fn lemma_hm_dv(a: int, e: int, i: int, c: int, n: int) requires n > 0, c % n == 0 ensures dv(hm(a, e, i, c), n), canon(hm(a, e, i, c)) { lemma_hm(a, e, i, c); }
