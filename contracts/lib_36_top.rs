// Top coefficients for the weight 2 deg_x + 3 deg_y: psi_n has top coefficient n, phi_n and omega_n have 1.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::polygcd::*;
use crate::divpol::*;
pub open spec fn wt(k: MV) -> int { 2 * k.x + 3 * k.y }
pub open spec fn topf(w: int) -> spec_fn(MV, int) -> int { |k: MV, c: int| if wt(k) == w { c } else { 0 } }
/// the sum of the coefficients of weight w
pub open spec fn tpw(m: PM, w: int) -> int { isum(m, topf(w)) }
pub proof fn lemma_topf_lin(w: int) ensures ilin(topf(w)) { }
pub proof fn lemma_top_padd(a: PM, b: PM, w: int) requires canon(a), canon(b) ensures tpw(padd(a, b), w) == tpw(a, w) + tpw(b, w), tpw(psub(a, b), w) == tpw(a, w) - tpw(b, w) {
    broadcast use poly_cf;
    lemma_topf_lin(w); lemma_isum_padd(a, b, topf(w)); lemma_isum_padd(a, pneg(b), topf(w));
    lemma_isum_padd(b, pneg(b), topf(w)); lemma_psub_self(b); lemma_isum_empty(topf(w));
}
pub proof fn lemma_top_mono(k: MV, c: int, w: int) ensures tpw(mono(k, c), w) == if wt(k) == w { c } else { 0 } {
    broadcast use poly_cf;
    lemma_topf_lin(w); lemma_isum_addmono(p0(), k, c, topf(w)); lemma_padd_0(mono(k, c)); lemma_isum_empty(topf(w));
}
/// below the bound there is nothing
pub proof fn lemma_top_low(m: PM, v: int, w: int) requires pw(m, v), v < w ensures tpw(m, w) == 0 decreases m.len() {
    if m.len() != 0 {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        assert(pw(d, v)) by { assert forall|i: MV| #[trigger] d.contains_key(i) implies i == mk(i.x, i.y, 0) && i.x >= 0 && i.y >= 0 && 2 * i.x + 3 * i.y <= v by { assert(m.contains_key(i)); } }
        lemma_top_low(d, v, w);
    }
}
pub proof fn lemma_top_pscale(b: PM, k: MV, c: int, w: int) requires canon(b) ensures tpw(pscale(b, k, c), wt(k) + w) == c * tpw(b, w) decreases b.len() {
    broadcast use poly_cf;
    let v = wt(k) + w;
    if b.len() == 0 { lemma_len0(b); lemma_scale_p0(k, c); assert(c * 0 == 0); }
    else {
        let j = b.dom().choose(); assert(b.contains_key(j)); let d = b.remove(j);
        lemma_peel(b, j);
        lemma_top_pscale(d, k, c, w);
        lemma_scale_padd(d, mono(j, b[j]), k, c);
        lemma_scale_mono(j, b[j], k, c);
        lemma_top_padd(pscale(d, k, c), mono(mmul(j, k), b[j] * c), v);
        lemma_top_mono(mmul(j, k), b[j] * c, v);
        lemma_top_padd(d, mono(j, b[j]), w); lemma_top_mono(j, b[j], w);
        let t = tpw(d, w); let e = b[j];
        assert(c * (t + e) == c * t + e * c) by (nonlinear_arith);
        assert(c * (t + 0) == c * t);
    }
}
pub proof fn lemma_top_pmul(a: PM, b: PM, v: int, w: int) requires canon(a), canon(b), pw(a, v), pw(b, w) ensures tpw(pmul(a, b), v + w) == tpw(a, v) * tpw(b, w) decreases a.len() {
    broadcast use poly_cf;
    let t = tpw(b, w);
    if a.len() == 0 { assert(0 * t == 0); }
    else {
        let k = a.dom().choose(); assert(a.contains_key(k)); let d = a.remove(k);
        lemma_peel(a, k);
        assert(pw(d, v)) by { assert forall|i: MV| #[trigger] d.contains_key(i) implies i == mk(i.x, i.y, 0) && i.x >= 0 && i.y >= 0 && 2 * i.x + 3 * i.y <= v by { assert(a.contains_key(i)); } }
        lemma_top_pmul(d, b, v, w);
        lemma_canon_pmul(d, b);
        lemma_top_padd(pmul(d, b), pscale(b, k, a[k]), v + w);
        lemma_top_pscale(b, k, a[k], v + w - wt(k));
        lemma_top_padd(d, mono(k, a[k]), v); lemma_top_mono(k, a[k], v);
        let c = a[k]; let s = tpw(d, v);
        if wt(k) < v { lemma_top_low(b, w, v + w - wt(k)); assert(c * 0 == 0); }
        assert((s + c) * t == s * t + c * t) by (nonlinear_arith);
        assert((s + 0) * t == s * t);
    }
}
pub proof fn lemma_top_ppow(a: PM, w: int, n: int) requires canon(a), pw(a, w), n >= 0 ensures tpw(ppow(a, n), w * n) == pow(tpw(a, w), n) decreases n {
    if n == 0 { lemma_top_mono(m1(), 1, 0); assert(w * 0 == 0); }
    else {
        lemma_top_ppow(a, w, n - 1); lemma_canon_ppow(a, n - 1); lemma_pw_pow(a, w, n - 1);
        lemma_top_pmul(a, ppow(a, n - 1), w, w * (n - 1));
        assert(w + w * (n - 1) == w * n) by (nonlinear_arith);
    }
}
pub open spec fn topof(f: spec_fn(MV, int) -> PM, w: int) -> spec_fn(MV, int) -> int { |k: MV, c: int| tpw(f(k, c), w) }
pub proof fn lemma_top_psum(m: PM, f: spec_fn(MV, int) -> PM, w: int) requires forall|k: MV, c: int| canon(#[trigger] f(k, c)) ensures tpw(psum(m, f), w) == isum(m, topof(f, w)) decreases m.len() {
    if m.len() != 0 {
        let k = m.dom().choose(); let d = m.remove(k);
        lemma_top_psum(d, f, w);
        lemma_psum_canon(d, f);
        lemma_top_padd(psum(d, f), f(k, m[k]), w);
    }
}
pub proof fn lemma_top_cubic(a: int, b: int) ensures tpw(cubic(a, b), 6) == 1 {
    broadcast use poly_cf;
    let (u, v, z) = (mono(mk(3, 0, 0), 1), mono(mk(1, 0, 0), a), mono(m1(), b));
    lemma_top_padd(padd(u, v), z, 6); lemma_top_padd(u, v, 6);
    lemma_top_mono(mk(3, 0, 0), 1, 6); lemma_top_mono(mk(1, 0, 0), a, 6); lemma_top_mono(m1(), b, 6);
}
/// the curve equation keeps the top coefficient
pub proof fn lemma_top_pred(m: PM, a: int, b: int, w: int) requires canon(m), pw(m, w) ensures tpw(pred(m, a, b), w) == tpw(m, w) {
    broadcast use poly_cf;
    let f = redf(a, b);
    lemma_top_psum(m, f, w);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies topof(f, w)(k, m[k]) == topf(w)(k, m[k]) by {
        let c = m[k];
        if k.y >= 2 {
            let h = k.y / 2; let g = cubic(a, b);
            lemma_cubic(a, b); lemma_pw_cubic(a, b); lemma_top_cubic(a, b); lemma_canon_ppow(g, h); lemma_pw_pow(g, 6, h);
            lemma_top_ppow(g, 6, h); lemma_pow_one(h);
            assert(wt(ylow(k)) == wt(k) - 6 * h);
            lemma_top_pscale(ppow(g, h), ylow(k), c, w - wt(ylow(k)));
            if wt(k) < w { lemma_top_low(ppow(g, h), 6 * h, w - wt(ylow(k))); assert(c * 0 == 0); } else { assert(w - wt(ylow(k)) == 6 * h); assert(c * 1 == c); }
        } else { lemma_top_mono(k, c, w); }
    }
    lemma_isum_cong(m, topof(f, w), topf(w));
}
pub proof fn lemma_pow_one(n: int) ensures pow(1, n) == 1 decreases n { if n > 0 { lemma_pow_one(n - 1); assert(1 * pow(1, n - 1) == 1); } }
/// with y-exponent e throughout, the top coefficient is one coefficient
pub proof fn lemma_top_cf(m: PM, e: int, x: int) requires canon(m), yeq(m, e), pw(m, 2 * x + 3 * e) ensures tpw(m, 2 * x + 3 * e) == cf(m, mk(x, e, 0)) decreases m.len() {
    broadcast use poly_cf;
    let w = 2 * x + 3 * e;
    if m.len() == 0 { lemma_len0(m); }
    else {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        lemma_peel(m, k);
        assert forall|i: MV| #[trigger] d.contains_key(i) implies i == mk(i.x, i.y, 0) && i.x >= 0 && i.y == e && 2 * i.x + 3 * i.y <= w by { assert(m.contains_key(i)); }
        lemma_top_cf(d, e, x);
        lemma_top_padd(d, mono(k, m[k]), w); lemma_top_mono(k, m[k], w);
        assert(cf(m, mk(x, e, 0)) == cf(d, mk(x, e, 0)) + cf(mono(k, m[k]), mk(x, e, 0)));
        assert(k == mk(k.x, e, 0));
        if wt(k) == w { assert(k.x == x); } else { assert(k != mk(x, e, 0)); }
    }
}
pub proof fn lemma_top_side(e: PM, f: PM, k: int, v: int, w: int) requires canon(e), canon(f), k >= 0, pw(e, v), pw(f, w) ensures tpw(pmul(e, ppow(f, k)), v + w * k) == tpw(e, v) * pow(tpw(f, w), k) {
    lemma_top_ppow(f, w, k); lemma_canon_ppow(f, k); lemma_pw_pow(f, w, k); lemma_top_pmul(e, ppow(f, k), v, w * k);
}
pub proof fn lemma_psi4_top(a: int, b: int) ensures tpw(pscale(psi4g(a, b), yk(1), 4), 15) == 4, tpw(psi3(a, b), 8) == 3 {
    broadcast use poly_cf;
    let (t0, t1, t2, t3, t4, t5) = (mono(xk(6), 1), mono(xk(4), 5 * a), mono(xk(3), 20 * b), mono(xk(2), -5 * (a * a)), mono(xk(1), -4 * a * b), mono(m1(), -8 * (b * b) - a * a * a));
    let s1 = padd(t0, t1); let s2 = padd(s1, t2); let s3 = padd(s2, t3); let s4 = padd(s3, t4);
    lemma_top_padd(s4, t5, 12); lemma_top_padd(s3, t4, 12); lemma_top_padd(s2, t3, 12); lemma_top_padd(s1, t2, 12); lemma_top_padd(t0, t1, 12);
    lemma_top_mono(xk(6), 1, 12); lemma_top_mono(xk(4), 5 * a, 12); lemma_top_mono(xk(3), 20 * b, 12); lemma_top_mono(xk(2), -5 * (a * a), 12); lemma_top_mono(xk(1), -4 * a * b, 12); lemma_top_mono(m1(), -8 * (b * b) - a * a * a, 12);
    lemma_top_pscale(psi4g(a, b), yk(1), 4, 12);
    let (u0, u1, u2, u3) = (mono(xk(4), 3), mono(xk(2), 6 * a), mono(xk(1), 12 * b), mono(m1(), -(a * a)));
    lemma_top_padd(padd(padd(u0, u1), u2), u3, 8); lemma_top_padd(padd(u0, u1), u2, 8); lemma_top_padd(u0, u1, 8);
    lemma_top_mono(xk(4), 3, 8); lemma_top_mono(xk(2), 6 * a, 8); lemma_top_mono(xk(1), 12 * b, 8); lemma_top_mono(m1(), -(a * a), 8);
}
pub proof fn lemma_pow2_3(m: int) ensures pow(m, 2) == m * m, pow(m, 3) == m * m * m { reveal_with_fuel(pow, 4); assert(m * (m * (m * 1)) == m * m * m) by (nonlinear_arith); }
pub proof fn lemma_top_id(m: int) ensures (m + 2) * ((m - 1) * (m - 1)) - (m - 2) * ((m + 1) * (m + 1)) == 4, (m + 2) * (m * m * m) - (m - 1) * ((m + 1) * (m + 1) * (m + 1)) == 2 * m + 1, m * m - (m + 1) * (m - 1) == 1 {
    assert((m + 2) * ((m - 1) * (m - 1)) - (m - 2) * ((m + 1) * (m + 1)) == 4) by (nonlinear_arith);
    assert((m + 2) * (m * m * m) - (m - 1) * ((m + 1) * (m + 1) * (m + 1)) == 2 * m + 1) by (nonlinear_arith);
    assert(m * m - (m + 1) * (m - 1) == 1) by (nonlinear_arith);
}
/// the division polynomial psi_n has top coefficient n
pub proof fn lemma_psi_top(a: int, b: int, n: int) requires n >= 0 ensures tpw(psip(a, b, n), n * n - 1) == n decreases n {
    broadcast use poly_cf;
    if n == 0 { lemma_isum_empty(topf(-1)); assert(n * n - 1 == -1) by (nonlinear_arith) requires n == 0; }
    else if n == 1 { lemma_top_mono(m1(), 1, 0); assert(n * n - 1 == 0) by (nonlinear_arith) requires n == 1; }
    else if n == 2 { lemma_top_mono(yk(1), 2, 3); assert(n * n - 1 == 3) by (nonlinear_arith) requires n == 2; }
    else if n == 3 { lemma_psi4_top(a, b); assert(n * n - 1 == 8) by (nonlinear_arith) requires n == 3; }
    else if n == 4 { lemma_psi4_top(a, b); assert(n * n - 1 == 15) by (nonlinear_arith) requires n == 4; }
    else if n % 2 == 1 {
        let m = (n - 1) / 2;
        let (e, f, g, h) = (psip(a, b, m + 2), psip(a, b, m), psip(a, b, m - 1), psip(a, b, m + 1));
        lemma_psi_top(a, b, m + 2); lemma_psi_top(a, b, m); lemma_psi_top(a, b, m - 1); lemma_psi_top(a, b, m + 1);
        lemma_psip(a, b, m + 2); lemma_psip(a, b, m); lemma_psip(a, b, m - 1); lemma_psip(a, b, m + 1);
        lemma_sqs3(m); lemma_top_id(m); lemma_pow2_3(m); lemma_pow2_3(m + 1);
        let w = n * n - 1; let s = m * m;
        assert(w == 4 * s + 4 * m) by { assert(n == 2 * m + 1); }
        assert((m + 2) * (m + 2) - 1 + (m * m - 1) * 3 == w && (m - 1) * (m - 1) - 1 + ((m + 1) * (m + 1) - 1) * 3 == w);
        lemma_top_side(e, f, 3, (m + 2) * (m + 2) - 1, m * m - 1); lemma_top_side(g, h, 3, (m - 1) * (m - 1) - 1, (m + 1) * (m + 1) - 1);
        lemma_w_side(e, f, 3, (m + 2) * (m + 2) - 1, m * m - 1); lemma_w_side(g, h, 3, (m - 1) * (m - 1) - 1, (m + 1) * (m + 1) - 1);
        lemma_top_padd(pmul(e, ppow(f, 3)), pmul(g, ppow(h, 3)), w);
        lemma_pw_add(pmul(e, ppow(f, 3)), pmul(g, ppow(h, 3)), w);
        lemma_top_pred(dif(e, f, g, h, 3), a, b, w);
    } else {
        let m = n / 2;
        let q = psip(a, b, m);
        lemma_psi_top(a, b, m); lemma_psip(a, b, m); lemma_psip(a, b, 2 * m);
        assert forall|k: int| 0 <= k <= m + 2 implies tpw(#[trigger] psip(a, b, k), k * k - 1) == k by { lemma_psi_top(a, b, k); }
        lemma_omgn_top(a, b, m);
        lemma_psi_recurrence_even(a, b, m);
        let s = m * m;
        assert(n * n - 1 == 4 * s - 1) by (nonlinear_arith) requires n == 2 * m, s == m * m;
        lemma_top_pmul(q, omgn(a, b, m), s - 1, 3 * s + 3);
        lemma_top_pscale(psip(a, b, n), yk(1), 2, 4 * s - 1);
        assert(n == 2 * m);
    }
}
pub proof fn lemma_omgn_top(a: int, b: int, m: int) requires m >= 2, forall|k: int| 0 <= k <= m + 2 ==> tpw(#[trigger] psip(a, b, k), k * k - 1) == k ensures tpw(omgn(a, b, m), 3 * (m * m) + 3) == 4, pw(omgn(a, b, m), 3 * (m * m) + 3), canon(omgn(a, b, m)) {
    broadcast use poly_cf;
    let (e, f, g, h) = (psip(a, b, m + 2), psip(a, b, m - 1), psip(a, b, m - 2), psip(a, b, m + 1));
    lemma_psip(a, b, m + 2); lemma_psip(a, b, m - 1); lemma_psip(a, b, m - 2); lemma_psip(a, b, m + 1);
    lemma_sqs3(m); lemma_top_id(m); lemma_pow2_3(m - 1); lemma_pow2_3(m + 1);
    let w = 3 * (m * m) + 3;
    assert((m + 2) * (m + 2) - 1 + ((m - 1) * (m - 1) - 1) * 2 == w && (m - 2) * (m - 2) - 1 + ((m + 1) * (m + 1) - 1) * 2 == w);
    lemma_top_side(e, f, 2, (m + 2) * (m + 2) - 1, (m - 1) * (m - 1) - 1); lemma_top_side(g, h, 2, (m - 2) * (m - 2) - 1, (m + 1) * (m + 1) - 1);
    lemma_w_side(e, f, 2, (m + 2) * (m + 2) - 1, (m - 1) * (m - 1) - 1); lemma_w_side(g, h, 2, (m - 2) * (m - 2) - 1, (m + 1) * (m + 1) - 1);
    lemma_top_padd(pmul(e, ppow(f, 2)), pmul(g, ppow(h, 2)), w);
    lemma_pw_add(pmul(e, ppow(f, 2)), pmul(g, ppow(h, 2)), w);
}
/// phi_n and omega_n have top coefficient 1
pub proof fn lemma_phi_top(a: int, b: int, n: int) requires n >= 1 ensures tpw(phip(a, b, n), 2 * n * n) == 1, pw(phip(a, b, n), 2 * n * n) {
    broadcast use poly_cf;
    let (e, f, g) = (psip(a, b, n), psip(a, b, n + 1), psip(a, b, n - 1));
    lemma_psip(a, b, n); lemma_psip(a, b, n + 1); lemma_psip(a, b, n - 1);
    lemma_psi_top(a, b, n); lemma_psi_top(a, b, n + 1); lemma_psi_top(a, b, n - 1);
    let s = n * n; let w = 2 * s;
    assert(2 * n * n == w) by (nonlinear_arith) requires s == n * n, w == 2 * s;
    assert((n + 1) * (n + 1) == s + 2 * n + 1 && (n - 1) * (n - 1) == s - 2 * n + 1) by (nonlinear_arith) requires s == n * n;
    lemma_top_id(n); lemma_pow2_3(n);
    lemma_top_mono(xk(1), 1, 2);
    assert(pw(mono(xk(1), 1), 2)); assert(canon(mono(xk(1), 1))); lemma_top_side(mono(xk(1), 1), e, 2, 2, s - 1); lemma_w_side(mono(xk(1), 1), e, 2, 2, s - 1);
    lemma_top_pmul(f, g, s + 2 * n, s - 2 * n); lemma_pw_mul(f, g, s + 2 * n, s - 2 * n);
    lemma_top_padd(pmul(mono(xk(1), 1), ppow(e, 2)), pmul(f, g), w);
    lemma_pw_add(pmul(mono(xk(1), 1), ppow(e, 2)), pmul(f, g), w);
    lemma_top_pred(psub(pmul(mono(xk(1), 1), ppow(e, 2)), pmul(f, g)), a, b, w);
    lemma_pw_pred(psub(pmul(mono(xk(1), 1), ppow(e, 2)), pmul(f, g)), a, b, w);
}
pub proof fn lemma_omg_top(a: int, b: int, n: int) requires n >= 1 ensures tpw(omgp(a, b, n), 3 * n * n) == 1, pw(omgp(a, b, n), 3 * n * n) {
    broadcast use poly_cf;
    let s = n * n;
    assert(3 * n * n == 3 * s) by (nonlinear_arith) requires s == n * n;
    if n == 1 { lemma_top_mono(yk(1), 1, 3); assert(s == 1) by (nonlinear_arith) requires s == n * n, n == 1; }
    else {
        assert forall|k: int| 0 <= k <= n + 2 implies tpw(#[trigger] psip(a, b, k), k * k - 1) == k by { lemma_psi_top(a, b, k); }
        lemma_omgn_top(a, b, n); lemma_omega(a, b, n);
        lemma_top_pscale(omgp(a, b, n), yk(1), 4, 3 * s);
    }
}
