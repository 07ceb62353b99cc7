// Reduction by the curve equation, truncation in q, remainder and gcd modulo p.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
// ---- reduction by y^2 = x^3 + a x + b ----
pub open spec fn cubic(a: int, b: int) -> PM { padd(padd(mono(mk(3, 0, 0), 1), mono(mk(1, 0, 0), a)), mono(m1(), b)) }
pub open spec fn ylow(k: MV) -> MV { MV { y: k.y - 2 * (k.y / 2), ..k } }
pub open spec fn redf(a: int, b: int) -> spec_fn(MV, int) -> PM { |k: MV, c: int| if k.y >= 2 { pscale(ppow(cubic(a, b), k.y / 2), ylow(k), c) } else { mono(k, c) } }
pub open spec fn redf1(a: int, b: int, k: MV, c: int) -> PM { redf(a, b)(k, c) }
pub open spec fn pred(m: PM, a: int, b: int) -> PM { psum(m, redf(a, b)) }
pub open spec fn redfit(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y >= 2 ==> abs1(k.x) + 3 * (k.y / 2) <= mx() }
pub open spec fn yle1(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y <= 1 }
pub open spec fn y0(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y == 0 }
pub proof fn lemma_cubic(a: int, b: int) ensures canon(cubic(a, b)), powbnd(cubic(a, b), 3), nonneg(cubic(a, b)), y0(cubic(a, b)) {
    broadcast use poly_cf;
    let c = cubic(a, b);
    assert forall|k: MV| #[trigger] c.contains_key(k) implies k == mk(3, 0, 0) || k == mk(1, 0, 0) || k == m1() by { assert(cf(c, k) != 0); }
}
pub proof fn lemma_y0_pow(a: PM, n: int) requires y0(a) ensures y0(ppow(a, n)) decreases n {
    if n > 0 {
        lemma_y0_pow(a, n - 1);
        assert forall|i: MV| #[trigger] ppow(a, n).contains_key(i) implies i.y == 0 by { let (j, k) = lemma_keys_pmul(a, ppow(a, n - 1), i); }
    }
}
/// the powers of the cubic fit
pub proof fn lemma_cubic_fit(a: int, b: int, h: int, x: int) requires h >= 1, abs1(x) + 3 * h <= mx()
    ensures powfit(cubic(a, b), h), powbnd(ppow(cubic(a, b), h), 3 * h), forall|k: MV, c: int| k.x == x && (k.y == 0 || k.y == 1) && i32ok(k.q) && k.vn <= 1 ==> mulfit(#[trigger] mono(k, c), ppow(cubic(a, b), h))
{
    lemma_cubic(a, b);
    assert(3 <= mx() / h) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(mx(), h); vstd::arithmetic::div_mod::lemma_mod_bound(mx(), h); let q = mx() / h; assert(q >= 3) by (nonlinear_arith) requires mx() == h * q + mx() % h, 0 <= mx() % h < h, 3 * h <= mx(), h >= 1; }
    lemma_bnd_up(cubic(a, b), 3, mx() / h);
    lemma_powbnd_pow(cubic(a, b), 3, h);
    lemma_y0_pow(cubic(a, b), h);
    let g = ppow(cubic(a, b), h);
    assert forall|k: MV, c: int| k.x == x && (k.y == 0 || k.y == 1) && i32ok(k.q) && k.vn <= 1 implies mulfit(#[trigger] mono(k, c), g) by {
        assert forall|i: MV, j: MV| #[trigger] mono(k, c).contains_key(i) && #[trigger] g.contains_key(j) implies mfit(mmul(i, j)) by { lemma_q0_pow(cubic(a, b), h); }
    }
}
pub open spec fn q0(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.q == 0 }
pub proof fn lemma_q0_cubic(a: int, b: int) ensures q0(cubic(a, b)) {
    broadcast use poly_cf;
    let c = cubic(a, b);
    assert forall|k: MV| #[trigger] c.contains_key(k) implies k.q == 0 by { assert(cf(c, k) != 0); }
}
pub proof fn lemma_q0_pow_gen(a: PM, n: int) requires q0(a) ensures q0(ppow(a, n)) decreases n {
    if n > 0 {
        lemma_q0_pow_gen(a, n - 1);
        assert forall|i: MV| #[trigger] ppow(a, n).contains_key(i) implies i.q == 0 by { let (j, k) = lemma_keys_pmul(a, ppow(a, n - 1), i); }
    }
}
pub proof fn lemma_q0_pow(c: PM, h: int) requires exists|a: int, b: int| c == #[trigger] cubic(a, b) ensures q0(ppow(c, h)) {
    let (a, b) = choose|a: int, b: int| c == #[trigger] cubic(a, b);
    lemma_q0_cubic(a, b); lemma_q0_pow_gen(c, h);
}
/// dividing a single term by y^n
pub proof fn lemma_pdivm_mono(k: MV, c: int, d: MV) ensures pdivm(mono(k, c), d, 1) == mono(mdiv(k, d), c) {
    broadcast use poly_cf;
    assert forall|i: MV| cf(pdivm(mono(k, c), d, 1), i) == cf(mono(mdiv(k, d), c), i) by {
        lemma_cf_pdivm(mono(k, c), d, 1, i);
        assert(mmul(i, d) == k <==> i == mdiv(k, d));
    }
    lemma_ext(pdivm(mono(k, c), d, 1), mono(mdiv(k, d), c));
}
pub proof fn lemma_redf_lin(a: int, b: int) ensures plin(redf(a, b)) {
    broadcast use poly_cf;
    let f = redf(a, b);
    assert forall|k: MV, c: int, d: int| #[trigger] paddc(f, k, c, d) by {
        if k.y >= 2 { lemma_scale_addc(ppow(cubic(a, b), k.y / 2), ylow(k), c, d); } else { lemma_ext(padd(mono(k, c), mono(k, d)), mono(k, c + d)); }
    }
    assert forall|k: MV| #[trigger] f(k, 0) == p0() by { lemma_scale_0(ppow(cubic(a, b), k.y / 2), ylow(k)); }
}
/// already reduced polynomials stay
pub proof fn lemma_pred_id(m: PM, a: int, b: int) requires canon(m), yle1(m) ensures pred(m, a, b) == m decreases m.len() {
    broadcast use poly_cf;
    if m.len() == 0 { lemma_len0(m); }
    else {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        lemma_peel(m, k);
        assert(yle1(d)) by { assert forall|i: MV| #[trigger] d.contains_key(i) implies i.y <= 1 by { assert(m.contains_key(i)); } }
        lemma_pred_id(d, a, b);
    }
}
/// C14: y-degree at most 1
pub proof fn lemma_pred_ydeg(m: PM, a: int, b: int) ensures yle1(pred(m, a, b)), canon(pred(m, a, b)) {
    lemma_psum_canon(m, redf(a, b));
    assert forall|i: MV| #[trigger] pred(m, a, b).contains_key(i) implies i.y <= 1 by {
        lemma_keys_psum(m, redf(a, b), i);
        let k = choose|k: MV| #[trigger] m.contains_key(k) && redf(a, b)(k, m[k]).contains_key(i);
        if k.y >= 2 {
            lemma_keys_pscale(ppow(cubic(a, b), k.y / 2), ylow(k), m[k]);
            lemma_cubic(a, b); lemma_y0_pow(cubic(a, b), k.y / 2);
        }
    }
}
pub open spec fn cub(a: int, b: int, x: int) -> int { x * x * x + a * x + b }
pub proof fn lemma_ev_cubic(a: int, b: int, x: int, y: int) ensures ev(cubic(a, b), x, y) == cub(a, b, x) {
    broadcast use poly_cf;
    lemma_ev_mono(mk(3, 0, 0), 1, x, y); lemma_ev_mono(mk(1, 0, 0), a, x, y); lemma_ev_mono(m1(), b, x, y);
    lemma_ev_padd(mono(mk(3, 0, 0), 1), mono(mk(1, 0, 0), a), x, y);
    lemma_ev_padd(padd(mono(mk(3, 0, 0), 1), mono(mk(1, 0, 0), a)), mono(m1(), b), x, y);
    lemma_pow3(x); lemma_pow1(x);
    let c3 = x * x * x;
    assert(pow(y, 0) == 1); assert(pow(x, 0) == 1);
    assert(c3 * 1 == c3); assert(x * 1 == x);
    assert(mval(mk(3, 0, 0), x, y) == c3); assert(mval(mk(1, 0, 0), x, y) == x); assert(mval(m1(), x, y) == 1);
    assert(x * a == a * x) by (nonlinear_arith);
    assert(ev(mono(mk(3, 0, 0), 1), x, y) == c3); assert(ev(mono(mk(1, 0, 0), a), x, y) == a * x); assert(1 * b == b); assert(ev(mono(m1(), b), x, y) == b);
}
proof fn lemma_pow3(x: int) ensures pow(x, 3) == x * x * x {
    reveal_with_fuel(pow, 5);
    assert(x * (x * (x * 1)) == x * x * x) by (nonlinear_arith);
}
/// value of one reduced term
pub proof fn lemma_redterm_value(k: MV, c: int, a: int, b: int, x: int, y: int) requires k.x >= 0, k.y >= 0
    ensures y * y == cub(a, b, x) ==> ev(redf1(a, b, k, c), x, y) == mval(k, x, y) * c, forall|n: int| n > 0 && #[trigger] cong(y * y, cub(a, b, x), n) ==> cong(ev(redf1(a, b, k, c), x, y), mval(k, x, y) * c, n)
{
    if k.y >= 2 {
        let h = k.y / 2; let e = k.y - 2 * h;
        lemma_cubic(a, b); lemma_canon_ppow(cubic(a, b), h); lemma_nonneg_ppow(cubic(a, b), h);
        lemma_ev_pscale(ppow(cubic(a, b), h), ylow(k), c, x, y);
        lemma_ev_ppow(cubic(a, b), h, x, y);
        lemma_ev_cubic(a, b, x, y);
        lemma_pow_sq(y, h); lemma_pow_add(y, 2 * h, e);
        let (u, v, w, z) = (pow(x, k.x), pow(y, e), pow(y * y, h), pow(cub(a, b, x), h));
        assert(pow(y, k.y) == w * v);
        assert(mval(k, x, y) * c == ((u * v) * c) * w) by (nonlinear_arith) requires mval(k, x, y) == u * (w * v);
        assert forall|n: int| n > 0 && #[trigger] cong(y * y, cub(a, b, x), n) implies cong(ev(redf1(a, b, k, c), x, y), mval(k, x, y) * c, n) by {
            lemma_cong_pow(y * y, cub(a, b, x), h, n);
            lemma_cong_sym(w, z, n);
            lemma_cong_refl((u * v) * c, n);
            lemma_cong_mul((u * v) * c, (u * v) * c, z, w, n);
        }
    } else {
        lemma_ev_mono(k, c, x, y);
        assert forall|n: int| n > 0 && #[trigger] cong(y * y, cub(a, b, x), n) implies cong(ev(redf1(a, b, k, c), x, y), mval(k, x, y) * c, n) by { lemma_cong_refl(mval(k, x, y) * c, n); }
    }
}
/// C14: same value at every point of the curve
pub proof fn lemma_pred_value(m: PM, a: int, b: int, x: int, y: int) requires nonneg(m), y * y == cub(a, b, x) ensures ev(pred(m, a, b), x, y) == ev(m, x, y) {
    lemma_redf_lin(a, b);
    lemma_ev_psum(m, redf(a, b), x, y);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies evof(redf(a, b), x, y)(k, m[k]) == evf(x, y)(k, m[k]) by { lemma_redterm_value(k, m[k], a, b, x, y); }
    lemma_isum_cong(m, evof(redf(a, b), x, y), evf(x, y));
}
pub proof fn lemma_isum_congm(m: PM, f: spec_fn(MV, int) -> int, g: spec_fn(MV, int) -> int, n: int) requires n > 0, forall|k: MV| #[trigger] m.contains_key(k) ==> cong(f(k, m[k]), g(k, m[k]), n) ensures cong(isum(m, f), isum(m, g), n) decreases m.len() {
    if m.len() == 0 { lemma_cong_refl(0, n); }
    else {
        let c = m.dom().choose(); assert(m.contains_key(c)); let d = m.remove(c);
        assert forall|k: MV| #[trigger] d.contains_key(k) implies cong(f(k, d[k]), g(k, d[k]), n) by { assert(m.contains_key(k)); }
        lemma_isum_congm(d, f, g, n);
        lemma_cong_add(isum(d, f), isum(d, g), f(c, m[c]), g(c, m[c]), n);
    }
}
/// C14, modular form: same value modulo p at every point of the curve modulo p
pub proof fn lemma_pred_value_mod(m: PM, a: int, b: int, x: int, y: int, p: int) requires canon(m), nonneg(m), p > 0, cong(y * y, cub(a, b, x), p) ensures cong(ev(pmod(pred(m, a, b), p), x, y), ev(m, x, y), p) {
    lemma_redf_lin(a, b);
    lemma_ev_psum(m, redf(a, b), x, y);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies cong(evof(redf(a, b), x, y)(k, m[k]), evf(x, y)(k, m[k]), p) by { lemma_redterm_value(k, m[k], a, b, x, y); }
    lemma_isum_congm(m, evof(redf(a, b), x, y), evf(x, y), p);
    lemma_psum_canon(m, redf(a, b));
    lemma_ev_pmod(pred(m, a, b), p, x, y);
    lemma_cong_trans(ev(pmod(pred(m, a, b), p), x, y), ev(pred(m, a, b), x, y), ev(m, x, y), p);
}
pub proof fn lemma_ev_pmod(m: PM, p: int, x: int, y: int) requires canon(m), p > 0 ensures cong(ev(pmod(m, p), x, y), ev(m, x, y), p) decreases m.len() {
    broadcast use poly_cf;
    if m.len() == 0 { lemma_len0(m); lemma_pmod_p0(p); lemma_cong_refl(0, p); }
    else {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        lemma_peel(m, k);
        lemma_ev_pmod(d, p, x, y);
        lemma_pmod_step(p0(), m, k, p);
        let (u, v) = (mono(k, m[k] % p), pmod(d, p));
        lemma_padd_0(u); lemma_padd_0(pmod(m, p));
        lemma_ev_padd(u, v, x, y); lemma_ev_mono(k, m[k] % p, x, y);
        lemma_cong_mod(m[k], p); lemma_cong_refl(mval(k, x, y), p);
        lemma_cong_mul(mval(k, x, y), mval(k, x, y), m[k] % p, m[k], p);
        lemma_cong_add(ev(v, x, y), ev(d, x, y), mval(k, x, y) * (m[k] % p), mval(k, x, y) * m[k], p);
    }
}
// ---- truncation in q ----
pub open spec fn ptrunc(m: PM, n: int) -> PM { Map::new(m.dom().filter(|k: MV| k.q <= n), |k: MV| m[k]) }
pub open spec fn qonly(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.x == 0 && k.y == 0 && (k.vn > 0 || (k.vn == 0 && k.vi == 0 && k.vj == 0)) }
pub open spec fn qpos(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.q >= 0 }
pub open spec fn qle(m: PM, n: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.q <= n }
pub broadcast proof fn lemma_cf_ptrunc(m: PM, n: int, k: MV) ensures #[trigger] cf(ptrunc(m, n), k) == if k.q <= n { cf(m, k) } else { 0 } {}
pub broadcast proof fn lemma_canon_ptrunc(m: PM, n: int) requires canon(m) ensures canon(#[trigger] ptrunc(m, n)) {}
pub proof fn lemma_trunc_id(m: PM, n: int) requires qle(m, n) ensures ptrunc(m, n) == m { assert(ptrunc(m, n) =~= m); }
/// truncating a factor does not change the truncated product
pub proof fn lemma_trunc_scale(b: PM, k: MV, c: int, n: int) requires k.q >= 0 ensures ptrunc(pscale(ptrunc(b, n), k, c), n) == ptrunc(pscale(b, k, c), n) {
    broadcast use poly_cf, lemma_cf_ptrunc, lemma_canon_ptrunc;
    let (u, v) = (ptrunc(pscale(ptrunc(b, n), k, c), n), ptrunc(pscale(b, k, c), n));
    assert forall|j: MV| cf(u, j) == cf(v, j) by { }
    lemma_ext(u, v);
}
pub proof fn lemma_trunc_padd(a: PM, b: PM, n: int) ensures ptrunc(padd(a, b), n) == padd(ptrunc(a, n), ptrunc(b, n)) {
    broadcast use poly_cf, lemma_cf_ptrunc, lemma_canon_ptrunc;
    lemma_ext(ptrunc(padd(a, b), n), padd(ptrunc(a, n), ptrunc(b, n)));
}
pub proof fn lemma_trunc_mul_r(a: PM, b: PM, n: int) requires qpos(a) ensures ptrunc(pmul(a, ptrunc(b, n)), n) == ptrunc(pmul(a, b), n) decreases a.len() {
    if a.len() != 0 {
        let k = a.dom().choose(); assert(a.contains_key(k)); let d = a.remove(k);
        assert(qpos(d)) by { assert forall|i: MV| #[trigger] d.contains_key(i) implies i.q >= 0 by { assert(a.contains_key(i)); } }
        lemma_trunc_mul_r(d, b, n);
        lemma_trunc_scale(b, k, a[k], n);
        lemma_trunc_padd(pmul(d, ptrunc(b, n)), pscale(ptrunc(b, n), k, a[k]), n);
        lemma_trunc_padd(pmul(d, b), pscale(b, k, a[k]), n);
    }
}
pub proof fn lemma_trunc_mul(a: PM, b: PM, n: int) requires canon(a), canon(b), qpos(b) ensures ptrunc(pmul(ptrunc(a, n), b), n) == ptrunc(pmul(a, b), n) {
    broadcast use lemma_canon_ptrunc;
    lemma_mul_comm(a, b); lemma_mul_comm(ptrunc(a, n), b); lemma_trunc_mul_r(b, a, n);
}
pub open spec fn qbnd(m: PM, n: int) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.x == 0 && k.y == 0 && k.vn == 0 && k.vi == 0 && k.vj == 0 && 0 <= k.q <= n }
pub proof fn lemma_qbnd_mul(a: PM, b: PM, m: int, n: int) requires qbnd(a, m), qbnd(b, n) ensures qbnd(pmul(a, b), m + n), m + n <= mx() ==> mulfit(a, b) {
    assert forall|i: MV| #[trigger] pmul(a, b).contains_key(i) implies i.x == 0 && i.y == 0 && i.vn == 0 && i.vi == 0 && i.vj == 0 && 0 <= i.q <= m + n by { let (j, k) = lemma_keys_pmul(a, b, i); }
}
pub proof fn lemma_qbnd_pow(a: PM, n: int) requires qbnd(a, mx()), n >= 0 ensures qpos(ppow(a, n)), qonly(ppow(a, n)) decreases n {
    if n > 0 {
        lemma_qbnd_pow(a, n - 1);
        assert forall|i: MV| #[trigger] ppow(a, n).contains_key(i) implies i.q >= 0 && i.x == 0 && i.y == 0 && (i.vn > 0 || (i.vn == 0 && i.vi == 0 && i.vj == 0)) by { let (j, k) = lemma_keys_pmul(a, ppow(a, n - 1), i); }
    }
}
// ---- coefficient of a power of q ----
pub open spec fn qz(k: MV) -> MV { MV { q: 0, ..k } }
pub open spec fn qcf(n: int) -> spec_fn(MV, int) -> PM { |k: MV, c: int| if k.q == n { mono(qz(k), c) } else { p0() } }
pub open spec fn pqcoef(m: PM, n: int) -> PM { psum(m, qcf(n)) }
/// C15: exactly the coefficient of q^n
pub proof fn lemma_cf_pqcoef(m: PM, n: int, k: MV) requires canon(m) ensures cf(pqcoef(m, n), k) == if k.q == 0 { cf(m, MV { q: n, ..k }) } else { 0 } decreases m.len() {
    broadcast use poly_cf;
    if m.len() == 0 { lemma_len0(m); }
    else {
        let c = m.dom().choose(); assert(m.contains_key(c)); let d = m.remove(c);
        lemma_peel(m, c);
        lemma_cf_pqcoef(d, n, k);
        let kn = MV { q: n, ..k };
        assert(k.q == 0 && c.q == n ==> (qz(c) == k <==> c == kn));
    }
}
pub proof fn lemma_mulfit_keys(a: PM, b: PM, c: PM) requires mulfit(a, b), keys_le(c, b) ensures mulfit(a, c) {
    assert forall|j: MV, k: MV| #[trigger] a.contains_key(j) && #[trigger] c.contains_key(k) implies mfit(mmul(j, k)) by { assert(b.contains_key(k)); }
}
