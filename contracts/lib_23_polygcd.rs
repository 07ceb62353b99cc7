// Remainder, monic form and gcd of polynomials modulo p.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
/// every exponent representable, no subscripted variable
pub open spec fn novar(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> mfit(k) && k.vn == 0 && k.vi == 0 && k.vj == 0 }
/// polynomial in x alone, non-negative exponents
pub open spec fn xonly(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y == 0 && k.q == 0 && k.vn == 0 && k.vi == 0 && k.vj == 0 && 0 <= k.x <= 0x7fff_ffff }
/// polynomial in x alone, non-negative exponents of any size
pub open spec fn xo(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y == 0 && k.q == 0 && k.vn == 0 && k.vi == 0 && k.vj == 0 && k.x >= 0 }
pub proof fn lemma_xo(a: PM, b: PM) requires xo(a), xo(b) ensures xo(padd(a, b)), xo(psub(a, b)), xo(pmul(a, b)) {
    broadcast use poly_cf;
    lemma_keys_padd(a, b); lemma_keys_padd(a, pneg(b)); reveal(pneg);
    assert forall|k: MV| #[trigger] pmul(a, b).contains_key(k) implies k.y == 0 && k.q == 0 && k.vn == 0 && k.vi == 0 && k.vj == 0 && k.x >= 0 by { let (i, j) = lemma_keys_pmul(a, b, k); }
}
pub open spec fn lead(m: PM) -> MV { choose|k: MV| is_lead(m, k) }
pub open spec fn lc(m: PM) -> int { m[lead(m)] }
/// a usable divisor: in x alone, leading coefficient invertible modulo p
pub open spec fn good(m: PM, p: int) -> bool { canon(m) && xonly(m) && m != p0() && !divides(p, lc(m)) }
/// equality modulo p
pub open spec fn peq(a: PM, b: PM, p: int) -> bool { pmod(a, p) == pmod(b, p) }
pub proof fn lemma_lead(m: PM) requires m != p0() ensures is_lead(m, lead(m)) decreases m.len() {
    lemma_len0(m);
    let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
    if d.len() == 0 { lemma_len0(d); assert(forall|o: MV| m.contains_key(o) ==> o == k) by { assert forall|o: MV| m.contains_key(o) implies o == k by { if o != k { assert(d.contains_key(o)); } } } assert(is_lead(m, k)); }
    else {
        lemma_len0(d); lemma_lead(d);
        let l = lead(d);
        assert(d.contains_key(l));
        lemma_mcmp_total(l, k, l);
        if mlt(l, k) {
            assert forall|o: MV| #[trigger] m.contains_key(o) implies o == k || mlt(o, k) by { if o != k { assert(d.contains_key(o)); if o != l { lemma_mcmp_total(o, l, k); } } }
            assert(is_lead(m, k));
        } else {
            assert forall|o: MV| #[trigger] m.contains_key(o) implies o == l || mlt(o, l) by { if o != k { assert(d.contains_key(o)); } }
            assert(is_lead(m, l));
        }
    }
}
pub proof fn lemma_lead_is(m: PM, k: MV) requires is_lead(m, k) ensures lead(m) == k, m != p0() { assert(m.contains_key(k)); lemma_lead(m); lemma_mcmp_total(k, lead(m), k); }
pub proof fn lemma_mlt_mul(a: MV, b: MV, k: MV) ensures mlt(mmul(a, k), mmul(b, k)) == mlt(a, b) {}
/// what remains to be divided shrinks: measures of the leading monomial
pub open spec fn mea(m: PM, i: int) -> int { if m == p0() { 0 } else { let k = lead(m); (if i == 0 { k.x } else if i == 1 { k.y } else { k.q }) + 0x8000_0001 } }
/// one step of the division algorithm: (r - q * other) mod p, q = c * t, t * lead(other) = lead(r)
pub open spec fn divstep(r: PM, other: PM, t: MV, c: int, p: int) -> PM { pmod(psub(r, pmod(pscale(other, t, c % p), p)), p) }
pub proof fn lemma_divstep(r: PM, other: PM, t: MV, c: int, inv: int, p: int)
    requires is_prime_spec(p), canon(r), novar(r), r != p0(), good(other, p), lead(r).x >= lead(other).x,
        t == mdiv(lead(r), lead(other)), c == r[lead(r)] * inv, cong(lc(other) * inv, 1, p)
    ensures novar(divstep(r, other, t, c, p)), canon(divstep(r, other, t, c, p)), mulfit(mono(t, c % p), other), reduced(divstep(r, other, t, c, p), p),
        divstep(r, other, t, c, p) != p0() ==> mlt(lead(divstep(r, other, t, c, p)), lead(r)),
        xonly(r) ==> xonly(divstep(r, other, t, c, p)),
        forall|k: MV| #[trigger] divstep(r, other, t, c, p).contains_key(k) ==> mlt(k, lead(r)),
        xnonneg(r) ==> xnonneg(divstep(r, other, t, c, p))
{
    broadcast use poly_cf;
    let (l, o) = (lead(r), lead(other));
    lemma_lead(r); lemma_lead(other);
    assert(r.contains_key(l)); assert(other.contains_key(o));
    let qc = c % p; let s = pscale(other, t, qc); let d = pmod(s, p); let n = divstep(r, other, t, c, p);
    assert(t.vn == 0 && t.vi == 0 && t.vj == 0 && t.x >= 0 && t.y == l.y && t.q == l.q);
    assert(mulfit(mono(t, qc), other)) by { assert forall|i: MV, j: MV| #[trigger] mono(t, qc).contains_key(i) && #[trigger] other.contains_key(j) implies mfit(mmul(i, j)) by { assert(i == t); assert(j == o || mlt(j, o)); } }
    // the leading term cancels
    assert(mdiv(l, t) == o);
    assert(cf(s, l) == qc * lc(other));
    lemma_cong_mod(c, p); lemma_cong_refl(lc(other), p);
    lemma_cong_mul(qc, c, lc(other), lc(other), p);
    let (rc, oc) = (r[l], lc(other));
    assert(c * oc == rc * (oc * inv)) by (nonlinear_arith) requires c == rc * inv;
    lemma_cong_refl(rc, p); lemma_cong_mul(rc, rc, oc * inv, 1, p);
    assert(rc * 1 == rc);
    lemma_cong_trans(qc * oc, c * oc, rc, p);
    lemma_cong_mod(qc * oc, p);
    lemma_cong_trans((qc * oc) % p, qc * oc, rc, p);
    lemma_cong_sym((qc * oc) % p, rc, p);
    lemma_cong_refl(0, p);
    assert(cong(rc - (qc * oc) % p, 0, p));
    lemma_cong_mod_eq(rc - (qc * oc) % p, 0, p);
    vstd::arithmetic::div_mod::lemma_small_mod(0, p as nat);
    assert(cf(n, l) == 0);
    lemma_pmod_keys(psub(r, d), p);
    assert forall|k: MV| #[trigger] n.contains_key(k) implies mlt(k, l) && mfit(k) && k.vn == 0 && k.vi == 0 && k.vj == 0 && (xnonneg(r) ==> k.x >= 0) && (xonly(r) ==> k.y == 0 && k.q == 0 && 0 <= k.x <= 0x7fff_ffff) by {
        assert(cf(n, k) != 0);
        assert(k != l);
        if !r.contains_key(k) {
            assert(cf(psub(r, d), k) == 0 - cf(d, k));
            if cf(d, k) == 0 { }
            assert(cf(d, k) != 0);
            assert(cf(s, k) != 0);
            assert(s.contains_key(k));
            lemma_keys_pscale(other, t, qc);
            let j = mdiv(k, t);
            assert(other.contains_key(j));
            assert(mmul(j, t) == k); assert(mmul(o, t) == l);
            assert(j == o || mlt(j, o));
            lemma_mlt_mul(j, o, t);
        }
    }
    if n != p0() { lemma_lead(n); }
}
/// invariant of the remainder loop: r + Q * other is the dividend modulo p
pub open spec fn reminv(s: PM, r: PM, other: PM, q: PM, p: int) -> bool { canon(q) && (xonly(s) && xonly(other) ==> xo(q)) && peq(s, padd(r, pmul(q, other)), p) }
pub proof fn lemma_reminv_init(s: PM, other: PM, p: int) requires canon(s), p > 0 ensures reminv(s, s, other, p0(), p) { lemma_mul_p0(other); lemma_padd_0(s); }
pub proof fn lemma_reminv_step(s: PM, r: PM, other: PM, q: PM, t: MV, c: int, p: int) requires p > 0, canon(r), canon(other), reminv(s, r, other, q, p), xonly(s) && xonly(other) ==> xo(mono(t, c % p))
    ensures reminv(s, divstep(r, other, t, c, p), other, padd(q, mono(t, c % p)), p)
{
    broadcast use poly_cf;
    let qc = c % p; let sc = pscale(other, t, qc); let d = pmod(sc, p); let n = divstep(r, other, t, c, p);
    let qo = pmul(q, other);
    lemma_canon_pmul(q, other);
    lemma_mul_padd_l(q, mono(t, qc), other); lemma_mul_mono_l(t, qc, other);
    let rhs = pmul(padd(q, mono(t, qc)), other);
    if xonly(s) && xonly(other) { lemma_xo(q, mono(t, qc)); }
    assert(rhs == padd(qo, sc));
    lemma_pmod_idem(psub(r, d), p); lemma_pmod_idem(sc, p);
    lemma_pmod_psub2(r, r, d, sc, p);
    assert(peq(n, psub(r, sc), p));
    lemma_pmod_padd2(n, psub(r, sc), rhs, rhs, p);
    lemma_ext(padd(psub(r, sc), padd(qo, sc)), padd(r, qo));
}
pub proof fn lemma_reminv_last(s: PM, r: PM, other: PM, q: PM, p: int) requires p > 0, canon(r), canon(other), reminv(s, r, other, q, p) ensures reminv(s, pmod(r, p), other, q, p) {
    lemma_pmod_idem(r, p);
    lemma_pmod_padd2(pmod(r, p), r, pmul(q, other), pmul(q, other), p);
}
/// C11: r is the remainder of s by other modulo p
pub open spec fn is_rem(s: PM, r: PM, other: PM, p: int) -> bool {
    canon(r) && reduced(r, p) && (exists|q: PM| #[trigger] reminv(s, r, other, q, p)) && (forall|k: MV| #[trigger] r.contains_key(k) ==> k.x < lead(other).x) && novar(r) && (xonly(s) ==> xonly(r))
}
/// with a constant divisor the remainder is zero
pub proof fn lemma_rem_const(s: PM, r: PM, other: PM, p: int) requires is_rem(s, r, other, p), xnonneg(r), lead(other).x == 0 ensures r == p0() {
    assert forall|k: MV| !r.contains_key(k) by { if r.contains_key(k) { assert(k.x < 0); } }
    assert(r =~= p0());
}
// ---- gcd ----
/// a is a multiple of g modulo p
pub open spec fn pdividesw(g: PM, a: PM, q: PM, p: int) -> bool { canon(q) && xo(q) && peq(a, pmul(q, g), p) }
pub open spec fn pdivides(g: PM, a: PM, p: int) -> bool { exists|q: PM| #[trigger] pdividesw(g, a, q, p) }
pub open spec fn pcombw(g: PM, a: PM, b: PM, u: PM, v: PM, p: int) -> bool { canon(u) && canon(v) && xo(u) && xo(v) && peq(g, padd(pmul(u, a), pmul(v, b)), p) }
/// g is a combination of a and b modulo p
pub open spec fn pcomb(g: PM, a: PM, b: PM, p: int) -> bool { exists|u: PM, v: PM| #[trigger] pcombw(g, a, b, u, v, p) }
pub open spec fn monic(g: PM) -> bool { canon(g) && xonly(g) && g != p0() && lc(g) == 1 }
pub open spec fn is_gcd(g: PM, a: PM, b: PM, p: int) -> bool { monic(g) && reduced(g, p) && pdivides(g, a, p) && pdivides(g, b, p) && pcomb(g, a, b, p) }
pub proof fn lemma_gcd_sym(g: PM, a: PM, b: PM, p: int) requires is_gcd(g, a, b, p) ensures is_gcd(g, b, a, p) {
    let (u, v) = choose|u: PM, v: PM| #[trigger] pcombw(g, a, b, u, v, p);
    lemma_padd_comm(pmul(u, a), pmul(v, b));
    assert(pcombw(g, b, a, v, u, p));
}
/// gcd(a, b) = gcd(b, r) for a = r + q b
pub proof fn lemma_gcd_rem(g: PM, a: PM, b: PM, r: PM, p: int) requires p > 0, canon(a), canon(b), canon(r), xonly(a), xonly(b), is_rem(a, r, b, p), is_gcd(g, b, r, p) ensures is_gcd(g, a, b, p) {
    broadcast use poly_cf;
    let q = choose|q: PM| #[trigger] reminv(a, r, b, q, p);
    let s = choose|s: PM| #[trigger] pdividesw(g, b, s, p);
    let t = choose|t: PM| #[trigger] pdividesw(g, r, t, p);
    // a = r + q b = (t + q s) g
    lemma_canon_pmul(s, g); lemma_canon_pmul(q, s); lemma_canon_pmul(q, b); lemma_canon_pmul(t, g);
    lemma_pmod_mul_r(q, b, pmul(s, g), p);
    lemma_mul_assoc(q, s, g);
    lemma_pmod_padd2(r, pmul(t, g), pmul(q, b), pmul(pmul(q, s), g), p);
    lemma_mul_padd_l(t, pmul(q, s), g);
    lemma_xo(q, s); lemma_xo(t, pmul(q, s));
    assert(pdividesw(g, a, padd(t, pmul(q, s)), p));
    // g = u b + v r = v a + (u - v q) b
    let (u, v) = choose|u: PM, v: PM| #[trigger] pcombw(g, b, r, u, v, p);
    lemma_canon_pmul(v, q); lemma_canon_pmul(u, b); lemma_canon_pmul(v, r); lemma_canon_pmul(v, a);
    let w = psub(u, pmul(v, q));
    lemma_xo(v, q); lemma_xo(u, pmul(v, q));
    lemma_mul_psub_l(u, pmul(v, q), b);
    lemma_mul_assoc(v, q, b);
    lemma_mul_padd_r(v, r, pmul(q, b));
    lemma_pmod_mul_r(v, a, padd(r, pmul(q, b)), p);
    let (ub, vqb, vr, va) = (pmul(u, b), pmul(v, pmul(q, b)), pmul(v, r), pmul(v, a));
    assert(pmul(w, b) == psub(ub, vqb));
    lemma_pmod_padd2(va, padd(vr, vqb), psub(ub, vqb), psub(ub, vqb), p);
    lemma_ext(padd(padd(vr, vqb), psub(ub, vqb)), padd(ub, vr));
    assert(pcombw(g, a, b, v, w, p));
}
pub proof fn lemma_scale_c(a: PM, c: int, d: int, p: int) requires p > 0, canon(a), cong(c * d, 1, p) ensures peq(pscale(pmod(pscale(a, m1(), c), p), m1(), d), a, p) {
    broadcast use poly_cf;
    let s = pscale(a, m1(), c);
    lemma_pmod_idem(s, p); lemma_cong_refl(d, p);
    lemma_pmod_scale(pmod(s, p), s, m1(), d, d, p);
    lemma_scale_scale(a, m1(), c, m1(), d);
    assert(mmul(m1(), m1()) == m1());
    lemma_pmod_scale(a, a, m1(), c * d, 1, p);
    lemma_scale_1(a);
}
/// the monic form: unit multiple with leading coefficient 1
pub open spec fn is_monic_form(g: PM, a: PM, c: int, p: int) -> bool { g == pmod(pscale(a, m1(), c), p) && cong(c * lc(a), 1, p) }
pub proof fn lemma_monic_form(g: PM, a: PM, c: int, p: int) requires p >= 2, canon(a), a != p0(), is_monic_form(g, a, c, p)
    ensures canon(g), reduced(g, p), is_lead(g, lead(a)), g[lead(a)] == 1, keys_le(g, a), pdivides(g, a, p), forall|b: PM| canon(b) ==> #[trigger] pcomb(g, b, a, p), xonly(a) ==> monic(g)
{
    broadcast use poly_cf;
    let s = pscale(a, m1(), c); let l = lead(a);
    lemma_lead(a);
    assert(mdiv(l, m1()) == l);
    assert(cf(s, l) == c * lc(a));
    lemma_cong_mod_eq(c * lc(a), 1, p);
    vstd::arithmetic::div_mod::lemma_small_mod(1, p as nat);
    assert(cf(g, l) == 1);
    lemma_pmod_keys(s, p); lemma_keys_pscale(a, m1(), c);
    assert forall|k: MV| #[trigger] g.contains_key(k) implies a.contains_key(k) by { assert(s.contains_key(k)); assert(mdiv(k, m1()) == k); }
    assert(is_lead(g, l));
    lemma_lead_is(g, l);
    // a = lc(a) * g
    lemma_scale_c(a, c, lc(a), p);
    lemma_mul_mono_l(m1(), lc(a), g);
    assert(pdividesw(g, a, mono(m1(), lc(a)), p));
    // g = c * a
    lemma_pmod_idem(s, p); lemma_mul_mono_l(m1(), c, a);
    assert forall|b: PM| canon(b) implies #[trigger] pcomb(g, b, a, p) by {
        lemma_mul_p0(b); lemma_padd_0(s);
        assert(pcombw(g, b, a, p0(), mono(m1(), c), p));
    }
}
/// last step of the gcd: the remainder vanished
pub proof fn lemma_gcd_base(g: PM, a: PM, b: PM, r: PM, c: int, p: int) requires p >= 2, canon(a), canon(b), b != p0(), xonly(a), xonly(b), is_rem(a, r, b, p), r == p0(), is_monic_form(g, b, c, p) ensures is_gcd(g, a, b, p) {
    broadcast use poly_cf;
    lemma_monic_form(g, b, c, p);
    let q = choose|q: PM| #[trigger] reminv(a, r, b, q, p);
    let s = choose|s: PM| #[trigger] pdividesw(g, b, s, p);
    lemma_canon_pmul(q, b); lemma_canon_pmul(s, g); lemma_canon_pmul(q, s);
    lemma_padd_0(pmul(q, b));
    lemma_pmod_mul_r(q, b, pmul(s, g), p);
    lemma_mul_assoc(q, s, g);
    lemma_xo(q, s);
    assert(pdividesw(g, a, pmul(q, s), p));
}
/// a non-zero reduced remainder can be divided by
pub proof fn lemma_reduced_good(r: PM, p: int) requires p >= 2, canon(r), reduced(r, p), xonly(r), r != p0() ensures good(r, p) {
    lemma_lead(r);
    assert(0 < lc(r) < p);
    if divides(p, lc(r)) { lemma_div_le(p, lc(r)); }
}
pub open spec fn invp(a: int, p: int) -> int { pow(a, p - 2) % p }
pub proof fn lemma_invp(a: int, p: int) requires is_prime_spec(p), !divides(p, a) ensures cong(a * invp(a, p), 1, p), cong(invp(a, p) * a, 1, p) {
    lemma_fermat(p, a);
    let w = pow(a, p - 2);
    lemma_cong_mod(w, p); lemma_cong_refl(a, p);
    lemma_cong_mul(a, a, invp(a, p), w, p);
    lemma_cong_trans(a * invp(a, p), a * w, 1, p);
    assert(a * invp(a, p) == invp(a, p) * a) by (nonlinear_arith);
}
pub proof fn lemma_xonly_novar(a: PM) requires xonly(a) ensures novar(a) {}
pub proof fn lemma_novar_fit(a: PM, c: int) requires novar(a) ensures mulfit(a, mono(m1(), c)) {
    assert forall|i: MV, j: MV| #[trigger] a.contains_key(i) && #[trigger] mono(m1(), c).contains_key(j) implies mfit(mmul(i, j)) by { assert(mmul(i, m1()) == i); }
}
