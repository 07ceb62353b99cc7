// Operations on polynomials used by the contracts: division by a term, reduction modulo n,
// derivatives, exponent maps, substitution, evaluation, truncation.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
pub open spec fn is_lead(m: PM, k: MV) -> bool { m.contains_key(k) && forall|o: MV| #[trigger] m.contains_key(o) ==> o == k || mlt(o, k) }
pub open spec fn keys_le(a: PM, b: PM) -> bool { forall|k: MV| #[trigger] a.contains_key(k) ==> b.contains_key(k) }

// ---- pmod ----
pub proof fn lemma_pmod_step(acc: PM, rest: PM, k: MV, n: int) requires n > 0, canon(rest), rest.contains_key(k)
    ensures padd(padd(acc, mono(k, rest[k] % n)), pmod(rest.remove(k), n)) == padd(acc, pmod(rest, n))
{
    broadcast use poly_cf;
    vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat);
    lemma_ext(padd(padd(acc, mono(k, rest[k] % n)), pmod(rest.remove(k), n)), padd(acc, pmod(rest, n)));
}
pub proof fn lemma_pmod_keys(a: PM, n: int) requires n > 0 ensures keys_le(pmod(a, n), a), forall|k: MV| #[trigger] pmod(a, n).contains_key(k) ==> 0 < pmod(a, n)[k] < n {
    reveal(pmod);
    assert forall|k: MV| #[trigger] pmod(a, n).contains_key(k) implies a.contains_key(k) && 0 < pmod(a, n)[k] < n by { vstd::arithmetic::div_mod::lemma_mod_bound(cf(a, k), n); }
}
pub open spec fn reduced(a: PM, n: int) -> bool { forall|k: MV| #[trigger] a.contains_key(k) ==> 0 < a[k] < n }
pub proof fn lemma_pmod_small(a: PM, n: int) requires n > 0, reduced(a, n) ensures pmod(a, n) == a {
    broadcast use poly_cf;
    assert forall|k: MV| cf(pmod(a, n), k) == cf(a, k) by { if a.contains_key(k) { vstd::arithmetic::div_mod::lemma_small_mod(a[k] as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat); } }
    lemma_ext(pmod(a, n), a);
}
pub proof fn lemma_pmod_idem(a: PM, n: int) requires n > 0 ensures pmod(pmod(a, n), n) == pmod(a, n) { lemma_pmod_keys(a, n); lemma_pmod_small(pmod(a, n), n); }
pub proof fn lemma_pmod_p0(n: int) requires n > 0 ensures pmod(p0(), n) == p0() { lemma_pmod_small(p0(), n); }
/// pmod equality is coefficientwise congruence
pub proof fn lemma_pmod_cong(a: PM, b: PM, n: int) requires n > 0, forall|k: MV| cong(#[trigger] cf(a, k), cf(b, k), n) ensures pmod(a, n) == pmod(b, n) {
    broadcast use poly_cf;
    assert forall|k: MV| cf(pmod(a, n), k) == cf(pmod(b, n), k) by { assert(cong(cf(a, k), cf(b, k), n)); lemma_cong_mod_eq(cf(a, k), cf(b, k), n); }
    lemma_ext(pmod(a, n), pmod(b, n));
}
pub proof fn lemma_pmod_get(a: PM, b: PM, n: int, k: MV) requires n > 0, pmod(a, n) == pmod(b, n) ensures cong(cf(a, k), cf(b, k), n) {
    lemma_cf_pmod(a, n, k); lemma_cf_pmod(b, n, k);
    lemma_cong_mod_eq(cf(a, k), cf(b, k), n);
}
pub proof fn lemma_pmod_padd2(a: PM, b: PM, c: PM, d: PM, n: int) requires n > 0, pmod(a, n) == pmod(b, n), pmod(c, n) == pmod(d, n) ensures pmod(padd(a, c), n) == pmod(padd(b, d), n) {
    broadcast use poly_cf;
    assert forall|k: MV| cong(#[trigger] cf(padd(a, c), k), cf(padd(b, d), k), n) by {
        lemma_pmod_get(a, b, n, k); lemma_pmod_get(c, d, n, k);
        lemma_cong_add(cf(a, k), cf(b, k), cf(c, k), cf(d, k), n);
    }
    lemma_pmod_cong(padd(a, c), padd(b, d), n);
}
pub proof fn lemma_pmod_pneg(a: PM, b: PM, n: int) requires n > 0, pmod(a, n) == pmod(b, n) ensures pmod(pneg(a), n) == pmod(pneg(b), n) {
    broadcast use poly_cf;
    assert forall|k: MV| cong(#[trigger] cf(pneg(a), k), cf(pneg(b), k), n) by { lemma_pmod_get(a, b, n, k); lemma_cong_refl(0, n); lemma_cong_add(0, 0, cf(a, k), cf(b, k), n); }
    lemma_pmod_cong(pneg(a), pneg(b), n);
}
pub proof fn lemma_pmod_psub2(a: PM, b: PM, c: PM, d: PM, n: int) requires n > 0, pmod(a, n) == pmod(b, n), pmod(c, n) == pmod(d, n) ensures pmod(psub(a, c), n) == pmod(psub(b, d), n) {
    lemma_pmod_pneg(c, d, n); lemma_pmod_padd2(a, b, pneg(c), pneg(d), n);
}
pub proof fn lemma_pmod_scale(a: PM, b: PM, k: MV, c: int, d: int, n: int) requires n > 0, pmod(a, n) == pmod(b, n), cong(c, d, n) ensures pmod(pscale(a, k, c), n) == pmod(pscale(b, k, d), n) {
    broadcast use poly_cf;
    assert forall|j: MV| cong(#[trigger] cf(pscale(a, k, c), j), cf(pscale(b, k, d), j), n) by {
        lemma_pmod_get(a, b, n, mdiv(j, k));
        lemma_cong_mul(c, d, cf(a, mdiv(j, k)), cf(b, mdiv(j, k)), n);
    }
    lemma_pmod_cong(pscale(a, k, c), pscale(b, k, d), n);
}
pub proof fn lemma_pmod_psum(m: PM, f: spec_fn(MV, int) -> PM, g: spec_fn(MV, int) -> PM, n: int) requires n > 0, forall|k: MV, c: int| pmod(#[trigger] f(k, c), n) == pmod(g(k, c), n) ensures pmod(psum(m, f), n) == pmod(psum(m, g), n) decreases m.len() {
    if m.len() != 0 {
        let k = m.dom().choose(); let d = m.remove(k);
        lemma_pmod_psum(d, f, g, n);
        assert(pmod(f(k, m[k]), n) == pmod(g(k, m[k]), n));
        lemma_pmod_padd2(psum(d, f), psum(d, g), f(k, m[k]), g(k, m[k]), n);
    }
}
pub proof fn lemma_pmod_mul_r(a: PM, b: PM, c: PM, n: int) requires n > 0, pmod(b, n) == pmod(c, n) ensures pmod(pmul(a, b), n) == pmod(pmul(a, c), n) {
    assert forall|k: MV, e: int| pmod(#[trigger] scl(b)(k, e), n) == pmod(scl(c)(k, e), n) by { lemma_cong_refl(e, n); lemma_pmod_scale(b, c, k, e, e, n); }
    lemma_pmod_psum(a, scl(b), scl(c), n);
}
pub proof fn lemma_pmod_mul(a: PM, b: PM, c: PM, d: PM, n: int) requires n > 0, canon(a), canon(b), canon(c), canon(d), pmod(a, n) == pmod(b, n), pmod(c, n) == pmod(d, n) ensures pmod(pmul(a, c), n) == pmod(pmul(b, d), n) {
    lemma_pmod_mul_r(a, c, d, n);
    lemma_mul_comm(a, d); lemma_mul_comm(b, d);
    lemma_pmod_mul_r(d, a, b, n);
}
pub proof fn lemma_pmod_pow(a: PM, b: PM, e: int, n: int) requires n > 0, e >= 0, canon(a), canon(b), pmod(a, n) == pmod(b, n) ensures pmod(ppow(a, e), n) == pmod(ppow(b, e), n) decreases e {
    if e > 0 {
        lemma_pmod_pow(a, b, e - 1, n); lemma_canon_ppow(a, e - 1); lemma_canon_ppow(b, e - 1);
        lemma_pmod_mul(a, b, ppow(a, e - 1), ppow(b, e - 1), n);
    }
}

// ---- division by a term ----
pub proof fn lemma_pdivm_step(acc: PM, rest: PM, j: MV, k: MV, c: int) requires c != 0, canon(rest), rest.contains_key(j)
    ensures padd(padd(acc, mono(mdiv(j, k), fdiv(rest[j], c))), pdivm(rest.remove(j), k, c)) == padd(acc, pdivm(rest, k, c))
{
    broadcast use poly_cf;
    lemma_fdiv0(c);
    let l = padd(padd(acc, mono(mdiv(j, k), fdiv(rest[j], c))), pdivm(rest.remove(j), k, c)); let r = padd(acc, pdivm(rest, k, c));
    assert forall|i: MV| cf(l, i) == cf(r, i) by {
        lemma_cf_pdivm(rest.remove(j), k, c, i); lemma_cf_pdivm(rest, k, c, i);
        assert(mmul(i, k) == j <==> i == mdiv(j, k));
    }
    lemma_ext(l, r);
}
pub proof fn lemma_pdivm_p0(k: MV, c: int) requires c != 0 ensures pdivm(p0(), k, c) == p0() {
    broadcast use poly_cf;
    lemma_fdiv0(c);
    assert forall|i: MV| cf(pdivm(p0(), k, c), i) == cf(p0(), i) by { lemma_cf_pdivm(p0(), k, c, i); }
    lemma_ext(pdivm(p0(), k, c), p0());
}
/// C09: exact when every coefficient is divisible
pub proof fn lemma_pdivm_exact(a: PM, k: MV, c: int) requires c != 0, canon(a), forall|j: MV| #[trigger] a.contains_key(j) ==> divides(c, a[j]) ensures pmul(pdivm(a, k, c), mono(k, c)) == a {
    broadcast use poly_cf;
    lemma_mul_mono_r(pdivm(a, k, c), k, c);
    assert forall|i: MV| cf(pscale(pdivm(a, k, c), k, c), i) == cf(a, i) by {
        lemma_cf_pdivm(a, k, c, mdiv(i, k));
        assert(mmul(mdiv(i, k), k) == i);
        if a.contains_key(i) { lemma_fdiv_exact(a[i], c); } else { lemma_fdiv0(c); assert(c * 0 == 0); }
    }
    lemma_ext(pscale(pdivm(a, k, c), k, c), a);
}
pub proof fn lemma_fdiv_exact(a: int, c: int) requires c != 0, divides(c, a) ensures c * fdiv(a, c) == a {
    let d = if c > 0 { c } else { -c }; let b = if c > 0 { a } else { -a };
    if c < 0 { lemma_div_neg(c, a); lemma_div_neg(-c, a); let k = choose|k: int| a == #[trigger] (c * k); assert(-a == (-c) * k) by (nonlinear_arith) requires a == c * k; }
    assert(divides(d, b));
    lemma_div_mod(d, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, d);
    if c < 0 { assert(c * (b / d) == -(d * (b / d))) by (nonlinear_arith) requires c == -d; }
}
pub proof fn lemma_scale_div(a: PM, k: MV, c: int) requires c != 0, canon(a) ensures pdivm(pscale(a, k, c), k, c) == a {
    broadcast use poly_cf;
    assert forall|i: MV| cf(pdivm(pscale(a, k, c), k, c), i) == cf(a, i) by {
        lemma_cf_pdivm(pscale(a, k, c), k, c, i);
        assert(mdiv(mmul(i, k), k) == i);
        lemma_fdiv_mul(cf(a, i), c);
    }
    lemma_ext(pdivm(pscale(a, k, c), k, c), a);
}
pub proof fn lemma_fdiv_mul(u: int, c: int) requires c != 0 ensures fdiv(c * u, c) == u {
    assert(divides(c, c * u));
    lemma_fdiv_exact(c * u, c);
    let w = fdiv(c * u, c);
    assert(w == u) by (nonlinear_arith) requires c * w == c * u, c != 0;
}

// ---- term-by-term maps ----
pub open spec fn pmapf(g: spec_fn(MV) -> MV) -> spec_fn(MV, int) -> PM { |k: MV, c: int| mono(g(k), c) }
pub open spec fn pmap(m: PM, g: spec_fn(MV) -> MV) -> PM { psum(m, pmapf(g)) }
/// what a term-by-term relabelling with an injective map means, coefficient by coefficient
pub proof fn lemma_pmap(m: PM, g: spec_fn(MV) -> MV)
    requires canon(m), forall|j: MV, k: MV| #[trigger] m.contains_key(j) && #[trigger] m.contains_key(k) && g(j) == g(k) ==> j == k
    ensures forall|k: MV| #[trigger] m.contains_key(k) ==> pmap(m, g).contains_key(g(k)) && pmap(m, g)[g(k)] == m[k],
        forall|i: MV| #[trigger] pmap(m, g).contains_key(i) ==> exists|k: MV| #[trigger] m.contains_key(k) && g(k) == i
    decreases m.len()
{
    broadcast use poly_cf;
    if m.len() == 0 { lemma_len0(m); }
    else {
        let c = m.dom().choose(); assert(m.contains_key(c)); let d = m.remove(c);
        lemma_peel(m, c);
        assert forall|j: MV, k: MV| #[trigger] d.contains_key(j) && #[trigger] d.contains_key(k) && g(j) == g(k) implies j == k by { assert(m.contains_key(j) && m.contains_key(k)); }
        lemma_pmap(d, g);
        let r = pmap(d, g);
        assert(!r.contains_key(g(c))) by { if r.contains_key(g(c)) { let k = choose|k: MV| #[trigger] d.contains_key(k) && g(k) == g(c); assert(m.contains_key(k)); } }
        lemma_psum_canon(d, pmapf(g));
        lemma_addterm(r, g(c), m[c]);
        assert forall|k: MV| #[trigger] m.contains_key(k) implies pmap(m, g).contains_key(g(k)) && pmap(m, g)[g(k)] == m[k] by { if k != c { assert(d.contains_key(k)); } }
        assert forall|i: MV| #[trigger] pmap(m, g).contains_key(i) implies exists|k: MV| #[trigger] m.contains_key(k) && g(k) == i by {
            if i != g(c) { assert(r.contains_key(i)); let k = choose|k: MV| #[trigger] d.contains_key(k) && g(k) == i; assert(m.contains_key(k)); } else { assert(m.contains_key(c)); }
        }
    }
}
pub open spec fn frobg(n: int) -> spec_fn(MV) -> MV { |k: MV| frobm(k, n) }
pub open spec fn ypowg(n: int) -> spec_fn(MV) -> MV { |k: MV| ypowm(k, n) }
pub open spec fn qpowg(n: int) -> spec_fn(MV) -> MV { |k: MV| qpowm(k, n) }
pub proof fn lemma_mulinj(a: int, b: int, n: int) requires n >= 1, a * n == b * n ensures a == b { assert(a == b) by (nonlinear_arith) requires n >= 1, a * n == b * n; }
pub proof fn lemma_frob_inj(j: MV, k: MV, n: int) requires n >= 1 ensures frobm(j, n) == frobm(k, n) ==> j == k, ypowm(j, n) == ypowm(k, n) ==> j == k, qpowm(j, n) == qpowm(k, n) ==> j == k {
    if frobm(j, n) == frobm(k, n) { lemma_mulinj(j.x, k.x, n); lemma_mulinj(j.y, k.y, n); }
    if ypowm(j, n) == ypowm(k, n) { lemma_mulinj(j.y, k.y, n); }
    if qpowm(j, n) == qpowm(k, n) { lemma_mulinj(j.q, k.q, n); }
}
/// C13: the exponent maps change exactly the exponents they should
pub proof fn lemma_frob_meaning(m: PM, n: int) requires canon(m), n >= 1
    ensures forall|k: MV| #[trigger] m.contains_key(k) ==> cf(pmap(m, frobg(n)), frobm(k, n)) == m[k] && cf(pmap(m, ypowg(n)), ypowm(k, n)) == m[k] && cf(pmap(m, qpowg(n)), qpowm(k, n)) == m[k]
{
    assert forall|j: MV, k: MV| #[trigger] m.contains_key(j) && #[trigger] m.contains_key(k) && frobg(n)(j) == frobg(n)(k) implies j == k by { lemma_frob_inj(j, k, n); }
    assert forall|j: MV, k: MV| #[trigger] m.contains_key(j) && #[trigger] m.contains_key(k) && ypowg(n)(j) == ypowg(n)(k) implies j == k by { lemma_frob_inj(j, k, n); }
    assert forall|j: MV, k: MV| #[trigger] m.contains_key(j) && #[trigger] m.contains_key(k) && qpowg(n)(j) == qpowg(n)(k) implies j == k by { lemma_frob_inj(j, k, n); }
    lemma_pmap(m, frobg(n)); lemma_pmap(m, ypowg(n)); lemma_pmap(m, qpowg(n));
    assert forall|k: MV| #[trigger] m.contains_key(k) implies cf(pmap(m, frobg(n)), frobm(k, n)) == m[k] && cf(pmap(m, ypowg(n)), ypowm(k, n)) == m[k] && cf(pmap(m, qpowg(n)), qpowm(k, n)) == m[k] by {
        assert(frobg(n)(k) == frobm(k, n)); assert(ypowg(n)(k) == ypowm(k, n)); assert(qpowg(n)(k) == qpowm(k, n));
    }
}
// ---- derivatives ----
pub open spec fn dxf() -> spec_fn(MV, int) -> PM { |k: MV, c: int| mono(mdiv(k, mk(1, 0, 0)), c * k.x) }
pub open spec fn dyf() -> spec_fn(MV, int) -> PM { |k: MV, c: int| mono(mdiv(k, mk(0, 1, 0)), c * k.y) }
pub open spec fn pdx(m: PM) -> PM { psum(m, dxf()) }
pub open spec fn pdy(m: PM) -> PM { psum(m, dyf()) }
/// C13: coefficients of the derivative
pub proof fn lemma_cf_pdx(m: PM, j: MV) requires canon(m) ensures cf(pdx(m), j) == (j.x + 1) * cf(m, mmul(j, mk(1, 0, 0))), cf(pdy(m), j) == (j.y + 1) * cf(m, mmul(j, mk(0, 1, 0))) decreases m.len() {
    broadcast use poly_cf;
    let (kx, ky) = (mmul(j, mk(1, 0, 0)), mmul(j, mk(0, 1, 0)));
    if m.len() == 0 { lemma_len0(m); assert((j.x + 1) * 0 == 0); assert((j.y + 1) * 0 == 0); }
    else {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        lemma_peel(m, k);
        lemma_cf_pdx(d, j);
        assert(mdiv(k, mk(1, 0, 0)) == j <==> k == kx);
        assert(mdiv(k, mk(0, 1, 0)) == j <==> k == ky);
        assert((j.x + 1) * 0 == 0); assert((j.y + 1) * 0 == 0);
        assert(m[k] * (j.x + 1) == (j.x + 1) * m[k]) by (nonlinear_arith);
        assert(m[k] * (j.y + 1) == (j.y + 1) * m[k]) by (nonlinear_arith);
    }
}

// ---- bounds ----
pub open spec fn abs1(a: int) -> int { if a < 0 { -a } else { a } }
/// exponents bounded by b, no subscripted variable
pub open spec fn powbnd(a: PM, b: int) -> bool { forall|k: MV| #[trigger] a.contains_key(k) ==> abs1(k.x) <= b && abs1(k.y) <= b && abs1(k.q) <= b && k.vn == 0 && k.vi == 0 && k.vj == 0 }
pub open spec fn powfit(a: PM, n: int) -> bool { n >= 1 ==> powbnd(a, 0x7fff_ffffint / n) }
pub proof fn lemma_keys_psum(m: PM, f: spec_fn(MV, int) -> PM, i: MV) requires psum(m, f).contains_key(i) ensures exists|k: MV| #[trigger] m.contains_key(k) && f(k, m[k]).contains_key(i) decreases m.len() {
    if m.len() == 0 { }
    else {
        let k = m.dom().choose(); assert(m.contains_key(k)); let d = m.remove(k);
        reveal(padd);
        if psum(d, f).contains_key(i) { lemma_keys_psum(d, f, i); let j = choose|j: MV| #[trigger] d.contains_key(j) && f(j, d[j]).contains_key(i); assert(m.contains_key(j)); }
    }
}
pub proof fn lemma_keys_padd(a: PM, b: PM) ensures forall|k: MV| #[trigger] padd(a, b).contains_key(k) ==> a.contains_key(k) || b.contains_key(k) { reveal(padd); }
pub proof fn lemma_keys_pscale(a: PM, m: MV, c: int) ensures forall|k: MV| #[trigger] pscale(a, m, c).contains_key(k) ==> a.contains_key(mdiv(k, m)) {
    broadcast use poly_cf;
    assert forall|k: MV| #[trigger] pscale(a, m, c).contains_key(k) implies a.contains_key(mdiv(k, m)) by { assert(cf(pscale(a, m, c), k) != 0); assert(c * 0 == 0); }
}
/// the monomials of a product are products of monomials
pub proof fn lemma_keys_pmul(a: PM, b: PM, i: MV) -> (r: (MV, MV)) requires pmul(a, b).contains_key(i) ensures a.contains_key(r.0), b.contains_key(r.1), i == mmul(r.0, r.1) {
    lemma_keys_psum(a, scl(b), i);
    let k = choose|k: MV| #[trigger] a.contains_key(k) && scl(b)(k, a[k]).contains_key(i);
    lemma_keys_pscale(b, k, a[k]);
    (k, mdiv(i, k))
}
pub proof fn lemma_bnd_mul(a: PM, b: PM, m: int, n: int) requires powbnd(a, m), powbnd(b, n) ensures powbnd(pmul(a, b), m + n), m + n <= 0x7fff_ffffint ==> mulfit(a, b) {
    assert forall|i: MV| #[trigger] pmul(a, b).contains_key(i) implies abs1(i.x) <= m + n && abs1(i.y) <= m + n && abs1(i.q) <= m + n && i.vn == 0 && i.vi == 0 && i.vj == 0 by {
        let (j, k) = lemma_keys_pmul(a, b, i);
    }
}
pub proof fn lemma_bnd_sub(a: PM, b: PM, n: int) requires keys_le(a, b), powbnd(b, n) ensures powbnd(a, n) {}
pub proof fn lemma_bnd_up(a: PM, m: int, n: int) requires powbnd(a, m), m <= n ensures powbnd(a, n) {}
pub proof fn lemma_bnd_1() ensures powbnd(p1(), 0) {}
/// square-and-multiply stays within the bounds
pub proof fn lemma_bnd_step(n: int, kr: int, kb: int, e: int) requires n >= 1, e >= 2, kb >= 1, kr >= 0, kr + kb * e == n
    ensures (0x7fff_ffffint / n) * (kb + kb) <= 0x7fff_ffffint, (0x7fff_ffffint / n) * (kr + kb) <= 0x7fff_ffffint, (0x7fff_ffffint / n) >= 0,
        e % 2 == 0 ==> kr + (2 * kb) * (e / 2) == n, e % 2 == 1 ==> (kr + kb) + (2 * kb) * (e / 2) == n,
        (0x7fff_ffffint / n) * (2 * kb) == (0x7fff_ffffint / n) * kb + (0x7fff_ffffint / n) * kb, (0x7fff_ffffint / n) * (kr + kb) == (0x7fff_ffffint / n) * kr + (0x7fff_ffffint / n) * kb
{
    let b = 0x7fff_ffffint / n;
    lemma_bdiv(n);
    assert(b * (2 * kb) == b * kb + b * kb) by (nonlinear_arith);
    assert(b * (kr + kb) == b * kr + b * kb) by (nonlinear_arith);
    assert(2 * kb <= n) by (nonlinear_arith) requires e >= 2, kb >= 1, kr >= 0, kr + kb * e == n;
    assert(kr + kb <= n) by (nonlinear_arith) requires e >= 2, kb >= 1, kr >= 0, kr + kb * e == n;
    assert(b * (2 * kb) <= b * n) by (nonlinear_arith) requires 2 * kb <= n, b >= 0;
    assert(b * (kr + kb) <= b * n) by (nonlinear_arith) requires kr + kb <= n, b >= 0;
    assert(kb + kb == 2 * kb);
    let h = e / 2;
    if e % 2 == 0 { assert(e == 2 * h); assert((2 * kb) * h == kb * e) by (nonlinear_arith) requires e == 2 * h; }
    else { assert(e == 2 * h + 1); assert((2 * kb) * h + kb == kb * e) by (nonlinear_arith) requires e == 2 * h + 1; }
}
pub proof fn lemma_bdiv(n: int) requires n >= 1 ensures (0x7fff_ffffint / n) * n <= 0x7fff_ffffint, 0x7fff_ffffint / n >= 0 {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(0x7fff_ffffint, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(0x7fff_ffffint, n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(0x7fff_ffffint, n);
    assert(n * (0x7fff_ffffint / n) == (0x7fff_ffffint / n) * n) by (nonlinear_arith);
}
/// last multiplication of square-and-multiply
pub proof fn lemma_bnd_last(n: int, kr: int, kb: int) requires n >= 1, kr + kb == n
    ensures (0x7fff_ffffint / n) * kr + (0x7fff_ffffint / n) * kb <= 0x7fff_ffffint
{
    let b = 0x7fff_ffffint / n;
    lemma_bdiv(n);
    assert(b * kr + b * kb == b * n) by (nonlinear_arith) requires kr + kb == n;
}
pub proof fn lemma_powbnd_pow(a: PM, b: int, n: int) requires powbnd(a, b), n >= 0, b >= 0 ensures powbnd(ppow(a, n), b * n) decreases n {
    if n == 0 { lemma_bnd_1(); assert(b * 0 == 0); }
    else { lemma_powbnd_pow(a, b, n - 1); lemma_bnd_mul(a, ppow(a, n - 1), b, b * (n - 1)); assert(b + b * (n - 1) == b * n) by (nonlinear_arith); }
}
pub proof fn lemma_pmod_sqmul(r: PM, b: PM, e: int, n: int) requires n > 0, e >= 1, canon(r), canon(b)
    ensures e % 2 == 1 ==> pmod(pmul(pmod(pmul(r, b), n), ppow(pmod(pmul(b, b), n), e / 2)), n) == pmod(pmul(r, ppow(b, e)), n),
        e % 2 == 0 ==> pmod(pmul(r, ppow(pmod(pmul(b, b), n), e / 2)), n) == pmod(pmul(r, ppow(b, e)), n)
{
    broadcast use lemma_canon_pmod;
    let (rb, bb, h) = (pmul(r, b), pmul(b, b), e / 2);
    lemma_canon_pmul(r, b); lemma_canon_pmul(b, b);
    lemma_psqmul(r, b, e);
    lemma_pmod_idem(bb, n); lemma_pmod_idem(rb, n);
    lemma_pmod_pow(pmod(bb, n), bb, h, n);
    lemma_canon_ppow(bb, h); lemma_canon_ppow(pmod(bb, n), h);
    lemma_pmod_mul(pmod(rb, n), rb, ppow(pmod(bb, n), h), ppow(bb, h), n);
    lemma_pmod_mul(r, r, ppow(pmod(bb, n), h), ppow(bb, h), n);
}
pub proof fn lemma_single(b: PM, k: MV) requires b.len() == 1, b.contains_key(k) ensures b == mono(k, b[k]) || b[k] == 0, b =~= p0().insert(k, b[k]), b.dom().choose() == k {
    let r = b.remove(k);
    lemma_len0(r);
    assert(r.len() == 0);
    assert forall|j: MV| b.contains_key(j) implies j == k by { if j != k { assert(r.contains_key(j)); } }
    assert(b.contains_key(b.dom().choose())) by { assert(b.dom().contains(k)); }
    assert(b =~= p0().insert(k, b[k]));
}
pub open spec fn tkey(b: PM) -> MV { b.dom().choose() }
pub open spec fn tcoef(b: PM) -> int { b[b.dom().choose()] }
pub proof fn lemma_tkey(k: MV, c: int) requires c != 0 ensures tkey(mono(k, c)) == k, tcoef(mono(k, c)) == c, mono(k, c).len() == 1 {
    lemma_single(mono(k, c), k);
}
pub open spec fn mx() -> int { 0x7fff_ffff }
/// state of square-and-multiply: the pieces stay within the exponent range
pub open spec fn powst(a: PM, n: int, r: PM, b: PM, kr: int, kb: int, e: int) -> bool {
    canon(r) && canon(b) && kr >= 0 && kb >= 1 && kr + kb * e == n && n >= 1 && e >= 1 && powbnd(b, (mx() / n) * kb) && powbnd(r, (mx() / n) * kr)
}
pub proof fn lemma_powst_init(a: PM, n: int) requires canon(a), n >= 1, powfit(a, n) ensures powst(a, n, p1(), a, 0, 1, n), pmul(p1(), ppow(a, n)) == ppow(a, n) {
    broadcast use lemma_canon_mono;
    lemma_bnd_1(); lemma_bdiv(n); lemma_canon_ppow(a, n); lemma_mul_1(ppow(a, n));
    assert((mx() / n) * 0 == 0); assert((mx() / n) * 1 == mx() / n); assert(1 * n == n);
}
pub proof fn lemma_powst_step(a: PM, n: int, r: PM, b: PM, kr: int, kb: int, e: int) requires powst(a, n, r, b, kr, kb, e), e >= 2
    ensures mulfit(r, b), mulfit(b, b), e % 2 == 1 ==> powst(a, n, pmul(r, b), pmul(b, b), kr + kb, 2 * kb, e / 2), e % 2 == 0 ==> powst(a, n, r, pmul(b, b), kr, 2 * kb, e / 2),
        e % 2 == 1 ==> pmul(pmul(r, b), ppow(pmul(b, b), e / 2)) == pmul(r, ppow(b, e)), e % 2 == 0 ==> pmul(r, ppow(pmul(b, b), e / 2)) == pmul(r, ppow(b, e))
{
    lemma_bnd_step(n, kr, kb, e); lemma_psqmul(r, b, e); lemma_canon_pmul(r, b); lemma_canon_pmul(b, b);
    lemma_bnd_mul(r, b, (mx() / n) * kr, (mx() / n) * kb); lemma_bnd_mul(b, b, (mx() / n) * kb, (mx() / n) * kb);
}
pub proof fn lemma_powst_last(a: PM, n: int, r: PM, b: PM, kr: int, kb: int) requires powst(a, n, r, b, kr, kb, 1) ensures mulfit(r, b), ppow(b, 1) == b {
    assert(kb * 1 == kb);
    lemma_bnd_last(n, kr, kb); lemma_bnd_mul(r, b, (mx() / n) * kr, (mx() / n) * kb); lemma_ppow_1(b);
}
pub proof fn lemma_powst_mod(a: PM, n: int, r: PM, b: PM, kr: int, kb: int, e: int, p: int) requires powst(a, n, r, b, kr, kb, e), p > 0 ensures powst(a, n, pmod(r, p), b, kr, kb, e), powst(a, n, r, pmod(b, p), kr, kb, e) {
    broadcast use lemma_canon_pmod;
    lemma_pmod_keys(r, p); lemma_pmod_keys(b, p);
    lemma_bnd_sub(pmod(r, p), r, (mx() / n) * kr); lemma_bnd_sub(pmod(b, p), b, (mx() / n) * kb);
}
// ---- evaluation and substitution ----
pub open spec fn xz(k: MV) -> MV { MV { x: 0, ..k } }
pub open spec fn yz(k: MV) -> MV { MV { y: 0, ..k } }
pub open spec fn mval(k: MV, x: int, y: int) -> int { pow(x, k.x) * pow(y, k.y) }
pub open spec fn evf(x: int, y: int) -> spec_fn(MV, int) -> int { |k: MV, c: int| mval(k, x, y) * c }
/// value at (x, y); q and the subscripted variables set to 1
pub open spec fn ev(m: PM, x: int, y: int) -> int { isum(m, evf(x, y)) }
pub open spec fn exf(x: int) -> spec_fn(MV, int) -> PM { |k: MV, c: int| mono(xz(k), c * pow(x, k.x)) }
pub open spec fn eyf(y: int) -> spec_fn(MV, int) -> PM { |k: MV, c: int| mono(yz(k), c * pow(y, k.y)) }
pub open spec fn sxf(g: PM) -> spec_fn(MV, int) -> PM { |k: MV, c: int| pscale(ppow(g, k.x), xz(k), c) }
pub open spec fn syf(g: PM) -> spec_fn(MV, int) -> PM { |k: MV, c: int| pscale(ppow(g, k.y), yz(k), c) }
/// exponents of x and y non-negative
pub open spec fn nonneg(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.x >= 0 && k.y >= 0 }
pub open spec fn xnonneg(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.x >= 0 }
pub open spec fn ynonneg(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y >= 0 }
pub proof fn lemma_evf_lin(x: int, y: int) ensures ilin(evf(x, y)) {
    let f = evf(x, y);
    assert forall|k: MV, c: int, d: int| #[trigger] iaddc(f, k, c, d) by { let u = mval(k, x, y); assert(u * c + u * d == u * (c + d)) by (nonlinear_arith); }
    assert forall|k: MV| #[trigger] f(k, 0) == 0 by { assert(mval(k, x, y) * 0 == 0); }
}
pub proof fn lemma_ev_p0(x: int, y: int) ensures ev(p0(), x, y) == 0 {}
pub proof fn lemma_ev_mono(k: MV, c: int, x: int, y: int) ensures ev(mono(k, c), x, y) == mval(k, x, y) * c {
    broadcast use poly_cf;
    lemma_evf_lin(x, y);
    lemma_isum_addmono(p0(), k, c, evf(x, y));
    lemma_padd_0(mono(k, c));
}
pub proof fn lemma_ev_p1(x: int, y: int) ensures ev(p1(), x, y) == 1 { lemma_ev_mono(m1(), 1, x, y); }
/// C12: evaluation is additive
pub proof fn lemma_ev_padd(a: PM, b: PM, x: int, y: int) requires canon(a), canon(b) ensures ev(padd(a, b), x, y) == ev(a, x, y) + ev(b, x, y) { lemma_evf_lin(x, y); lemma_isum_padd(a, b, evf(x, y)); }
pub proof fn lemma_ev_pneg(a: PM, x: int, y: int) requires canon(a) ensures ev(pneg(a), x, y) == -ev(a, x, y) {
    broadcast use poly_cf;
    lemma_ev_padd(a, pneg(a), x, y); lemma_psub_self(a);
}
pub proof fn lemma_ev_psub(a: PM, b: PM, x: int, y: int) requires canon(a), canon(b) ensures ev(psub(a, b), x, y) == ev(a, x, y) - ev(b, x, y) {
    broadcast use poly_cf;
    lemma_ev_pneg(b, x, y); lemma_ev_padd(a, pneg(b), x, y);
}
pub proof fn lemma_mval_mul(j: MV, k: MV, x: int, y: int) requires j.x >= 0, j.y >= 0, k.x >= 0, k.y >= 0 ensures mval(mmul(j, k), x, y) == mval(j, x, y) * mval(k, x, y) {
    lemma_pow_add(x, j.x, k.x); lemma_pow_add(y, j.y, k.y);
    let (a, b, c, d) = (pow(x, j.x), pow(x, k.x), pow(y, j.y), pow(y, k.y));
    assert((a * b) * (c * d) == (a * c) * (b * d)) by (nonlinear_arith);
}
pub proof fn lemma_ev_pscale(b: PM, k: MV, c: int, x: int, y: int) requires canon(b), nonneg(b), k.x >= 0, k.y >= 0 ensures ev(pscale(b, k, c), x, y) == (mval(k, x, y) * c) * ev(b, x, y) decreases b.len() {
    broadcast use poly_cf;
    let u = mval(k, x, y) * c;
    if b.len() == 0 { lemma_len0(b); lemma_scale_p0(k, c); assert(u * 0 == 0); }
    else {
        let j = b.dom().choose(); assert(b.contains_key(j)); let d = b.remove(j);
        lemma_peel(b, j);
        assert(nonneg(d)) by { assert forall|i: MV| #[trigger] d.contains_key(i) implies i.x >= 0 && i.y >= 0 by { assert(b.contains_key(i)); } }
        lemma_ev_pscale(d, k, c, x, y);
        lemma_scale_padd(d, mono(j, b[j]), k, c);
        lemma_scale_mono(j, b[j], k, c);
        lemma_ev_padd(pscale(d, k, c), mono(mmul(j, k), b[j] * c), x, y);
        lemma_ev_mono(mmul(j, k), b[j] * c, x, y);
        lemma_mval_mul(j, k, x, y);
        let (v, w, e) = (mval(j, x, y), mval(k, x, y), b[j]);
        assert((v * w) * (e * c) == (w * c) * (v * e)) by (nonlinear_arith);
        assert(u * (ev(d, x, y) + v * e) == u * ev(d, x, y) + u * (v * e)) by (nonlinear_arith);
    }
}
/// C12: evaluation is multiplicative
pub proof fn lemma_ev_pmul(a: PM, b: PM, x: int, y: int) requires canon(a), canon(b), nonneg(a), nonneg(b) ensures ev(pmul(a, b), x, y) == ev(a, x, y) * ev(b, x, y) decreases a.len() {
    broadcast use poly_cf;
    let v = ev(b, x, y);
    if a.len() == 0 { assert(0 * v == 0); }
    else {
        let k = a.dom().choose(); assert(a.contains_key(k)); let d = a.remove(k);
        lemma_peel(a, k);
        assert(nonneg(d)) by { assert forall|i: MV| #[trigger] d.contains_key(i) implies i.x >= 0 && i.y >= 0 by { assert(a.contains_key(i)); } }
        lemma_ev_pmul(d, b, x, y);
        lemma_ev_pscale(b, k, a[k], x, y);
        lemma_canon_pmul(d, b);
        lemma_ev_padd(pmul(d, b), pscale(b, k, a[k]), x, y);
        let u = mval(k, x, y) * a[k];
        assert((ev(d, x, y) + u) * v == ev(d, x, y) * v + u * v) by (nonlinear_arith);
    }
}
pub proof fn lemma_nonneg_pmul(a: PM, b: PM) requires nonneg(a), nonneg(b) ensures nonneg(pmul(a, b)) {
    assert forall|i: MV| #[trigger] pmul(a, b).contains_key(i) implies i.x >= 0 && i.y >= 0 by { let (j, k) = lemma_keys_pmul(a, b, i); }
}
pub proof fn lemma_nonneg_ppow(a: PM, n: int) requires nonneg(a) ensures nonneg(ppow(a, n)) decreases n { if n > 0 { lemma_nonneg_ppow(a, n - 1); lemma_nonneg_pmul(a, ppow(a, n - 1)); } }
pub proof fn lemma_ev_ppow(a: PM, n: int, x: int, y: int) requires canon(a), nonneg(a), n >= 0 ensures ev(ppow(a, n), x, y) == pow(ev(a, x, y), n) decreases n {
    if n == 0 { lemma_ev_p1(x, y); }
    else { lemma_ev_ppow(a, n - 1, x, y); lemma_canon_ppow(a, n - 1); lemma_nonneg_ppow(a, n - 1); lemma_ev_pmul(a, ppow(a, n - 1), x, y); }
}
pub open spec fn evof(f: spec_fn(MV, int) -> PM, x: int, y: int) -> spec_fn(MV, int) -> int { |k: MV, c: int| ev(f(k, c), x, y) }
pub proof fn lemma_ev_psum(m: PM, f: spec_fn(MV, int) -> PM, x: int, y: int) requires forall|k: MV, c: int| canon(#[trigger] f(k, c)) ensures ev(psum(m, f), x, y) == isum(m, evof(f, x, y)) decreases m.len() {
    if m.len() != 0 {
        let k = m.dom().choose(); let d = m.remove(k);
        lemma_ev_psum(d, f, x, y);
        lemma_psum_canon(d, f);
        lemma_ev_padd(psum(d, f), f(k, m[k]), x, y);
    }
}
/// C12: partial evaluation keeps the values
pub proof fn lemma_pevx_value(m: PM, v: int, x: int, y: int) requires xnonneg(m) ensures ev(psum(m, exf(v)), x, y) == ev(m, v, y) {
    broadcast use poly_cf;
    lemma_ev_psum(m, exf(v), x, y);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies evof(exf(v), x, y)(k, m[k]) == evf(v, y)(k, m[k]) by {
        lemma_ev_mono(xz(k), m[k] * pow(v, k.x), x, y);
        let (a, b, c) = (pow(v, k.x), pow(y, k.y), m[k]);
        assert((1 * b) * (c * a) == (a * b) * c) by (nonlinear_arith);
    }
    lemma_isum_cong(m, evof(exf(v), x, y), evf(v, y));
}
pub proof fn lemma_pevy_value(m: PM, v: int, x: int, y: int) requires ynonneg(m) ensures ev(psum(m, eyf(v)), x, y) == ev(m, x, v) {
    broadcast use poly_cf;
    lemma_ev_psum(m, eyf(v), x, y);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies evof(eyf(v), x, y)(k, m[k]) == evf(x, v)(k, m[k]) by {
        lemma_ev_mono(yz(k), m[k] * pow(v, k.y), x, y);
        let (a, b, c) = (pow(x, k.x), pow(v, k.y), m[k]);
        assert((a * 1) * (c * b) == (a * b) * c) by (nonlinear_arith);
    }
    lemma_isum_cong(m, evof(eyf(v), x, y), evf(x, v));
}
/// C12: substitution evaluates to the value at the substituted value
pub proof fn lemma_subx_value(m: PM, g: PM, x: int, y: int) requires nonneg(m), canon(g), nonneg(g) ensures ev(psum(m, sxf(g)), x, y) == ev(m, ev(g, x, y), y) {
    broadcast use poly_cf;
    lemma_ev_psum(m, sxf(g), x, y);
    let v = ev(g, x, y);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies evof(sxf(g), x, y)(k, m[k]) == evf(v, y)(k, m[k]) by {
        lemma_canon_ppow(g, k.x); lemma_nonneg_ppow(g, k.x);
        lemma_ev_pscale(ppow(g, k.x), xz(k), m[k], x, y);
        lemma_ev_ppow(g, k.x, x, y);
        let (a, b, c) = (pow(v, k.x), pow(y, k.y), m[k]);
        assert(((1 * b) * c) * a == (a * b) * c) by (nonlinear_arith);
    }
    lemma_isum_cong(m, evof(sxf(g), x, y), evf(v, y));
}
pub proof fn lemma_suby_value(m: PM, g: PM, x: int, y: int) requires nonneg(m), canon(g), nonneg(g) ensures ev(psum(m, syf(g)), x, y) == ev(m, x, ev(g, x, y)) {
    broadcast use poly_cf;
    lemma_ev_psum(m, syf(g), x, y);
    let v = ev(g, x, y);
    assert forall|k: MV| #[trigger] m.contains_key(k) implies evof(syf(g), x, y)(k, m[k]) == evf(x, v)(k, m[k]) by {
        lemma_canon_ppow(g, k.y); lemma_nonneg_ppow(g, k.y);
        lemma_ev_pscale(ppow(g, k.y), yz(k), m[k], x, y);
        lemma_ev_ppow(g, k.y, x, y);
        let (a, b, c) = (pow(x, k.x), pow(v, k.y), m[k]);
        assert(((a * 1) * c) * b == (a * b) * c) by (nonlinear_arith);
    }
    lemma_isum_cong(m, evof(syf(g), x, y), evf(x, v));
}
pub open spec fn sxfit(m: PM, g: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.x >= 0 && powfit(g, k.x) && mulfit(ppow(g, k.x), mono(xz(k), 1)) }
pub open spec fn syfit(m: PM, g: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> k.y >= 0 && powfit(g, k.y) && mulfit(ppow(g, k.y), mono(yz(k), 1)) }
/// the scalar factor applied after the substitution of one monomial
pub proof fn lemma_sub_scalar(g: PM, k: MV, c: int) requires mulfit(g, mono(k, 1)) ensures mulfit(pscale(g, k, 1), mono(m1(), c)), pmul(pscale(g, k, 1), mono(m1(), c)) == pscale(g, k, c) {
    broadcast use poly_cf;
    lemma_keys_pscale(g, k, 1);
    assert forall|i: MV, j: MV| #[trigger] pscale(g, k, 1).contains_key(i) && #[trigger] mono(m1(), c).contains_key(j) implies mfit(mmul(i, j)) by { assert(mono(k, 1).contains_key(k)); assert(g.contains_key(mdiv(i, k))); assert(mmul(mdiv(i, k), k) == i); assert(mmul(i, m1()) == i); }
    lemma_mul_mono_r(pscale(g, k, 1), m1(), c);
    lemma_scale_scale(g, k, 1, m1(), c);
    assert(mmul(k, m1()) == k);
}
pub proof fn lemma_mulfit_sym(a: PM, b: PM) requires mulfit(a, b) ensures mulfit(b, a) {
    assert forall|j: MV, k: MV| #[trigger] b.contains_key(j) && #[trigger] a.contains_key(k) implies mfit(mmul(j, k)) by { assert(mmul(j, k) == mmul(k, j)); }
}
pub proof fn lemma_sub_rm(a: PM, b: PM, k: MV) requires a.submap_of(b) ensures a.remove(k).submap_of(b) {
    assert forall|j: MV| #[trigger] a.remove(k).dom().contains(j) implies b.dom().contains(j) && b[j] == a.remove(k)[j] by { assert(a.dom().contains(j)); }
}
