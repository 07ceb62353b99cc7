// Polynomials in x, y, q and the subscripted variables as finite maps from
// monomials to coefficients.  Everything here is proved except `axiom_key_lt`.
use crate::arith::*;
/// monomial: exponents of x, y, q; vn = number of subscripted variables, with
/// their subscripts added up (at most one in the crate: (1, i, j))
pub struct MV { pub x: int, pub y: int, pub q: int, pub vn: int, pub vi: int, pub vj: int }
pub type PM = Map<MV, int>;
pub open spec fn m1() -> MV { MV { x: 0, y: 0, q: 0, vn: 0, vi: 0, vj: 0 } }
pub open spec fn mk(x: int, y: int, q: int) -> MV { MV { x, y, q, vn: 0, vi: 0, vj: 0 } }
pub open spec fn mmul(a: MV, b: MV) -> MV { MV { x: a.x + b.x, y: a.y + b.y, q: a.q + b.q, vn: a.vn + b.vn, vi: a.vi + b.vi, vj: a.vj + b.vj } }
pub open spec fn mdiv(a: MV, b: MV) -> MV { MV { x: a.x - b.x, y: a.y - b.y, q: a.q - b.q, vn: a.vn - b.vn, vi: a.vi - b.vi, vj: a.vj - b.vj } }
/// lexicographic order
pub open spec fn mlt(a: MV, b: MV) -> bool {
    a.x < b.x || (a.x == b.x && (a.y < b.y || (a.y == b.y && (a.q < b.q || (a.q == b.q && (a.vn < b.vn || (a.vn == b.vn && (a.vi < b.vi || (a.vi == b.vi && a.vj < b.vj)))))))))
}
pub open spec fn mcmp(a: MV, b: MV) -> std::cmp::Ordering { if mlt(a, b) { std::cmp::Ordering::Less } else if mlt(b, a) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } }
/// the order laws (total, transitive, antisymmetric, consistent with equality)
pub proof fn lemma_mcmp_total(a: MV, b: MV, c: MV)
    ensures mcmp(a, b) == std::cmp::Ordering::Equal <==> a == b, mlt(a, b) || mlt(b, a) || a == b, !(mlt(a, b) && mlt(b, a)), mlt(a, b) && mlt(b, c) ==> mlt(a, c) {}
/// ASSUMED: BTreeMap orders its keys by the key type's Ord (whose implementation is verified, C05)
#[verifier::external_body]
pub broadcast proof fn axiom_key_lt(a: MV, b: MV) ensures #[trigger] key_lt::<MV>(a, b) == mlt(a, b) {}

pub open spec fn cf(m: PM, k: MV) -> int { if m.contains_key(k) { m[k] } else { 0 } }
/// canonical: no stored zero coefficient
pub open spec fn canon(m: PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> m[k] != 0 }
pub open spec fn p0() -> PM { Map::<MV, int>::empty() }
pub open spec fn p1() -> PM { mono(m1(), 1) }
pub open spec fn mono(k: MV, c: int) -> PM { if c == 0 { p0() } else { p0().insert(k, c) } }
#[verifier::opaque]
pub open spec fn padd(a: PM, b: PM) -> PM { Map::new((a.dom() + b.dom()).filter(|k: MV| cf(a, k) + cf(b, k) != 0), |k: MV| cf(a, k) + cf(b, k)) }
#[verifier::opaque]
pub open spec fn pneg(a: PM) -> PM { Map::new(a.dom(), |k: MV| -a[k]) }
/// c * k * b
#[verifier::opaque]
pub open spec fn pscale(b: PM, k: MV, c: int) -> PM { Map::new(b.dom().map(|j: MV| mmul(j, k)).filter(|j: MV| c * cf(b, mdiv(j, k)) != 0), |j: MV| c * cf(b, mdiv(j, k))) }
/// shift by 1/k and floor-divide every coefficient by c
#[verifier::opaque]
pub open spec fn pdivm(b: PM, k: MV, c: int) -> PM { Map::new(b.dom().map(|j: MV| mdiv(j, k)).filter(|j: MV| fdiv(cf(b, mmul(j, k)), c) != 0), |j: MV| fdiv(cf(b, mmul(j, k)), c)) }
#[verifier::opaque]
pub open spec fn pmod(a: PM, n: int) -> PM { Map::new(a.dom().filter(|k: MV| cf(a, k) % n != 0), |k: MV| cf(a, k) % n) }
pub open spec fn psub(a: PM, b: PM) -> PM { padd(a, pneg(b)) }

pub proof fn lemma_ext(a: PM, b: PM)
    requires canon(a), canon(b), forall|k: MV| cf(a, k) == cf(b, k)
    ensures a == b
{
    assert forall|k: MV| a.contains_key(k) <==> b.contains_key(k) by { assert(cf(a, k) == cf(b, k)); }
    assert forall|k: MV| #[trigger] a.contains_key(k) implies a[k] == b[k] by { assert(cf(a, k) == cf(b, k)); }
    assert(a =~= b);
}
pub broadcast proof fn lemma_cf_empty(k: MV) ensures #[trigger] cf(p0(), k) == 0 {}
pub broadcast proof fn lemma_cf_mono(m: MV, c: int, k: MV) ensures #[trigger] cf(mono(m, c), k) == if k == m { c } else { 0 } {}
pub broadcast proof fn lemma_cf_padd(a: PM, b: PM, k: MV) ensures #[trigger] cf(padd(a, b), k) == cf(a, k) + cf(b, k) { reveal(padd); }
pub broadcast proof fn lemma_cf_pneg(a: PM, k: MV) ensures #[trigger] cf(pneg(a), k) == -cf(a, k) { reveal(pneg); }
pub broadcast proof fn lemma_cf_pscale(a: PM, m: MV, c: int, k: MV) ensures #[trigger] cf(pscale(a, m, c), k) == c * cf(a, mdiv(k, m)) {
    reveal(pscale);
    let j = mdiv(k, m);
    assert(mmul(j, m) == k);
    if a.contains_key(j) { assert(a.dom().map(|j: MV| mmul(j, m)).contains(mmul(j, m))); } else { assert(c * 0 == 0); }
}
pub proof fn lemma_fdiv0(c: int) requires c != 0 ensures fdiv(0, c) == 0 {
    if c > 0 { vstd::arithmetic::div_mod::lemma_div_basics(c); } else { vstd::arithmetic::div_mod::lemma_div_basics(-c); }
}
pub proof fn lemma_cf_pdivm(a: PM, m: MV, c: int, k: MV) requires c != 0 ensures cf(pdivm(a, m, c), k) == fdiv(cf(a, mmul(k, m)), c) {
    reveal(pdivm); lemma_fdiv0(c);
    let j = mmul(k, m);
    assert(mdiv(j, m) == k);
    if a.contains_key(j) { assert(a.dom().map(|j: MV| mdiv(j, m)).contains(mdiv(j, m))); }
}
pub broadcast proof fn lemma_cf_pmod(a: PM, n: int, k: MV) requires n > 0 ensures #[trigger] cf(pmod(a, n), k) == cf(a, k) % n { reveal(pmod); vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat); }
pub broadcast proof fn lemma_canon_mono(m: MV, c: int) ensures canon(#[trigger] mono(m, c)) {}
pub broadcast proof fn lemma_canon_p0() ensures #[trigger] canon(p0()) {}
pub broadcast proof fn lemma_canon_padd(a: PM, b: PM) ensures canon(#[trigger] padd(a, b)) { reveal(padd); }
pub broadcast proof fn lemma_canon_pneg(a: PM) requires canon(a) ensures canon(#[trigger] pneg(a)) { reveal(pneg); }
pub broadcast proof fn lemma_canon_pscale(a: PM, m: MV, c: int) ensures canon(#[trigger] pscale(a, m, c)) { reveal(pscale); }
pub broadcast proof fn lemma_canon_pdivm(a: PM, m: MV, c: int) ensures canon(#[trigger] pdivm(a, m, c)) { reveal(pdivm); }
pub broadcast proof fn lemma_canon_pmod(a: PM, n: int) ensures canon(#[trigger] pmod(a, n)) { reveal(pmod); }
pub broadcast group poly_cf {
    lemma_cf_empty, lemma_cf_mono, lemma_cf_padd, lemma_cf_pneg, lemma_cf_pscale, lemma_cf_pmod,
    lemma_canon_mono, lemma_canon_p0, lemma_canon_padd, lemma_canon_pneg, lemma_canon_pscale, lemma_canon_pdivm, lemma_canon_pmod,
}

// ---- additive group ----
pub proof fn lemma_padd_comm(a: PM, b: PM) ensures padd(a, b) == padd(b, a) { broadcast use poly_cf; lemma_ext(padd(a, b), padd(b, a)); }
pub proof fn lemma_padd_assoc(a: PM, b: PM, c: PM) ensures padd(padd(a, b), c) == padd(a, padd(b, c)) { broadcast use poly_cf; lemma_ext(padd(padd(a, b), c), padd(a, padd(b, c))); }
/// (a + b) + c == (a + c) + b
pub proof fn lemma_padd_swap(a: PM, b: PM, c: PM) ensures padd(padd(a, b), c) == padd(padd(a, c), b) { broadcast use poly_cf; lemma_ext(padd(padd(a, b), c), padd(padd(a, c), b)); }
pub proof fn lemma_padd_0(a: PM) requires canon(a) ensures padd(a, p0()) == a, padd(p0(), a) == a { broadcast use poly_cf; lemma_ext(padd(a, p0()), a); lemma_ext(padd(p0(), a), a); }
pub proof fn lemma_psub_self(a: PM) requires canon(a) ensures psub(a, a) == p0() { broadcast use poly_cf; lemma_ext(psub(a, a), p0()); }
pub proof fn lemma_pneg_scale(a: PM) requires canon(a) ensures pneg(a) == pscale(a, m1(), -1) {
    broadcast use poly_cf;
    assert forall|k: MV| cf(pneg(a), k) == cf(pscale(a, m1(), -1), k) by { assert(mdiv(k, m1()) == k); }
    lemma_ext(pneg(a), pscale(a, m1(), -1));
}
/// peel one stored term off
pub proof fn lemma_peel(a: PM, k: MV) requires canon(a), a.contains_key(k) ensures canon(a.remove(k)), padd(a.remove(k), mono(k, a[k])) == a {
    broadcast use poly_cf;
    assert forall|j: MV| cf(padd(a.remove(k), mono(k, a[k])), j) == cf(a, j) by {}
    lemma_ext(padd(a.remove(k), mono(k, a[k])), a);
}
/// adding a term the way the crate does it (insert / add / remove on zero)
pub open spec fn addterm(a: PM, k: MV, c: int) -> PM { if a.contains_key(k) { if a[k] + c == 0 { a.remove(k) } else { a.insert(k, a[k] + c) } } else { a.insert(k, c) } }
pub proof fn lemma_addterm(a: PM, k: MV, c: int) requires canon(a), a.contains_key(k) || c != 0 ensures addterm(a, k, c) == padd(a, mono(k, c)), canon(addterm(a, k, c)) {
    broadcast use poly_cf;
    lemma_ext(addterm(a, k, c), padd(a, mono(k, c)));
}
/// one step of `a + b` computed term by term
pub proof fn lemma_add_step(acc: PM, rest: PM, k: MV)
    requires canon(acc), canon(rest), rest.contains_key(k)
    ensures padd(padd(acc, mono(k, rest[k])), rest.remove(k)) == padd(acc, rest), canon(rest.remove(k))
{
    broadcast use poly_cf;
    lemma_peel(rest, k);
    lemma_ext(padd(padd(acc, mono(k, rest[k])), rest.remove(k)), padd(acc, rest));
}
pub proof fn lemma_sub_step(acc: PM, rest: PM, k: MV)
    requires canon(acc), canon(rest), rest.contains_key(k)
    ensures psub(padd(acc, mono(k, -rest[k])), rest.remove(k)) == psub(acc, rest), canon(rest.remove(k))
{
    broadcast use poly_cf;
    lemma_peel(rest, k);
    lemma_ext(psub(padd(acc, mono(k, -rest[k])), rest.remove(k)), psub(acc, rest));
}

// ---- sums over the terms ----
pub open spec fn psum(m: PM, f: spec_fn(MV, int) -> PM) -> PM decreases m.len() {
    if m.len() == 0 { p0() } else { let k = m.dom().choose(); padd(psum(m.remove(k), f), f(k, m[k])) }
}
pub open spec fn isum(m: PM, f: spec_fn(MV, int) -> int) -> int decreases m.len() {
    if m.len() == 0 { 0 } else { let k = m.dom().choose(); isum(m.remove(k), f) + f(k, m[k]) }
}
pub proof fn lemma_psum_canon(m: PM, f: spec_fn(MV, int) -> PM) ensures canon(psum(m, f)) { broadcast use poly_cf; }
pub proof fn lemma_psum_empty(f: spec_fn(MV, int) -> PM) ensures psum(p0(), f) == p0() {}
pub proof fn lemma_isum_empty(f: spec_fn(MV, int) -> int) ensures isum(p0(), f) == 0 {}
/// order of summation does not matter
pub proof fn lemma_psum_remove(m: PM, f: spec_fn(MV, int) -> PM, k: MV) requires m.contains_key(k) ensures psum(m, f) == padd(psum(m.remove(k), f), f(k, m[k])) decreases m.len() {
    assert(m.len() != 0) by { if m.len() == 0 { assert(m.dom() =~= Set::<MV>::empty()); } }
    let c = m.dom().choose();
    if c != k {
        let d = m.remove(c); let e = m.remove(k);
        lemma_psum_remove(d, f, k);
        lemma_psum_remove(e, f, c);
        assert(d.remove(k) =~= e.remove(c));
        lemma_padd_swap(psum(d.remove(k), f), f(k, m[k]), f(c, m[c]));
    }
}
pub proof fn lemma_isum_remove(m: PM, f: spec_fn(MV, int) -> int, k: MV) requires m.contains_key(k) ensures isum(m, f) == isum(m.remove(k), f) + f(k, m[k]) decreases m.len() {
    assert(m.len() != 0) by { if m.len() == 0 { assert(m.dom() =~= Set::<MV>::empty()); } }
    let c = m.dom().choose();
    if c != k {
        let d = m.remove(c); let e = m.remove(k);
        lemma_isum_remove(d, f, k);
        lemma_isum_remove(e, f, c);
        assert(d.remove(k) =~= e.remove(c));
    }
}
/// loop step: accumulate one term's contribution
pub proof fn lemma_psum_step(acc: PM, rest: PM, f: spec_fn(MV, int) -> PM, k: MV) requires rest.contains_key(k)
    ensures padd(padd(acc, f(k, rest[k])), psum(rest.remove(k), f)) == padd(acc, psum(rest, f))
{
    broadcast use poly_cf;
    lemma_psum_remove(rest, f, k);
    lemma_ext(padd(padd(acc, f(k, rest[k])), psum(rest.remove(k), f)), padd(acc, psum(rest, f)));
}
pub open spec fn same_on(m: PM, f: spec_fn(MV, int) -> PM, g: spec_fn(MV, int) -> PM) -> bool { forall|k: MV| #[trigger] m.contains_key(k) ==> f(k, m[k]) == g(k, m[k]) }
pub proof fn lemma_psum_cong(m: PM, f: spec_fn(MV, int) -> PM, g: spec_fn(MV, int) -> PM) requires same_on(m, f, g) ensures psum(m, f) == psum(m, g) decreases m.len() {
    if m.len() != 0 {
        let c = m.dom().choose();
        assert(m.contains_key(c));
        let d = m.remove(c);
        assert forall|k: MV| #[trigger] d.contains_key(k) implies f(k, d[k]) == g(k, d[k]) by { assert(m.contains_key(k)); }
        lemma_psum_cong(d, f, g);
    }
}
pub proof fn lemma_isum_cong(m: PM, f: spec_fn(MV, int) -> int, g: spec_fn(MV, int) -> int) requires forall|k: MV| #[trigger] m.contains_key(k) ==> f(k, m[k]) == g(k, m[k]) ensures isum(m, f) == isum(m, g) decreases m.len() {
    if m.len() != 0 {
        let c = m.dom().choose();
        assert(m.contains_key(c));
        let d = m.remove(c);
        assert forall|k: MV| #[trigger] d.contains_key(k) implies f(k, d[k]) == g(k, d[k]) by { assert(m.contains_key(k)); }
        lemma_isum_cong(d, f, g);
    }
}
/// coefficient of a sum
pub proof fn lemma_cf_psum(m: PM, f: spec_fn(MV, int) -> PM, j: MV) ensures cf(psum(m, f), j) == isum(m, |k: MV, c: int| cf(f(k, c), j)) decreases m.len() {
    broadcast use poly_cf;
    if m.len() != 0 { lemma_cf_psum(m.remove(m.dom().choose()), f, j); }
}
/// f is additive in the coefficient
pub open spec fn paddc(f: spec_fn(MV, int) -> PM, k: MV, c: int, d: int) -> bool { padd(f(k, c), f(k, d)) == f(k, c + d) }
pub open spec fn iaddc(f: spec_fn(MV, int) -> int, k: MV, c: int, d: int) -> bool { f(k, c) + f(k, d) == f(k, c + d) }
pub open spec fn plin(f: spec_fn(MV, int) -> PM) -> bool { (forall|k: MV, c: int, d: int| #[trigger] paddc(f, k, c, d)) && (forall|k: MV| #[trigger] f(k, 0) == p0()) && (forall|k: MV, c: int| canon(#[trigger] f(k, c))) }
pub open spec fn ilin(f: spec_fn(MV, int) -> int) -> bool { (forall|k: MV, c: int, d: int| #[trigger] iaddc(f, k, c, d)) && (forall|k: MV| #[trigger] f(k, 0) == 0) }
pub proof fn lemma_psum_addmono(a: PM, k: MV, c: int, f: spec_fn(MV, int) -> PM) requires canon(a), plin(f) ensures psum(padd(a, mono(k, c)), f) == padd(psum(a, f), f(k, c)) {
    broadcast use poly_cf;
    lemma_psum_canon(a, f);
    if c == 0 { lemma_padd_0(a); lemma_padd_0(psum(a, f)); }
    else {
        lemma_addterm(a, k, c);
        let s = addterm(a, k, c);
        if a.contains_key(k) {
            lemma_psum_remove(a, f, k);
            let r = psum(a.remove(k), f);
            lemma_padd_assoc(r, f(k, a[k]), f(k, c));
            assert(paddc(f, k, a[k], c));
            if a[k] + c == 0 { lemma_psum_canon(a.remove(k), f); lemma_padd_0(r); }
            else { lemma_psum_remove(s, f, k); assert(s.remove(k) =~= a.remove(k)); }
        } else { lemma_psum_remove(s, f, k); assert(s.remove(k) =~= a); }
    }
}
pub proof fn lemma_psum_padd(a: PM, b: PM, f: spec_fn(MV, int) -> PM) requires canon(a), canon(b), plin(f) ensures psum(padd(a, b), f) == padd(psum(a, f), psum(b, f)) decreases b.len() {
    broadcast use poly_cf;
    if b.len() == 0 { assert(b =~= p0()); lemma_padd_0(a); lemma_psum_canon(a, f); lemma_padd_0(psum(a, f)); }
    else {
        let k = b.dom().choose();
        assert(b.contains_key(k));
        lemma_peel(b, k);
        lemma_psum_padd(a, b.remove(k), f);
        lemma_padd_assoc(a, b.remove(k), mono(k, b[k]));
        lemma_psum_addmono(padd(a, b.remove(k)), k, b[k], f);
        lemma_padd_assoc(psum(a, f), psum(b.remove(k), f), f(k, b[k]));
    }
}
pub proof fn lemma_isum_addmono(a: PM, k: MV, c: int, f: spec_fn(MV, int) -> int) requires canon(a), ilin(f) ensures isum(padd(a, mono(k, c)), f) == isum(a, f) + f(k, c) {
    broadcast use poly_cf;
    if c == 0 { lemma_padd_0(a); }
    else {
        lemma_addterm(a, k, c);
        let s = addterm(a, k, c);
        if a.contains_key(k) {
            lemma_isum_remove(a, f, k);
            assert(iaddc(f, k, a[k], c));
            if a[k] + c == 0 { } else { lemma_isum_remove(s, f, k); assert(s.remove(k) =~= a.remove(k)); }
        } else { lemma_isum_remove(s, f, k); assert(s.remove(k) =~= a); }
    }
}
pub proof fn lemma_isum_padd(a: PM, b: PM, f: spec_fn(MV, int) -> int) requires canon(a), canon(b), ilin(f) ensures isum(padd(a, b), f) == isum(a, f) + isum(b, f) decreases b.len() {
    broadcast use poly_cf;
    if b.len() == 0 { assert(b =~= p0()); lemma_padd_0(a); }
    else {
        let k = b.dom().choose();
        assert(b.contains_key(k));
        lemma_peel(b, k);
        lemma_isum_padd(a, b.remove(k), f);
        lemma_padd_assoc(a, b.remove(k), mono(k, b[k]));
        lemma_isum_addmono(padd(a, b.remove(k)), k, b[k], f);
        lemma_isum_addmono(b.remove(k), k, b[k], f);
    }
}

// ---- product ----
pub open spec fn pmul(a: PM, b: PM) -> PM { psum(a, |k: MV, c: int| pscale(b, k, c)) }
pub open spec fn scl(b: PM) -> spec_fn(MV, int) -> PM { |k: MV, c: int| pscale(b, k, c) }
/// the product's coefficients are the convolution of the factors' coefficients
pub proof fn lemma_convolution(a: PM, b: PM, j: MV) ensures cf(pmul(a, b), j) == isum(a, |k: MV, c: int| c * cf(b, mdiv(j, k))) {
    broadcast use poly_cf;
    lemma_cf_psum(a, scl(b), j);
    lemma_isum_cong(a, |k: MV, c: int| cf(pscale(b, k, c), j), |k: MV, c: int| c * cf(b, mdiv(j, k)));
    assert((|k: MV, c: int| cf(scl(b)(k, c), j)) =~= (|k: MV, c: int| cf(pscale(b, k, c), j)));
}
pub proof fn lemma_canon_pmul(a: PM, b: PM) ensures canon(pmul(a, b)) { lemma_psum_canon(a, scl(b)); }
pub proof fn lemma_scale_addc(b: PM, k: MV, c: int, d: int) ensures padd(pscale(b, k, c), pscale(b, k, d)) == pscale(b, k, c + d) {
    broadcast use poly_cf;
    assert forall|j: MV| cf(padd(pscale(b, k, c), pscale(b, k, d)), j) == cf(pscale(b, k, c + d), j) by {
        let u = cf(b, mdiv(j, k)); assert(c * u + d * u == (c + d) * u) by (nonlinear_arith);
    }
    lemma_ext(padd(pscale(b, k, c), pscale(b, k, d)), pscale(b, k, c + d));
}
pub proof fn lemma_scale_0(b: PM, k: MV) ensures pscale(b, k, 0) == p0(), pscale(p0(), k, 0) == p0() {
    broadcast use poly_cf;
    assert forall|j: MV| cf(pscale(b, k, 0), j) == cf(p0(), j) by { assert(0 * cf(b, mdiv(j, k)) == 0); }
    lemma_ext(pscale(b, k, 0), p0());
    assert forall|j: MV| cf(pscale(p0(), k, 0), j) == cf(p0(), j) by { assert(0 * cf(p0(), mdiv(j, k)) == 0); }
    lemma_ext(pscale(p0(), k, 0), p0());
}
pub proof fn lemma_scale_p0(k: MV, c: int) ensures pscale(p0(), k, c) == p0() {
    broadcast use poly_cf;
    assert forall|j: MV| cf(pscale(p0(), k, c), j) == cf(p0(), j) by { assert(c * 0 == 0); }
    lemma_ext(pscale(p0(), k, c), p0());
}
pub proof fn lemma_scl_lin(b: PM) ensures plin(scl(b)) {
    broadcast use poly_cf;
    let f = scl(b);
    assert forall|k: MV, c: int, d: int| #[trigger] paddc(f, k, c, d) by { lemma_scale_addc(b, k, c, d); }
    assert forall|k: MV| #[trigger] f(k, 0) == p0() by { lemma_scale_0(b, k); }
}
pub proof fn lemma_scale_padd(a: PM, b: PM, k: MV, c: int) ensures pscale(padd(a, b), k, c) == padd(pscale(a, k, c), pscale(b, k, c)) {
    broadcast use poly_cf;
    assert forall|j: MV| cf(pscale(padd(a, b), k, c), j) == cf(padd(pscale(a, k, c), pscale(b, k, c)), j) by {
        let u = cf(a, mdiv(j, k)); let v = cf(b, mdiv(j, k)); assert(c * (u + v) == c * u + c * v) by (nonlinear_arith);
    }
    lemma_ext(pscale(padd(a, b), k, c), padd(pscale(a, k, c), pscale(b, k, c)));
}
pub proof fn lemma_scale_scale(a: PM, k: MV, c: int, l: MV, d: int) ensures pscale(pscale(a, k, c), l, d) == pscale(a, mmul(k, l), c * d) {
    broadcast use poly_cf;
    assert forall|j: MV| cf(pscale(pscale(a, k, c), l, d), j) == cf(pscale(a, mmul(k, l), c * d), j) by {
        assert(mdiv(mdiv(j, l), k) == mdiv(j, mmul(k, l)));
        let u = cf(a, mdiv(j, mmul(k, l))); assert(d * (c * u) == (c * d) * u) by (nonlinear_arith);
    }
    lemma_ext(pscale(pscale(a, k, c), l, d), pscale(a, mmul(k, l), c * d));
}
pub proof fn lemma_scale_mono(k: MV, c: int, l: MV, d: int) ensures pscale(mono(k, c), l, d) == mono(mmul(k, l), c * d) {
    broadcast use poly_cf;
    assert forall|j: MV| cf(pscale(mono(k, c), l, d), j) == cf(mono(mmul(k, l), c * d), j) by {
        assert(mdiv(j, l) == k <==> j == mmul(k, l));
        assert(d * 0 == 0); assert(d * c == c * d) by (nonlinear_arith);
    }
    lemma_ext(pscale(mono(k, c), l, d), mono(mmul(k, l), c * d));
}
pub proof fn lemma_scale_1(a: PM) requires canon(a) ensures pscale(a, m1(), 1) == a {
    broadcast use poly_cf;
    assert forall|j: MV| cf(pscale(a, m1(), 1), j) == cf(a, j) by { assert(mdiv(j, m1()) == j); assert(1 * cf(a, j) == cf(a, j)); }
    lemma_ext(pscale(a, m1(), 1), a);
}
pub proof fn lemma_mul_padd_l(a: PM, b: PM, c: PM) requires canon(a), canon(b) ensures pmul(padd(a, b), c) == padd(pmul(a, c), pmul(b, c)) {
    lemma_scl_lin(c);
    lemma_psum_padd(a, b, scl(c));
}
pub proof fn lemma_mul_p0(a: PM) ensures pmul(p0(), a) == p0() {}
pub proof fn lemma_mul_mono_l(k: MV, c: int, b: PM) ensures pmul(mono(k, c), b) == pscale(b, k, c) {
    broadcast use poly_cf;
    if c == 0 { lemma_scale_0(b, k); }
    else {
        lemma_psum_remove(mono(k, c), scl(b), k);
        assert(mono(k, c).remove(k) =~= p0());
        lemma_padd_0(pscale(b, k, c));
    }
}
pub proof fn lemma_mul_mono_r(a: PM, k: MV, c: int) requires canon(a) ensures pmul(a, mono(k, c)) == pscale(a, k, c) decreases a.len() {
    broadcast use poly_cf;
    if a.len() == 0 { assert(a =~= p0()); lemma_scale_p0(k, c); }
    else {
        let j = a.dom().choose();
        assert(a.contains_key(j));
        lemma_peel(a, j);
        lemma_mul_mono_r(a.remove(j), k, c);
        lemma_scale_padd(a.remove(j), mono(j, a[j]), k, c);
        lemma_scale_mono(j, a[j], k, c);
        lemma_scale_mono(k, c, j, a[j]);
        assert(mmul(j, k) == mmul(k, j));
        assert(a[j] * c == c * a[j]) by (nonlinear_arith);
    }
}
pub proof fn lemma_mul_padd_r(a: PM, b: PM, c: PM) requires canon(b), canon(c) ensures pmul(a, padd(b, c)) == padd(pmul(a, b), pmul(a, c)) decreases a.len() {
    broadcast use poly_cf;
    if a.len() == 0 { lemma_padd_0(p0()); }
    else {
        let k = a.dom().choose();
        let d = a.remove(k);
        lemma_mul_padd_r(d, b, c);
        lemma_scale_padd(b, c, k, a[k]);
        let (u, v, w, z) = (pmul(d, b), pmul(d, c), pscale(b, k, a[k]), pscale(c, k, a[k]));
        lemma_ext(padd(padd(u, v), padd(w, z)), padd(padd(u, w), padd(v, z)));
    }
}
pub proof fn lemma_mul_comm(a: PM, b: PM) requires canon(a), canon(b) ensures pmul(a, b) == pmul(b, a) decreases a.len() {
    broadcast use poly_cf;
    if a.len() == 0 { assert(a =~= p0()); lemma_mul_p0(b); lemma_mul_mono_r(b, m1(), 0); lemma_scale_0(b, m1()); }
    else {
        let k = a.dom().choose();
        assert(a.contains_key(k));
        lemma_peel(a, k);
        lemma_mul_comm(a.remove(k), b);
        lemma_mul_padd_r(b, a.remove(k), mono(k, a[k]));
        lemma_mul_mono_r(b, k, a[k]);
    }
}
pub proof fn lemma_mul_scale(a: PM, k: MV, c: int, b: PM) requires canon(a), canon(b) ensures pmul(pscale(a, k, c), b) == pscale(pmul(a, b), k, c) decreases a.len() {
    broadcast use poly_cf;
    if a.len() == 0 { assert(a =~= p0()); lemma_scale_p0(k, c); }
    else {
        let j = a.dom().choose();
        assert(a.contains_key(j));
        let d = a.remove(j);
        lemma_peel(a, j);
        lemma_mul_scale(d, k, c, b);
        lemma_scale_padd(d, mono(j, a[j]), k, c);
        lemma_scale_mono(j, a[j], k, c);
        lemma_mul_padd_l(pscale(d, k, c), mono(mmul(j, k), a[j] * c), b);
        lemma_mul_mono_l(mmul(j, k), a[j] * c, b);
        lemma_scale_scale(b, j, a[j], k, c);
        lemma_scale_padd(pmul(d, b), pscale(b, j, a[j]), k, c);
    }
}
pub proof fn lemma_mul_assoc(a: PM, b: PM, c: PM) requires canon(a), canon(b), canon(c) ensures pmul(pmul(a, b), c) == pmul(a, pmul(b, c)) decreases a.len() {
    broadcast use poly_cf;
    if a.len() == 0 { lemma_mul_p0(c); }
    else {
        let k = a.dom().choose();
        assert(a.contains_key(k));
        let d = a.remove(k);
        lemma_peel(a, k);
        lemma_mul_assoc(d, b, c);
        lemma_canon_pmul(d, b);
        lemma_mul_padd_l(pmul(d, b), pscale(b, k, a[k]), c);
        lemma_mul_scale(b, k, a[k], c);
    }
}
pub proof fn lemma_mul_1(a: PM) requires canon(a) ensures pmul(p1(), a) == a, pmul(a, p1()) == a {
    lemma_mul_mono_l(m1(), 1, a); lemma_mul_mono_r(a, m1(), 1); lemma_scale_1(a);
}
pub proof fn lemma_mul_neg_r(a: PM, b: PM) requires canon(a), canon(b) ensures pmul(a, pneg(b)) == pneg(pmul(a, b)) {
    broadcast use poly_cf;
    lemma_canon_pmul(a, b); lemma_canon_pmul(a, pneg(b));
    lemma_mul_padd_r(a, b, pneg(b));
    lemma_psub_self(b);
    lemma_mul_mono_r(a, m1(), 0); lemma_scale_0(a, m1());
    let s = padd(pmul(a, b), pmul(a, pneg(b)));
    assert(s == p0());
    assert forall|k: MV| cf(pmul(a, pneg(b)), k) == cf(pneg(pmul(a, b)), k) by { assert(cf(s, k) == cf(p0(), k)); }
    lemma_ext(pmul(a, pneg(b)), pneg(pmul(a, b)));
}
pub proof fn lemma_mul_psub_r(a: PM, b: PM, c: PM) requires canon(a), canon(b), canon(c) ensures pmul(a, psub(b, c)) == psub(pmul(a, b), pmul(a, c)) {
    broadcast use poly_cf;
    lemma_mul_padd_r(a, b, pneg(c)); lemma_mul_neg_r(a, c);
}
pub proof fn lemma_mul_psub_l(a: PM, b: PM, c: PM) requires canon(a), canon(b), canon(c) ensures pmul(psub(a, b), c) == psub(pmul(a, c), pmul(b, c)) {
    broadcast use poly_cf;
    lemma_mul_comm(psub(a, b), c); lemma_mul_comm(a, c); lemma_mul_comm(b, c);
    lemma_mul_psub_r(c, a, b);
}
/// one step of the outer product loop
pub proof fn lemma_mul_step(acc: PM, rest: PM, b: PM, k: MV) requires rest.contains_key(k)
    ensures padd(padd(acc, pscale(b, k, rest[k])), pmul(rest.remove(k), b)) == padd(acc, pmul(rest, b)) { lemma_psum_step(acc, rest, scl(b), k); }
/// one step of the inner product loop
pub proof fn lemma_scale_step(acc: PM, rest: PM, j: MV, k: MV, c: int) requires canon(rest), rest.contains_key(j)
    ensures padd(padd(acc, mono(mmul(k, j), c * rest[j])), pscale(rest.remove(j), k, c)) == padd(acc, pscale(rest, k, c))
{
    broadcast use poly_cf;
    lemma_peel(rest, j);
    lemma_scale_padd(rest.remove(j), mono(j, rest[j]), k, c);
    lemma_scale_mono(j, rest[j], k, c);
    assert(mmul(j, k) == mmul(k, j));
    assert(rest[j] * c == c * rest[j]) by (nonlinear_arith);
    lemma_ext(padd(padd(acc, mono(mmul(k, j), c * rest[j])), pscale(rest.remove(j), k, c)), padd(acc, pscale(rest, k, c)));
}
// ---- powers ----
pub open spec fn ppow(a: PM, n: int) -> PM decreases n { if n <= 0 { p1() } else { pmul(a, ppow(a, n - 1)) } }
pub proof fn lemma_canon_ppow(a: PM, n: int) ensures canon(ppow(a, n)) { broadcast use poly_cf; if n > 0 { lemma_canon_pmul(a, ppow(a, n - 1)); } }
pub proof fn lemma_ppow_1(a: PM) requires canon(a) ensures ppow(a, 1) == a { reveal_with_fuel(ppow, 2); lemma_mul_1(a); }
pub proof fn lemma_ppow_add(a: PM, m: int, n: int) requires canon(a), m >= 0, n >= 0 ensures ppow(a, m + n) == pmul(ppow(a, m), ppow(a, n)) decreases m {
    lemma_canon_ppow(a, n); lemma_canon_ppow(a, m);
    if m == 0 { lemma_mul_1(ppow(a, n)); }
    else {
        lemma_canon_ppow(a, m - 1);
        lemma_ppow_add(a, m - 1, n);
        lemma_mul_assoc(a, ppow(a, m - 1), ppow(a, n));
        assert(ppow(a, m + n) == pmul(a, ppow(a, m - 1 + n)));
    }
}
pub proof fn lemma_ppow_sq(a: PM, e: int) requires canon(a), e >= 0 ensures ppow(pmul(a, a), e) == ppow(a, 2 * e) decreases e {
    if e > 0 {
        lemma_ppow_sq(a, e - 1);
        lemma_canon_ppow(a, 2 * e - 2); lemma_canon_ppow(a, 2 * e - 1);
        lemma_mul_assoc(a, a, ppow(a, 2 * e - 2));
        assert(ppow(a, 2 * e) == pmul(a, ppow(a, 2 * e - 1)));
        assert(ppow(a, 2 * e - 1) == pmul(a, ppow(a, 2 * e - 2)));
    }
}
pub proof fn lemma_psqmul(r: PM, b: PM, e: int) requires e >= 1, canon(r), canon(b)
    ensures e % 2 == 1 ==> pmul(pmul(r, b), ppow(pmul(b, b), e / 2)) == pmul(r, ppow(b, e)), e % 2 == 0 ==> pmul(r, ppow(pmul(b, b), e / 2)) == pmul(r, ppow(b, e))
{
    lemma_ppow_sq(b, e / 2);
    if e % 2 == 1 {
        assert(2 * (e / 2) == e - 1);
        lemma_canon_ppow(b, e - 1);
        lemma_mul_assoc(r, b, ppow(b, e - 1));
    } else { assert(2 * (e / 2) == e); }
}
/// power of a single term
pub open spec fn mpow(k: MV, n: int) -> MV { MV { x: k.x * n, y: k.y * n, q: k.q * n, vn: k.vn * n, vi: k.vi * n, vj: k.vj * n } }
pub proof fn lemma_ppow_mono(k: MV, c: int, n: int) requires n >= 0 ensures ppow(mono(k, c), n) == mono(mpow(k, n), pow(c, n)) decreases n {
    if n == 0 { assert(mpow(k, 0) == m1()) by (nonlinear_arith); }
    else {
        lemma_ppow_mono(k, c, n - 1);
        lemma_mul_mono_l(k, c, mono(mpow(k, n - 1), pow(c, n - 1)));
        lemma_scale_mono(mpow(k, n - 1), pow(c, n - 1), k, c);
        assert(pow(c, n - 1) * c == c * pow(c, n - 1)) by (nonlinear_arith);
        lemma_mpow_step(k, n);
    }
}
proof fn lemma_mpow_step(k: MV, n: int) ensures mmul(mpow(k, n - 1), k) == mpow(k, n) {
    assert(k.x * (n - 1) + k.x == k.x * n) by (nonlinear_arith); assert(k.y * (n - 1) + k.y == k.y * n) by (nonlinear_arith); assert(k.q * (n - 1) + k.q == k.q * n) by (nonlinear_arith);
    assert(k.vn * (n - 1) + k.vn == k.vn * n) by (nonlinear_arith); assert(k.vi * (n - 1) + k.vi == k.vi * n) by (nonlinear_arith); assert(k.vj * (n - 1) + k.vj == k.vj * n) by (nonlinear_arith);
}
pub proof fn lemma_len0(m: PM) ensures m.len() == 0 <==> m == p0(), m.len() == 0 ==> m.dom() == Set::<MV>::empty(), m != p0() ==> m.len() >= 1 {
    if m.len() == 0 { assert(m.dom() =~= Set::<MV>::empty()); assert(m =~= p0()); }
}
/// exponents representable in the crate (i32), at most one subscripted variable
pub open spec fn i32ok(i: int) -> bool { -0x8000_0000 <= i <= 0x7fff_ffff }
pub open spec fn mfit(m: MV) -> bool { i32ok(m.x) && i32ok(m.y) && i32ok(m.q) && m.vn <= 1 }
/// every pair of terms can be multiplied
pub open spec fn mulfit(a: PM, b: PM) -> bool { forall|j: MV, k: MV| #[trigger] a.contains_key(j) && #[trigger] b.contains_key(k) ==> mfit(mmul(j, k)) }
pub open spec fn divfit(a: PM, m: MV) -> bool { forall|j: MV| #[trigger] a.contains_key(j) ==> mfit(mdiv(j, m)) }
pub proof fn lemma_mpow_vn0(k: MV, n: int) requires k.vn == 0 ensures mpow(k, n).vn == 0 { assert(0 * n == 0); }
pub open spec fn frobm(k: MV, n: int) -> MV { MV { x: k.x * n, y: k.y * n, ..k } }
pub open spec fn ypowm(k: MV, n: int) -> MV { MV { y: k.y * n, ..k } }
pub open spec fn qpowm(k: MV, n: int) -> MV { MV { q: k.q * n, ..k } }
