// The template of the modular polynomial and its q-expansion.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::qser::*;
use crate::linsys::*;
use crate::subscripted_variable::{svidx, svcount, svrow, svok, svbase, lemma_svrow, lemma_sv_range, lemma_svrow_mono};
pub open spec fn mpok(p: int) -> bool { 2 <= p <= 200 }
pub open spec fn mxy(x: int, y: int) -> MV { mk(x, y, 0) }
pub open spec fn mvar(x: int, y: int, i: int, j: int) -> MV { MV { x, y, q: 0, vn: 1, vi: i, vj: j } }
pub open spec fn is_top(p: int, k: MV) -> bool { k == mxy(p + 1, 0) || k == mxy(0, p + 1) }
/// c_i_j x^i y^j or c_i_j x^j y^i with i <= j <= p, restricted to i = j < d and to i < j before (a, b)
pub open spec fn is_var(p: int, k: MV, d: int, a: int, b: int) -> bool {
    k.vn == 1 && k.q == 0 && 0 <= k.vi <= k.vj <= p && (k == mvar(k.vi, k.vj, k.vi, k.vj) || k == mvar(k.vj, k.vi, k.vi, k.vj)) && (if k.vi == k.vj { k.vi < d } else { k.vi < a || (k.vi == a && k.vj < b) })
}
pub open spec fn tcf(p: int, k: MV, d: int, a: int, b: int) -> int { if is_top(p, k) || is_var(p, k, d, a, b) { 1 } else { 0 } }
pub open spec fn is_part(m: PM, p: int, d: int, a: int, b: int) -> bool { canon(m) && forall|k: MV| #[trigger] cf(m, k) == tcf(p, k, d, a, b) }
/// x^(p+1) + y^(p+1) + sum of c_i_j (x^i y^j + x^j y^i) for i < j + sum of c_i_i x^i y^i
pub open spec fn is_tmpl(m: PM, p: int) -> bool { is_part(m, p, p + 1, p + 1, 0) }
pub open spec fn tmpl(p: int) -> PM { choose|m: PM| is_tmpl(m, p) }
pub proof fn lemma_tmpl(m: PM, p: int) requires is_tmpl(m, p) ensures tmpl(p) == m {
    let t = tmpl(p);
    assert(is_tmpl(t, p));
    assert forall|k: MV| cf(t, k) == #[trigger] cf(m, k) by { assert(cf(t, k) == tcf(p, k, p + 1, p + 1, 0)); }
    lemma_ext(t, m);
}
pub proof fn lemma_part_init(m: PM, p: int) requires p >= 1, m == padd(mono(mxy(p + 1, 0), 1), mono(mxy(0, p + 1), 1)) ensures is_part(m, p, 0, 0, 0), is_part(m, p, 0, 0, 1) { broadcast use poly_cf; }
pub proof fn lemma_part_diag(m: PM, p: int, d: int) requires 0 <= d <= p, is_part(m, p, d, 0, 1) ensures is_part(padd(m, mono(mvar(d, d, d, d), 1)), p, d + 1, 0, 1) {
    broadcast use poly_cf;
    let r = padd(m, mono(mvar(d, d, d, d), 1));
    assert forall|k: MV| #[trigger] cf(r, k) == tcf(p, k, d + 1, 0, 1) by { assert(cf(m, k) == tcf(p, k, d, 0, 1)); }
}
pub proof fn lemma_part_off(m: PM, p: int, i: int, j: int) requires 0 <= i < j <= p, is_part(m, p, p + 1, i, j)
    ensures is_part(padd(padd(m, mono(mvar(i, j, i, j), 1)), mono(mvar(j, i, i, j), 1)), p, p + 1, i, j + 1), canon(padd(m, mono(mvar(i, j, i, j), 1)))
{
    broadcast use poly_cf;
    let r = padd(padd(m, mono(mvar(i, j, i, j), 1)), mono(mvar(j, i, i, j), 1));
    assert forall|k: MV| #[trigger] cf(r, k) == tcf(p, k, p + 1, i, j + 1) by { assert(cf(m, k) == tcf(p, k, p + 1, i, j)); }
}
pub proof fn lemma_part_row(m: PM, p: int, i: int) requires 0 <= i <= p, is_part(m, p, p + 1, i, p + 1) ensures is_part(m, p, p + 1, i + 1, i + 2), i == p ==> is_tmpl(m, p) {
    assert forall|k: MV| #[trigger] cf(m, k) == tcf(p, k, p + 1, i + 1, i + 2) by { }
    if i == p { assert forall|k: MV| #[trigger] cf(m, k) == tcf(p, k, p + 1, p + 1, 0) by { } }
}
// ---- substitution of j(q) and j(q^p) ----
pub open spec fn jp(p: int) -> PM { pmap(jser(p * p + p), qpowg(p)) }
pub open spec fn mq1(p: int) -> PM { psum(tmpl(p), sxf(jser(p * p + p))) }
pub open spec fn mq2(p: int) -> PM { psum(mq1(p), syf(jp(p))) }
/// the template at (j(q), j(q^p)) up to q^0
pub open spec fn mq(p: int) -> PM { ptrunc(mq2(p), 0) }
pub open spec fn isvk(k: MV) -> bool { (k.vn == 0 && k.vi == 0 && k.vj == 0) || k.vn == 1 }
pub proof fn lemma_fit(p: int) requires mpok(p) ensures p * p + p <= 40200, (p * p + p) * (p + 1) <= 8080200, p * (p * p + p) <= 8040000, p * (p * p + p) * (p + 1) <= 1616040000, forall|e: int| 1 <= e <= p + 1 ==> p * (p * p + p) <= #[trigger] (mx() / e),
    forall|e: int| 1 <= e <= p + 1 ==> p * p + p <= #[trigger] (mx() / e)
{
    assert(p * p + p <= 40200) by (nonlinear_arith) requires 2 <= p <= 200;
    let n = p * p + p;
    assert(n * (p + 1) <= 40200 * 201) by (nonlinear_arith) requires 0 <= n <= 40200, 2 <= p <= 200;
    assert(p * n <= 200 * 40200) by (nonlinear_arith) requires 0 <= n <= 40200, 2 <= p <= 200;
    let s = p * n;
    assert(0 <= s) by (nonlinear_arith) requires s == p * n, n >= 0, p >= 0;
    assert(0 <= n) by (nonlinear_arith) requires n == p * p + p, p >= 0;
    assert(s * (p + 1) <= 8040000 * 201) by (nonlinear_arith) requires 0 <= s <= 8040000, 2 <= p <= 200;
    assert(n <= s) by (nonlinear_arith) requires s == p * n, n >= 0, p >= 2;
    assert forall|e: int| 1 <= e <= p + 1 implies s <= #[trigger] (mx() / e) && n <= mx() / e by {
        assert(s * e <= s * (p + 1)) by (nonlinear_arith) requires e <= p + 1, s >= 0;
        vstd::arithmetic::div_mod::lemma_div_is_ordered(s * e, mx(), e);
        assert(e * s == s * e) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s, e);
    }
}
pub proof fn lemma_sub_x(m: PM, j: PM, p: int) requires mpok(p), is_tmpl(m, p), canon(j), qlb(j, -1, p * p + p)
    ensures sxfit(m, j), forall|k: MV| #[trigger] psum(m, sxf(j)).contains_key(k) ==> k.x == 0 && 0 <= k.y <= p + 1 && -8080200 <= k.q <= 8080200 && isvk(k), canon(psum(m, sxf(j)))
{
    lemma_fit(p);
    let n = p * p + p;
    assert(n >= 1) by (nonlinear_arith) requires n == p * p + p, p >= 2;
    assert forall|k: MV| #[trigger] m.contains_key(k) implies 0 <= k.x <= p + 1 && 0 <= k.y <= p + 1 && k.q == 0 && isvk(k) && (k.vn == 1 ==> 0 <= k.vi <= p && 0 <= k.vj <= p) && powfit(j, k.x) && (forall|i: MV| #[trigger] ppow(j, k.x).contains_key(i) ==> i == qm(i.q) && -8080200 <= i.q <= 8080200) by {
        assert(cf(m, k) == tcf(p, k, p + 1, p + 1, 0));
        lemma_qlb_pow(j, n, k.x);
        assert(n * k.x <= n * (p + 1)) by (nonlinear_arith) requires k.x <= p + 1, n >= 0;
        if k.x >= 1 { assert(n <= mx() / k.x); }
    }
    assert forall|k: MV| #[trigger] psum(m, sxf(j)).contains_key(k) implies k.x == 0 && 0 <= k.y <= p + 1 && -8080200 <= k.q <= 8080200 && isvk(k) by {
        lemma_keys_psum(m, sxf(j), k);
        let i = choose|i: MV| #[trigger] m.contains_key(i) && sxf(j)(i, m[i]).contains_key(k);
        lemma_keys_pscale(ppow(j, i.x), xz(i), m[i]);
        assert(ppow(j, i.x).contains_key(mdiv(k, xz(i))));
    }
    lemma_psum_canon(m, sxf(j));
}
pub proof fn lemma_sub_y(m: PM, j: PM, p: int) requires mpok(p), canon(j), qlb(j, -(p * (p * p + p)), p * (p * p + p)), forall|k: MV| #[trigger] m.contains_key(k) ==> k.x == 0 && 0 <= k.y <= p + 1 && -8080200 <= k.q <= 8080200 && isvk(k)
    ensures syfit(m, j), forall|k: MV| #[trigger] psum(m, syf(j)).contains_key(k) ==> k.x == 0 && k.y == 0 && isvk(k), qonly(psum(m, syf(j))), canon(psum(m, syf(j)))
{
    lemma_fit(p);
    let n = p * (p * p + p);
    assert(n >= 0) by (nonlinear_arith) requires n == p * (p * p + p), p >= 2;
    assert forall|k: MV| #[trigger] m.contains_key(k) implies powfit(j, k.y) && (forall|i: MV| #[trigger] ppow(j, k.y).contains_key(i) ==> i == qm(i.q) && -1616040000 <= i.q <= 1616040000) by {
        lemma_qlb_pow(j, n, k.y);
        assert(n * k.y <= n * (p + 1)) by (nonlinear_arith) requires k.y <= p + 1, n >= 0;
        if k.y >= 1 { assert(n <= mx() / k.y); }
    }
    assert forall|k: MV| #[trigger] psum(m, syf(j)).contains_key(k) implies k.x == 0 && k.y == 0 && isvk(k) by {
        lemma_keys_psum(m, syf(j), k);
        let i = choose|i: MV| #[trigger] m.contains_key(i) && syf(j)(i, m[i]).contains_key(k);
        lemma_keys_pscale(ppow(j, i.y), yz(i), m[i]);
        assert(ppow(j, i.y).contains_key(mdiv(k, yz(i))));
    }
    lemma_psum_canon(m, syf(j));
}
pub proof fn lemma_jp(j: PM, p: int) requires mpok(p), canon(j), qlb(j, -1, p * p + p)
    ensures forall|k: MV| #[trigger] j.contains_key(k) ==> i32ok(k.q * p), canon(pmap(j, qpowg(p))), qlb(pmap(j, qpowg(p)), -(p * (p * p + p)), p * (p * p + p))
{
    lemma_fit(p);
    let n = p * p + p;
    assert forall|k: MV| #[trigger] j.contains_key(k) implies i32ok(k.q * p) && -(p * n) <= k.q * p <= p * n by {
        assert(k.q * p <= p * n) by (nonlinear_arith) requires k.q <= n, p >= 0;
        assert(-(p * n) <= k.q * p) by (nonlinear_arith) requires k.q >= -1, p >= 0, n >= 1;
    }
    lemma_psum_canon(j, pmapf(qpowg(p)));
    assert forall|k: MV| #[trigger] pmap(j, qpowg(p)).contains_key(k) implies k == qm(k.q) && -(p * n) <= k.q <= p * n by {
        lemma_keys_psum(j, pmapf(qpowg(p)), k);
        let i = choose|i: MV| #[trigger] j.contains_key(i) && pmapf(qpowg(p))(i, j[i]).contains_key(k);
        assert(k == qpowm(i, p));
    }
}
// ---- the linear system and its solution ----
/// sum of c[i] times the coefficient of (i-th variable) q^r, first `to` variables; vk lists the variables
pub open spec fn lin(m: PM, r: int, c: Seq<int>, p: int, to: int) -> int decreases to { if to <= 0 { 0 } else { lin(m, r, c, p, to - 1) + cf(m, vkey(p, to - 1, r)) * c[to - 1] } }
/// the variable number i as a monomial, times q^r
pub open spec fn vkey(p: int, i: int, r: int) -> MV { let (a, b) = vof(p, i); MV { x: 0, y: 0, q: r, vn: 1, vi: a, vj: b } }
pub open spec fn is_of(p: int, i: int, a: int, b: int) -> bool { 0 <= a <= b <= p && svidx(p, a, b) == i }
pub open spec fn vof(p: int, i: int) -> (int, int) { choose|ab: (int, int)| #[trigger] is_of(p, i, ab.0, ab.1) }
pub proof fn lemma_svidx_inj(p: int, i: int, j: int, k: int, l: int) requires svok(p), 0 <= i <= j <= p, 0 <= k <= l <= p, svidx(p, i, j) == svidx(p, k, l) ensures i == k, j == l {
    lemma_sv_range(p, i, j); lemma_sv_range(p, k, l);
    if i < k { lemma_svrow_mono(p, i + 1, k); }
    if k < i { lemma_svrow_mono(p, k + 1, i); }
}
pub proof fn lemma_vof(p: int, i: int, a: int, b: int) requires svok(p), is_of(p, i, a, b) ensures vof(p, i) == (a, b) {
    let ab = vof(p, i);
    assert(is_of(p, i, (a, b).0, (a, b).1));
    lemma_svidx_inj(p, a, b, ab.0, ab.1);
}
/// with the integers c for the variables the template vanishes at (j(q), j(q^p)) up to q^0
pub open spec fn vanishes(m: PM, p: int, c: Seq<int>) -> bool { c.len() == svcount(p) && forall|r: int| -(p * p + p) <= r <= 0 ==> #[trigger] lin(m, r, c, p, svcount(p)) + cf(m, qm(r)) == 0 }
/// coefficient of the template with the integers c for the variables
pub open spec fn mpcf(p: int, c: Seq<int>, k: MV, to: int) -> int {
    if k != mxy(k.x, k.y) { 0 } else if 0 <= k.x <= k.y <= p { if svidx(p, k.x, k.y) < to { c[svidx(p, k.x, k.y)] } else { 0 } } else if 0 <= k.y <= k.x <= p { if svidx(p, k.y, k.x) < to { c[svidx(p, k.y, k.x)] } else { 0 } } else { 0 }
}
pub open spec fn is_mp(m: PM, p: int, c: Seq<int>) -> bool { canon(m) && c.len() == svcount(p) && forall|k: MV| #[trigger] cf(m, k) == (if is_top(p, k) { 1 } else { mpcf(p, c, k, svcount(p)) }) }
pub open spec fn is_mpart(m: PM, p: int, c: Seq<int>, to: int) -> bool { canon(m) && forall|k: MV| #[trigger] cf(m, k) == mpcf(p, c, k, to) }
pub proof fn lemma_mp_step(m: PM, p: int, c: Seq<int>, i: int, a: int, b: int) requires svok(p), is_mpart(m, p, c, i), is_of(p, i, a, b), 0 <= i < c.len()
    ensures a == b ==> is_mpart(padd(m, mono(mxy(a, b), c[i])), p, c, i + 1), a != b ==> is_mpart(padd(padd(m, mono(mxy(a, b), c[i])), mono(mxy(b, a), c[i])), p, c, i + 1)
{
    broadcast use poly_cf;
    let r = if a == b { padd(m, mono(mxy(a, b), c[i])) } else { padd(padd(m, mono(mxy(a, b), c[i])), mono(mxy(b, a), c[i])) };
    assert forall|k: MV| #[trigger] cf(r, k) == mpcf(p, c, k, i + 1) by {
        assert(cf(m, k) == mpcf(p, c, k, i));
        if k == mxy(k.x, k.y) {
            if 0 <= k.x <= k.y <= p && svidx(p, k.x, k.y) == i { lemma_svidx_inj(p, k.x, k.y, a, b); }
            if 0 <= k.y <= k.x <= p && svidx(p, k.y, k.x) == i { lemma_svidx_inj(p, k.y, k.x, a, b); }
        }
    }
}
pub proof fn lemma_mp_last(m: PM, p: int, c: Seq<int>) requires p >= 1, is_mpart(m, p, c, svcount(p)), c.len() == svcount(p) ensures is_mp(padd(padd(m, mono(mxy(p + 1, 0), 1)), mono(mxy(0, p + 1), 1)), p, c) {
    broadcast use poly_cf;
    let r = padd(padd(m, mono(mxy(p + 1, 0), 1)), mono(mxy(0, p + 1), 1));
    assert forall|k: MV| #[trigger] cf(r, k) == (if is_top(p, k) { 1 } else { mpcf(p, c, k, svcount(p)) }) by { assert(cf(m, k) == mpcf(p, c, k, svcount(p))); }
}
/// C25: symmetric, monic in x and in y, all other exponents at most p
pub open spec fn mpshape(m: PM, p: int) -> bool {
    &&& forall|k: MV| #[trigger] cf(m, k) == cf(m, MV { x: k.y, y: k.x, ..k })
    &&& cf(m, mxy(p + 1, 0)) == 1 && cf(m, mxy(0, p + 1)) == 1
    &&& forall|k: MV| #[trigger] m.contains_key(k) ==> is_top(p, k) || (k == mxy(k.x, k.y) && 0 <= k.x <= p && 0 <= k.y <= p)
}
pub proof fn lemma_mp_shape(m: PM, p: int, c: Seq<int>) requires p >= 1, is_mp(m, p, c) ensures mpshape(m, p) {
    assert forall|k: MV| #[trigger] m.contains_key(k) implies is_top(p, k) || (k == mxy(k.x, k.y) && 0 <= k.x <= p && 0 <= k.y <= p) by { assert(cf(m, k) != 0); }
    assert forall|k: MV| #[trigger] cf(m, k) == cf(m, MV { x: k.y, y: k.x, ..k }) by { let s = MV { x: k.y, y: k.x, ..k }; assert(cf(m, s) == (if is_top(p, s) { 1 } else { mpcf(p, c, s, svcount(p)) })); }
}
/// the row of q^r: the coefficients of the variables, then the constant
pub open spec fn is_row(u: Row, m: PM, p: int, r: int) -> bool { u.len() == svcount(p) + 1 && u[svcount(p)] == cf(m, qm(r)) && forall|i: int| 0 <= i < svcount(p) ==> #[trigger] u[i] == cf(m, vkey(p, i, r)) }
pub open spec fn is_sys(a: Mat, m: PM, p: int) -> bool { a.len() == p * p + p + 1 && forall|r: int| 0 <= r < a.len() ==> is_row(#[trigger] a[r], m, p, r - (p * p + p)) }
pub open spec fn negs(c: Seq<int>) -> Row { Seq::new(c.len(), |i: int| -c[i]) }
pub proof fn lemma_lin_dot(u: Row, m: PM, p: int, r: int, c: Seq<int>, to: int) requires is_row(u, m, p, r), 0 <= to <= svcount(p), c.len() == svcount(p) ensures dot(u, negs(c), to) == -lin(m, r, c, p, to) decreases to {
    if to > 0 {
        lemma_lin_dot(u, m, p, r, c, to - 1);
        let (s, t) = (u[to - 1], c[to - 1]);
        assert(s * (-t) == -(s * t)) by (nonlinear_arith);
    }
}
/// integers for which the template vanishes are, negated, the solution of the system
pub proof fn lemma_sys_sol(a: Mat, m: PM, p: int, c: Seq<int>) requires is_sys(a, m, p), vanishes(m, p, c) ensures sol(a, negs(c), svcount(p)) {
    assert forall|r: int| 0 <= r < a.len() implies dot(#[trigger] a[r], negs(c), svcount(p)) == a[r][svcount(p)] by {
        let q = r - (p * p + p);
        assert(is_row(a[r], m, p, q));
        lemma_lin_dot(a[r], m, p, q, c, svcount(p));
        assert(lin(m, q, c, p, svcount(p)) + cf(m, qm(q)) == 0);
    }
}
pub proof fn lemma_count_rows(p: int) requires p >= 2, 2 * svcount(p) == (p + 1) * (p + 2) ensures svcount(p) <= p * p + p + 1 {
    assert((p + 1) * (p + 2) <= 2 * (p * p + p + 1)) by (nonlinear_arith) requires p >= 2;
}
pub proof fn lemma_part_done(m: PM, p: int) requires is_part(m, p, p + 1, p + 1, p + 2) ensures is_tmpl(m, p), tmpl(p) == m {
    assert forall|k: MV| #[trigger] cf(m, k) == tcf(p, k, p + 1, p + 1, 0) by { assert(cf(m, k) == tcf(p, k, p + 1, p + 1, p + 2)); }
    lemma_tmpl(m, p);
}
pub proof fn lemma_qok(p: int) requires mpok(p) ensures qok(p * p + p + 1), qok(p * p + p), p * p + p <= 40200 { lemma_fit(p); assert(p * p + p >= 1) by (nonlinear_arith) requires p >= 2; }
/// the coefficient of q^n of b: a polynomial in the variables only
pub open spec fn is_qc(m: PM, b: PM, n: int) -> bool {
    m == pqcoef(b, n) && canon(m) && (forall|k: MV| #[trigger] m.contains_key(k) ==> k.x == 0 && k.y == 0 && k.q == 0) && forall|k: MV| k.q == 0 ==> #[trigger] cf(m, k) == cf(b, MV { q: n, ..k })
}
pub proof fn lemma_qc(b: PM, n: int) requires canon(b), forall|k: MV| #[trigger] b.contains_key(k) ==> k.x == 0 && k.y == 0 ensures is_qc(pqcoef(b, n), b, n) {
    let m = pqcoef(b, n);
    lemma_psum_canon(b, qcf(n));
    assert forall|k: MV| #[trigger] m.contains_key(k) implies k.x == 0 && k.y == 0 && k.q == 0 by { lemma_cf_pqcoef(b, n, k); assert(cf(m, k) != 0); }
    assert forall|k: MV| k.q == 0 implies #[trigger] cf(m, k) == cf(b, MV { q: n, ..k }) by { lemma_cf_pqcoef(b, n, k); }
}
/// entry i of the row of q^r
pub open spec fn cell(m: PM, p: int, r: int, i: int) -> int { if i < svcount(p) { cf(m, vkey(p, i, r)) } else { cf(m, qm(r)) } }
/// the entry is read from the coefficient of q^r
pub proof fn lemma_cell(l: PM, m: PM, p: int, r: int, i: int, a: int, b: int) requires svok(p), is_qc(l, m, r), is_of(p, i, a, b)
    ensures cf(l, MV { x: 0, y: 0, q: 0, vn: 1, vi: a, vj: b }) == cell(m, p, r, i)
{
    lemma_vof(p, i, a, b); lemma_sv_range(p, a, b);
    let k = MV { x: 0, y: 0, q: 0, vn: 1, vi: a, vj: b };
    assert(cf(l, k) == cf(m, MV { q: r, ..k }));
}
pub proof fn lemma_cell_one(l: PM, m: PM, p: int, r: int) requires is_qc(l, m, r) ensures cf(l, m1()) == cell(m, p, r, svcount(p)) { assert(cf(l, m1()) == cf(m, MV { q: r, ..m1() })); assert(MV { q: r, ..m1() } == qm(r)); }
/// C25: what modular_polynomial returns
pub open spec fn is_modpoly(m: PM, l: int) -> bool { mpshape(m, l) && canon(m) && (exists|c: Seq<int>| is_mp(m, l, c)) && (forall|c: Seq<int>| #[trigger] vanishes(mq(l), l, c) ==> is_mp(m, l, c)) }
