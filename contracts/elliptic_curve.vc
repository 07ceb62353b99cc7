@module elliptic_curve
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::ec::*;
/// the residue class a representation stands for
pub open spec fn pt(s: ECPoint, p: int) -> PT { if s.z@ == 0 { PT::O } else { PT::A(s.x@ % p, s.y@ % p) } }
/// infinity is written (0, 1, 0)
pub open spec fn infcan(s: ECPoint) -> bool { s.z@ == 0 ==> s.x@ == 0 && s.y@ == 1 }
pub open spec fn wf(c: EllipticCurve) -> bool { c.pol@ == cubic(c.a@, c.b@) }
/// the representation satisfies the curve equation
pub open spec fn onr(c: EllipticCurve, s: ECPoint) -> bool { onc(c.a@, c.b@, c.p@, pt(s, c.p@)) }
pub open spec fn aff(x: int, y: int) -> ECPoint { ECPoint { x: bi(x), y: bi(y), z: bi(1) } }
/// s lists the affine points with abscissa below m exactly once, in ascending x
pub open spec fn lists(s: Seq<ECPoint>, a: int, b: int, p: int, m: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).x@ < m && 0 <= s[i].y@ < p && s[i] == aff(s[i].x@, s[i].y@) && cong(s[i].y@ * s[i].y@, cur(a, b, s[i].x@), p)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).x@ <= (#[trigger] s[j]).x@ && s[i] != s[j]
    &&& forall|x: int, y: int| 0 <= x < m && 0 <= y < p && #[trigger] cong(y * y, cur(a, b, x), p) ==> s.contains(aff(x, y))
}
pub open spec fn enumerates(s: Seq<ECPoint>, a: int, b: int, p: int) -> bool {
    s.len() >= 1 && s.last() == (ECPoint { x: bi(0), y: bi(1), z: bi(0) }) && lists(s.drop_last(), a, b, p, p)
}
pub proof fn lemma_aff_inj(x: int, y: int, u: int, v: int) requires aff(x, y) == aff(u, v) ensures x == u, y == v { assert(bi(x)@ == x); assert(bi(y)@ == y); }
/// appending the points over the abscissa m
pub proof fn lemma_lists_step(s: Seq<ECPoint>, t: Seq<ECPoint>, a: int, b: int, p: int, m: int)
    requires lists(s, a, b, p, m), 0 <= m < p,
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).x@ == m && 0 <= t[i].y@ < p && t[i] == aff(m, t[i].y@) && cong(t[i].y@ * t[i].y@, cur(a, b, m), p),
        t.len() <= 2, t.len() == 2 ==> t[0] != t[1],
        forall|y: int| 0 <= y < p && #[trigger] cong(y * y, cur(a, b, m), p) ==> t.contains(aff(m, y)),
    ensures lists(s + t, a, b, p, m + 1)
{
    let r = s + t;
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).x@ <= (#[trigger] r[j]).x@ && r[i] != r[j] by {
        if j < s.len() { assert(r[i] == s[i] && r[j] == s[j]); }
        else if i < s.len() { assert(r[i] == s[i] && r[j] == t[j - s.len()]); }
        else { assert(r[i] == t[i - s.len()] && r[j] == t[j - s.len()]); }
    }
    assert forall|x: int, y: int| 0 <= x < m + 1 && 0 <= y < p && #[trigger] cong(y * y, cur(a, b, x), p) implies r.contains(aff(x, y)) by {
        if x < m { let i = choose|i: int| 0 <= i < s.len() && s[i] == aff(x, y); assert(r[i] == aff(x, y)); }
        else { assert(cong(y * y, cur(a, b, m), p)); let i = choose|i: int| 0 <= i < t.len() && t[i] == aff(m, y); assert(r[s.len() + i] == aff(x, y)); }
    }
}
/// the points over x have been appended
pub open spec fn covers(s: Seq<ECPoint>, r: Seq<ECPoint>, a: int, b: int, p: int, x: int) -> bool {
    let t = r.subrange(s.len() as int, r.len() as int);
    &&& s.len() <= r.len() <= s.len() + 2 && r.take(s.len() as int) == s && (t.len() == 2 ==> t[0] != t[1])
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).x@ == x && 0 <= t[i].y@ < p && t[i] == aff(x, t[i].y@) && cong(t[i].y@ * t[i].y@, cur(a, b, x), p)
    &&& forall|y: int| 0 <= y < p && #[trigger] cong(y * y, cur(a, b, x), p) ==> t.contains(aff(x, y))
}
pub proof fn lemma_covers(s: Seq<ECPoint>, a: int, b: int, p: int, x: int, y: int) requires is_prime_spec(p), 0 <= y < p
    ensures (forall|z: int| 0 <= z < p ==> !#[trigger] cong(z * z, cur(a, b, x), p)) ==> covers(s, s, a, b, p, x),
        cong(y * y, cur(a, b, x), p) && (-y) % p == y ==> covers(s, s.push(aff(x, y)), a, b, p, x),
        cong(y * y, cur(a, b, x), p) && (-y) % p != y ==> covers(s, s.push(aff(x, y)).push(aff(x, (-y) % p)), a, b, p, x),
{
    let c = cur(a, b, x); let z = (-y) % p;
    assert(s.take(s.len() as int) =~= s);
    assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::<ECPoint>::empty());
    if cong(y * y, c, p) {
        lemma_neg_root(p, c, y);
        let r = if z == y { s.push(aff(x, y)) } else { s.push(aff(x, y)).push(aff(x, z)) };
        let t = if z == y { seq![aff(x, y)] } else { seq![aff(x, y), aff(x, z)] };
        assert(r.take(s.len() as int) =~= s);
        assert(r.subrange(s.len() as int, r.len() as int) =~= t);
        if z != y && aff(x, y) == aff(x, z) { lemma_aff_inj(x, y, x, z); }
        assert forall|w: int| 0 <= w < p && #[trigger] cong(w * w, c, p) implies t.contains(aff(x, w)) by {
            lemma_two_roots(p, c, y, w);
            if w == y { assert(t[0] == aff(x, w)); } else { assert(t[1] == aff(x, w)); }
        }
    }
}
pub proof fn lemma_jval(a: int, b: int, p: int) requires ecok(a, b, p)
    ensures forall|v: int| #[trigger] cong(disc(a, b) * v, 1, p) ==> is_j(a, b, p, (1728 * (4 * (a * a * a)) * v) % p)
{
    let d = disc(a, b); let n = 1728 * (4 * (a * a * a));
    assert forall|v: int| #[trigger] cong(d * v, 1, p) implies is_j(a, b, p, (n * v) % p) by {
        lemma_cong_mod(n * v, p); lemma_cong_refl(d, p); lemma_cong_refl(n, p);
        lemma_cong_mul((n * v) % p, n * v, d, d, p);
        lemma_cong_mul(n, n, d * v, 1, p);
        assert((n * v) * d == n * (d * v)) by (nonlinear_arith);
        lemma_cong_trans(((n * v) % p) * d, (n * v) * d, n, p);
    }
}
/// every listed point is on the curve, in canonical form
pub proof fn lemma_enum_on(s: Seq<ECPoint>, a: int, b: int, p: int, i: int) requires p >= 2, enumerates(s, a, b, p), 0 <= i < s.len()
    ensures onc(a, b, p, pt(s[i], p)), infcan(s[i])
{
    if i < s.len() - 1 {
        let t = s.drop_last()[i];
        assert(t == s[i]);
        lemma_onc_mod(a, b, p, t.x@, t.y@);
    }
}
/// Velu's sums over a list of points: v = sum of 3x^2+a, w = sum of 2y^2 + x (3x^2+a) (a point and its negative both occur)
pub open spec fn velu_v(a: int, s: Seq<ECPoint>) -> int decreases s.len() { if s.len() == 0 { 0 } else { velu_v(a, s.drop_last()) + (if s.last().z@ == 0 { 0 } else { 3 * (s.last().x@ * s.last().x@) + a }) } }
pub open spec fn velu_w(a: int, s: Seq<ECPoint>) -> int decreases s.len() { if s.len() == 0 { 0 } else { velu_w(a, s.drop_last()) + (if s.last().z@ == 0 { 0 } else { 2 * (s.last().y@ * s.last().y@) + s.last().x@ * (3 * (s.last().x@ * s.last().x@) + a) }) } }
pub open spec fn is_velu(e: EllipticCurve, a: int, b: int, p: int, s: Seq<ECPoint>) -> bool { e.p@ == p && e.a@ == (a - 5 * velu_v(a, s)) % p && e.b@ == (b - 7 * velu_w(a, s)) % p && wf(e) && enumerates(e.points@, e.a@, e.b@, p) }
pub proof fn lemma_velu_step(a: int, s: Seq<ECPoint>, k: int) requires 0 <= k < s.len()
    ensures velu_v(a, s.take(k + 1)) == velu_v(a, s.take(k)) + (if s[k].z@ == 0 { 0 } else { 3 * (s[k].x@ * s[k].x@) + a }),
        velu_w(a, s.take(k + 1)) == velu_w(a, s.take(k)) + (if s[k].z@ == 0 { 0 } else { 2 * (s[k].y@ * s[k].y@) + s[k].x@ * (3 * (s[k].x@ * s[k].x@) + a) })
{
    let t = s.take(k + 1);
    assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]);
}
/// one step of the accumulation, with the summands known modulo p only
pub proof fn lemma_velu_acc(p: int, v: int, vv: int, w: int, ww: int, g: int, u: int, x: int, gm: int, um: int) requires p >= 2, cong(v, vv, p), cong(w, ww, p), cong(gm, g, p), cong(um, u, p)
    ensures cong(v + gm, vv + g, p), cong(w + (um + x * gm), ww + (u + x * g), p)
{
    lemma_cong_refl(x, p); lemma_cong_add(v, vv, gm, g, p); lemma_cong_mul(x, x, gm, g, p);
    lemma_cong_add(um, u, x * gm, x * g, p); lemma_cong_add(w, ww, um + x * gm, u + x * g, p);
}
pub proof fn lemma_velu_fin(p: int, c: int, k: int, v: int, vv: int) requires p >= 2, cong(v, vv, p) ensures (c - k * (v % p)) % p == (c - k * vv) % p, (c - k * v) % p == (c - k * vv) % p
{
    lemma_cong_mod(v, p); lemma_cong_trans(v % p, v, vv, p); lemma_cong_refl(k, p); lemma_cong_refl(c, p);
    lemma_cong_mul(k, k, v % p, vv, p); lemma_cong_add(c, c, k * (v % p), k * vv, p);
    lemma_cong_mod_eq(c - k * (v % p), c - k * vv, p);
    lemma_cong_mul(k, k, v, vv, p); lemma_cong_add(c, c, k * v, k * vv, p); lemma_cong_mod_eq(c - k * v, c - k * vv, p);
}
@fn elliptic_curve::EllipticCurve:Clone::clone
@@props C18
@@spec
    ensures vr.a == self.a, vr.b == self.b, vr.p == self.p, vr.pol == self.pol, vr.points@ =~= self.points@
@fn elliptic_curve::ECPoint:Clone::clone
@@props C16
@fn elliptic_curve::ECPoint:PartialEq::eq
@@props C16
@@opspec self.x@ == rhs.x@ && self.y@ == rhs.y@ && self.z@ == rhs.z@
@fn elliptic_curve::ECPoint::new
@@props C16
@@spec
    ensures vr.x@ == x@, vr.y@ == y@, vr.z@ == z@
@fn elliptic_curve::ECPoint::infinity
@@props C16
@@spec
    ensures vr.x@ == 0, vr.y@ == 1, vr.z@ == 0
@fn elliptic_curve::ECPoint::is_infinity
@@props C16
@@spec
    ensures vr == (self.z@ == 0)
@fn elliptic_curve::EllipticCurve::new_raw
@@props C16
@@spec
    ensures vr.a@ == a@, vr.b@ == b@, vr.p@ == p@, wf(vr), vr.points@.len() == 0
@@begin
    proof { broadcast use poly_cf; }
@fn elliptic_curve::EllipticCurve::new
@@props C18
@@spec
    requires is_prime_spec(p@), p@ <= u64::MAX
    ensures vr.a@ == a@, vr.b@ == b@, vr.p@ == p@, wf(vr), enumerates(vr.points@, a@, b@, p@)
@@begin
    proof { broadcast use poly_cf; }
@fn elliptic_curve::EllipticCurve::is_on_curve
@@props C16
@@spec
    requires wf(*self), self.p@ >= 2
    ensures vr == onr(*self, *ecpoint)
@@begin
    proof {
        let a = self.a@; let b = self.b@; let p = self.p@; let x = ecpoint.x@; let y = ecpoint.y@;
        lemma_modfacts(p); lemma_cubic(a, b); lemma_ev_cubic(a, b, x, y);
        lemma_modtest(p, cur(a, b, x), y * y);
        lemma_onc_mod(a, b, p, x, y);
    }
@fn elliptic_curve::EllipticCurve::canonicalize
@@props C16
@@spec
    requires self.p@ >= 1
    ensures vr.x@ == point.x@ % self.p@, vr.y@ == point.y@ % self.p@, vr.z@ == point.z@ % self.p@
@@begin
    proof { lemma_modfacts(self.p@); }
@fn elliptic_curve::EllipticCurve::plus
@@props C16
@@spec
    requires wf(*self), is_prime_spec(self.p@), self.p@ > 3, onr(*self, *point1), onr(*self, *point2)
    ensures pt(vr, self.p@) == ecadd(self.a@, self.p@, pt(*point1, self.p@), pt(*point2, self.p@)), onr(*self, vr),
        infcan(*point1) && infcan(*point2) ==> infcan(vr)
@@begin
    proof {
        let a = self.a@; let b = self.b@; let p = self.p@;
        lemma_modfacts(p);
        lemma_add_on(a, b, p, pt(*point1, p), pt(*point2, p));
        lemma_cong_mod(point1.x@, p); lemma_cong_mod(point2.x@, p); lemma_cong_mod(point1.y@, p); lemma_cong_mod(point2.y@, p);
        let x1 = point1.x@ % p; let y1 = point1.y@ % p; let x2 = point2.x@ % p; let y2 = point2.y@ % p;
        if x1 != x2 { lemma_add_chord(a, p, x1, y1, x2, y2); }
        else if y1 > 0 { lemma_add_tangent(a, p, x1, y1); }
    }
@fn elliptic_curve::EllipticCurve::negate
@@props C16
@@spec
    requires self.p@ >= 2
    ensures pt(vr, self.p@) == ecneg(self.p@, pt(*point, self.p@)), onr(*self, *point) ==> onr(*self, vr), vr.x@ == point.x@, vr.z@ == point.z@, infcan(*point) ==> infcan(vr),
        point.z@ != 0 ==> vr.y@ == (-point.y@) % self.p@
@@begin
    proof {
        let p = self.p@;
        lemma_modfacts(p); lemma_cong_mod(point.y@, p);
        lemma_cong_refl(0, p);
        lemma_cong_add(0, 0, point.y@, point.y@ % p, p);
        lemma_cong_mod_eq(-point.y@, -(point.y@ % p), p);
        if onr(*self, *point) { lemma_neg_on(self.a@, self.b@, p, pt(*point, p)); }
    }
@fn elliptic_curve::EllipticCurve::create_points
@@props C18
@@spec
    requires is_prime_spec(old(self).p@), old(self).points@.len() == 0
    ensures final(self).a == old(self).a, final(self).b == old(self).b, final(self).p == old(self).p, final(self).pol == old(self).pol,
        enumerates(final(self).points@, old(self).a@, old(self).b@, old(self).p@)
@@begin
    proof { lemma_modfacts(self.p@); }
@@loop 0
    invariant self.a == old(self).a, self.b == old(self).b, self.p == old(self).p, self.pol == old(self).pol, is_prime_spec(self.p@),
        $it0.end@ == self.p@, 0 <= $it0.cur@ <= self.p@, lists(self.points@, self.a@, self.b@, self.p@, $it0.cur@),
@@after 0
    proof { assert forall|q: ECPoint| (#[trigger] self.points@.push(q)).drop_last() == self.points@ by { assert(self.points@.push(q).drop_last() =~= self.points@); } }
@@start 0
    let ghost s0 = self.points@; let ghost a0 = self.a@; let ghost b0 = self.b@; let ghost p0 = self.p@;
    proof { lemma_modfacts(p0); lemma_cong_mod(cur(a0, b0, x@), p0); lemma_covers(s0, a0, b0, p0, x@, 0); }
@@end 0
    proof {
        let ghost t = self.points@.subrange(s0.len() as int, self.points@.len() as int);
        assert(self.points@ =~= s0 + t);
        lemma_lists_step(s0, t, a0, b0, p0, x@);
    }
@@loop 1
    invariant_except_break self.points@ == s0, forall|y: int| 0 <= y < $it1.cur@ ==> !#[trigger] cong(y * y, cur(a0, b0, x@), p0)
    invariant self.a == old(self).a, self.b == old(self).b, self.p == old(self).p, self.pol == old(self).pol, is_prime_spec(self.p@), self.p@ == p0, self.a@ == a0, self.b@ == b0,
        $it1.end@ == self.p@, 0 <= $it1.cur@ <= self.p@, 0 <= x@ < p0, xpol@ == cur(a0, b0, x@) % p0,
        (forall|z: int| 0 <= z < p0 ==> !#[trigger] cong(z * z, cur(a0, b0, x@), p0)) ==> covers(s0, s0, a0, b0, p0, x@),
    ensures covers(s0, self.points@, a0, b0, p0, x@)
@@start 1
    proof { lemma_modfacts(p0); lemma_modtest(p0, y@ * y@, cur(a0, b0, x@)); lemma_covers(s0, a0, b0, p0, x@, y@); }
@fn elliptic_curve::EllipticCurve::points
@@props C18
@@spec
    ensures vr@ =~= self.points@
@fn elliptic_curve::EllipticCurve::cardinality
@@props C18
@@spec
    ensures vr == self.points@.len(), enumerates(self.points@, self.a@, self.b@, self.p@) ==> vr == crate::parity::npts(self.a@, self.b@, self.p@)
@@begin
    proof { if enumerates(self.points@, self.a@, self.b@, self.p@) { lemma_enum_len(self.points@, self.a@, self.b@, self.p@); } }
@fn elliptic_curve::EllipticCurve::multiply_scalar
@@props C17
@@spec
    requires wf(*self), ecok(self.a@, self.b@, self.p@), onr(*self, *point)
    ensures pt(vr, self.p@) == smulz(self.a@, self.p@, n@, pt(*point, self.p@)), onr(*self, vr), infcan(*point) ==> infcan(vr)
    decreases if n@ < 0 { 1int } else { 0int }
@@begin
    proof { lemma_smul1(self.a@, self.p@, pt(*point, self.p@)); }
@@loop 0
    invariant wf(*self), ecok(self.a@, self.b@, self.p@), onr(*self, r), onr(*self, b), e@ >= 1, n@ >= 1, infcan(*point) ==> infcan(b) && infcan(r),
        ecadd(self.a@, self.p@, pt(r, self.p@), smul(self.a@, self.p@, e@, pt(b, self.p@))) == smul(self.a@, self.p@, n@, pt(*point, self.p@))
    decreases e@
@@start 0
    proof { lemma_dbladd(self.a@, self.b@, self.p@, pt(r, self.p@), pt(b, self.p@), e@); }
@@after 0
    proof { lemma_smul1(self.a@, self.p@, pt(b, self.p@)); }
@fn elliptic_curve::EllipticCurve::point_order
@@props C19
@@spec
    requires wf(*self), ecok(self.a@, self.b@, self.p@), onr(*self, *point)
    ensures is_kill(self.a@, self.p@, pt(*point, self.p@), vr@), forall|k: int| 1 <= k < vr@ ==> #[trigger] smul(self.a@, self.p@, k, pt(*point, self.p@)) != PT::O
@@begin
    let ghost gn = lemma_finite_order(self.a@, self.b@, self.p@, pt(*point, self.p@));
    proof { lemma_smul1(self.a@, self.p@, pt(*point, self.p@)); }
@@loop 0
    invariant wf(*self), ecok(self.a@, self.b@, self.p@), onr(*self, *point), onr(*self, r_point), x@ >= 2, is_kill(self.a@, self.p@, pt(*point, self.p@), gn),
        pt(r_point, self.p@) == smul(self.a@, self.p@, x@ - 1, pt(*point, self.p@)),
        forall|k: int| 1 <= k < x@ ==> #[trigger] smul(self.a@, self.p@, k, pt(*point, self.p@)) != PT::O
    decreases gn - x@
@@start 0
    proof { lemma_smul_comm1(self.a@, self.b@, self.p@, x@, pt(*point, self.p@)); }
@fn elliptic_curve::EllipticCurve::division_points
@@props C19
@@spec
    requires wf(*self), ecok(self.a@, self.b@, self.p@), enumerates(self.points@, self.a@, self.b@, self.p@)
    ensures vr.0@ == self.points@.filter(|s: ECPoint| smulz(self.a@, self.p@, order@, pt(s, self.p@)) == PT::O)
@@loop 0
    invariant wf(*self), ecok(self.a@, self.b@, self.p@), enumerates(self.points@, self.a@, self.b@, self.p@), $it0.all() == self.points@, 0 <= $it0.pos() <= self.points@.len(),
        vec@ == self.points@.take($it0.pos()).filter(|s: ECPoint| smulz(self.a@, self.p@, order@, pt(s, self.p@)) == PT::O)
@@start 0
    proof { lemma_enum_on(self.points@, self.a@, self.b@, self.p@, $o0.pos()); }
@@end 0
    proof {
        let f = |s: ECPoint| smulz(self.a@, self.p@, order@, pt(s, self.p@)) == PT::O;
        let k = $o0.pos();
        assert(self.points@.take(k + 1).drop_last() =~= self.points@.take(k));
        reveal(Seq::filter);
    }
@@after 0
    proof { assert(self.points@.take(self.points@.len() as int) =~= self.points@); }
@fn elliptic_curve::EllipticCurve::isogeny
@@props C28
@@spec
    requires wf(*self), ecok(self.a@, self.b@, self.p@), self.p@ <= u64::MAX, enumerates(self.points@, self.a@, self.b@, self.p@)
    ensures is_velu(vr, self.a@, self.b@, self.p@, self.points@.filter(|s: ECPoint| smulz(self.a@, self.p@, order@, pt(s, self.p@)) == PT::O))
@@begin
    proof { lemma_modfacts(self.p@); lemma_cong_refl(0, self.p@); }
@@loop 0
    invariant self.p@ >= 2, 0 <= $it0.pos() <= $it0.all().len(), $it0.all() =~= pointvec.0@,
        cong(v@, velu_v(self.a@, $it0.all().take($it0.pos())), self.p@), cong(w@, velu_w(self.a@, $it0.all().take($it0.pos())), self.p@)
@@start 0
    let ghost (v0, w0) = (v@, w@);
    proof { lemma_modfacts(self.p@); lemma_velu_step(self.a@, $o0.all(), $o0.pos()); }
@@end 0
    proof {
        let a = self.a@; let p = self.p@; let s = $o0.all(); let k = $o0.pos(); let q = s[k];
        let g = 3 * (q.x@ * q.x@) + a; let u = 2 * (q.y@ * q.y@);
        lemma_cong_mod(g, p); lemma_cong_mod(u, p);
        let vv = velu_v(a, s.take(k)); let ww = velu_w(a, s.take(k));
        lemma_cong_refl(g, p); lemma_cong_refl(u, p);
        lemma_velu_acc(p, v0, vv, w0, ww, g, u, q.x@, g % p, u % p); lemma_velu_acc(p, v0, vv, w0, ww, g, u, q.x@, g, u);
        lemma_velu_acc(p, v0, vv, w0, ww, g, u, q.x@, g, u % p); lemma_velu_acc(p, v0, vv, w0, ww, g, u, q.x@, g % p, u);
    }
@@after 0
    proof {
        let a = self.a@; let b = self.b@; let p = self.p@; let s = pointvec.0@;
        assert(s.take(s.len() as int) =~= s);
        lemma_modfacts(p);
        lemma_velu_fin(p, a, 5, v@, velu_v(a, s)); lemma_velu_fin(p, b, 7, w@, velu_w(a, s));
    }
@fn elliptic_curve::EllipticCurve::j_invariant
@@props C20
@@spec
    requires ecok(self.a@, self.b@, self.p@)
    ensures is_j(self.a@, self.b@, self.p@, vr@)
@@begin
    proof {
        let a = self.a@; let b = self.b@; let p = self.p@;
        lemma_modfacts(p);
        lemma_jval(a, b, p);
    }
@impl elliptic_curve::ECPoint:Display
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { crate::text::point_text(self.z@ == 0, self.x@, self.y@) }
@fn elliptic_curve::ECPoint:Display::fmt
@@props C26
@@begin
    proof { crate::text::lemma_lits(); assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); } }
@impl elliptic_curve::EllipticCurve:Display
    open spec fn fmt_req(&self) -> bool { ecok(self.a@, self.b@, self.p@) && canon(self.pol@) && self.pol@.len() < 0x7fff_ffff }
    open spec fn text(&self) -> Seq<char> { crate::text::curve_text(self.p@, crate::text::pol_text(self.pol@), self.points@.len() as int, the_j(self.a@, self.b@, self.p@)) }
@fn elliptic_curve::EllipticCurve:Display::fmt
@@props C26
@@begin
    proof {
        crate::text::lemma_lits(); assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
        assert forall|j: int| #[trigger] is_j(self.a@, self.b@, self.p@, j) implies j == the_j(self.a@, self.b@, self.p@) by { lemma_cong_refl(self.a@, self.p@); lemma_cong_refl(self.b@, self.p@); lemma_j_uniq(self.a@, self.b@, self.a@, self.b@, self.p@, j, the_j(self.a@, self.b@, self.p@)); }
    }
@module elliptic_curve
pub open spec fn ptxt(s: ECPoint) -> Seq<char> { crate::text::point_text(s.z@ == 0, s.x@, s.y@) }
/// same points, coordinate by coordinate
pub open spec fn same_points(s: Seq<ECPoint>, t: Seq<ECPoint>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).x@ == t[i].x@ && s[i].y@ == t[i].y@ && s[i].z@ == t[i].z@ }
/// the points separated by comma and space
pub open spec fn points_text(s: Seq<ECPoint>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else if s.len() == 1 { ptxt(s.last()) } else { points_text(s.drop_last()) + seq![',', ' '] + ptxt(s.last()) } }
pub proof fn lemma_points_text(s: Seq<ECPoint>, t: Seq<ECPoint>) requires same_points(s, t) ensures points_text(s) == points_text(t) decreases s.len() { if s.len() > 0 { assert(ptxt(s.last()) == ptxt(t.last())); if s.len() > 1 { assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).x@ == t.drop_last()[i].x@ && s.drop_last()[i].y@ == t.drop_last()[i].y@ && s.drop_last()[i].z@ == t.drop_last()[i].z@ by { assert(s[i] == s.drop_last()[i]); } lemma_points_text(s.drop_last(), t.drop_last()); } } }
impl vstd::std_specs::convert::FromSpecImpl<ECPointVec> for Vec<ECPoint> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ECPointVec) -> Vec<ECPoint> { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<&ECPointVec> for Vec<ECPoint> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &ECPointVec) -> Vec<ECPoint> { arbitrary() } }
@fn elliptic_curve::ECPointVec:Deref::deref
@@props C19
@@spec
    ensures *vr == self.0
@fn elliptic_curve::Vec<ECPoint>:From<ECPointVec>::from
@@props C19
@@spec
    ensures same_points(vr@, ecpointvec.0@)
@fn elliptic_curve::Vec<ECPoint>:From<&ECPointVec>::from
@@props C19
@@spec
    ensures same_points(vr@, ecpointvec.0@)
@impl elliptic_curve::ECPointVec:Display
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { points_text(self.0@) }
@fn elliptic_curve::ECPointVec:Display::fmt
@@props C26
@@begin
    proof { crate::text::lemma_lits(); assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); } }
@@loop 0
    invariant same_points($it0.all(), self.0@), 0 <= $it0.pos() <= $it0.all().len(), first <==> $it0.pos() == 0, f@ == old(f)@ + points_text($it0.all().take($it0.pos())),
        ", "@ == seq![',', ' '], forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s
@@end 0
    proof { let k = $o0.pos(); let a = $it0.all(); assert(a.take(k + 1).drop_last() =~= a.take(k)); assert(a.take(k + 1).last() == a[k]); assert(f@ =~= old(f)@ + points_text(a.take(k + 1))); }
@@after 0
    proof { assert($it0.all().take($it0.pos()) =~= $it0.all()); lemma_points_text($it0.all(), self.0@); }
@module elliptic_curve
/// the enumeration has as many entries as the curve has points
pub proof fn lemma_enum_len(s: Seq<ECPoint>, a: int, b: int, p: int) requires enumerates(s, a, b, p) ensures s.len() == crate::parity::npts(a, b, p) {
    let d = s.drop_last(); let t = d.map_values(|e: ECPoint| (e.x@, e.y@)); let u = crate::parity::apts(a, b, p, p);
    crate::parity::lemma_apts_mem(a, b, p, p);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if t[i] == t[j] { assert(d[i] == aff(d[i].x@, d[i].y@)); assert(d[j] == aff(d[j].x@, d[j].y@)); assert(d[i] == d[j]); if i < j { assert(d[i].x@ <= d[j].x@ && d[i] != d[j]); } else { assert(d[j].x@ <= d[i].x@ && d[j] != d[i]); } } }
    assert forall|e: (int, int)| #[trigger] t.contains(e) <==> u.contains(e) by {
        if t.contains(e) { let i = choose|i: int| 0 <= i < t.len() && t[i] == e; assert(0 <= d[i].x@ < p); assert(crate::parity::hit(a, b, p, e.0, e.1)); }
        if u.contains(e) { assert(crate::parity::hit(a, b, p, e.0, e.1)); assert(cong(e.1 * e.1, cur(a, b, e.0), p)); assert(d.contains(aff(e.0, e.1))); let i = choose|i: int| 0 <= i < d.len() && d[i] == aff(e.0, e.1); assert(bi(e.0)@ == e.0); assert(bi(e.1)@ == e.1); assert(t[i] == e); }
    }
    crate::parity::lemma_same_len(t, u);
}
