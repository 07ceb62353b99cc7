// The number of points of a curve modulo 2, from the roots of its cubic.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::polygcd::*;
use crate::ec::*;
use crate::roots::*;
pub open spec fn hit(a: int, b: int, p: int, x: int, y: int) -> bool { cong(y * y, cur(a, b, x), p) }
/// the affine points over x with ordinate below n
pub open spec fn ys(a: int, b: int, p: int, x: int, n: int) -> Seq<(int, int)> decreases n { if n <= 0 { seq![] } else { ys(a, b, p, x, n - 1) + (if hit(a, b, p, x, n - 1) { seq![(x, n - 1)] } else { seq![] }) } }
/// the affine points with abscissa below m
pub open spec fn apts(a: int, b: int, p: int, m: int) -> Seq<(int, int)> decreases m { if m <= 0 { seq![] } else { apts(a, b, p, m - 1) + ys(a, b, p, m - 1, p) } }
/// number of rational points, infinity included
pub open spec fn npts(a: int, b: int, p: int) -> int { apts(a, b, p, p).len() as int + 1 }
pub open spec fn trace(a: int, b: int, p: int) -> int { p + 1 - npts(a, b, p) }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

// ---- parity of the fibres: y and p - y ----
pub open spec fn yc(a: int, b: int, p: int, x: int, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { b2i(hit(a, b, p, x, lo)) + yc(a, b, p, x, lo + 1, hi) } }
pub proof fn lemma_yc_back(a: int, b: int, p: int, x: int, lo: int, hi: int) requires lo < hi ensures yc(a, b, p, x, lo, hi) == yc(a, b, p, x, lo, hi - 1) + b2i(hit(a, b, p, x, hi - 1)) decreases hi - lo {
    if lo + 1 < hi { lemma_yc_back(a, b, p, x, lo + 1, hi); } else { assert(yc(a, b, p, x, lo + 1, hi) == 0); assert(yc(a, b, p, x, lo, hi - 1) == 0); }
}
pub proof fn lemma_ys_len(a: int, b: int, p: int, x: int, n: int) requires n >= 0 ensures ys(a, b, p, x, n).len() == yc(a, b, p, x, 0, n) decreases n { if n > 0 { lemma_ys_len(a, b, p, x, n - 1); lemma_yc_back(a, b, p, x, 0, n); } }
pub proof fn lemma_hit_neg(a: int, b: int, p: int, x: int, y: int) ensures hit(a, b, p, x, p - y) == hit(a, b, p, x, y) {
    let (u, v) = (y * y, (p - y) * (p - y));
    assert(v - u == p * (p - 2 * y)) by (nonlinear_arith) requires u == y * y, v == (p - y) * (p - y);
    lemma_div_intro(p, v - u, p - 2 * y);
    if hit(a, b, p, x, y) { lemma_cong_trans(v, u, cur(a, b, x), p); }
    if hit(a, b, p, x, p - y) { lemma_cong_sym(v, u, p); lemma_cong_trans(u, v, cur(a, b, x), p); }
}
pub proof fn lemma_yc_even(a: int, b: int, p: int, x: int, k: int) requires p % 2 == 1, k >= 1, k <= p - k + 1 ensures yc(a, b, p, x, k, p - k + 1) % 2 == 0 decreases p + 1 - 2 * k {
    if k < p - k + 1 {
        assert(2 * k <= p - 1);
        lemma_yc_even(a, b, p, x, k + 1);
        lemma_hit_neg(a, b, p, x, k);
        assert(yc(a, b, p, x, k, p - k + 1) == b2i(hit(a, b, p, x, k)) + yc(a, b, p, x, k + 1, p - k + 1));
        lemma_yc_back(a, b, p, x, k + 1, p - k + 1);
    }
}
pub proof fn lemma_root_hit(a: int, b: int, p: int, x: int) ensures rt(cubic(a, b), x, p) == divides(p, cur(a, b, x)), rt(cubic(a, b), x, p) == hit(a, b, p, x, 0) {
    lemma_ev_cubic(a, b, x, 0);
    let c = cur(a, b, x);
    assert(cub(a, b, x) == c);
    if divides(p, c) { lemma_div_neg(p, c); }
    if divides(p, -c) { lemma_div_neg(p, -c); }
    assert(0int * 0int - c == -c);
}
pub proof fn lemma_apts_parity(a: int, b: int, p: int, m: int) requires p % 2 == 1, p > 0 ensures (apts(a, b, p, m).len() - cnt(cubic(a, b), p, m)) % 2 == 0 decreases m {
    if m > 0 {
        lemma_apts_parity(a, b, p, m - 1);
        lemma_ys_len(a, b, p, m - 1, p);
        assert(yc(a, b, p, m - 1, 0, p) == b2i(hit(a, b, p, m - 1, 0)) + yc(a, b, p, m - 1, 1, p));
        lemma_yc_even(a, b, p, m - 1, 1);
        lemma_root_hit(a, b, p, m - 1);
    }
}

// ---- a separable cubic has 0, 1 or 3 roots ----
pub proof fn lemma_cnt_add(m: PM, p: int, a: int, b: int, r: int) requires 0 <= a <= r < b, rt(m, r, p) ensures cnt(m, p, b) >= cnt(m, p, a) + 1 {
    lemma_cnt_mono(m, p, r + 1, b); lemma_cnt_mono(m, p, a, r);
}
pub proof fn lemma_cnt3(m: PM, p: int, r: int, s: int, t: int) requires 0 <= r < p, 0 <= s < p, 0 <= t < p, r != s, r != t, s != t, rt(m, r, p), rt(m, s, p), rt(m, t, p) ensures cnt(m, p, p) >= 3 {
    let lo = if r < s && r < t { r } else if s < t { s } else { t };
    let hi = if r > s && r > t { r } else if s > t { s } else { t };
    let md = r + s + t - lo - hi;
    lemma_cnt_add(m, p, 0, lo + 1, lo); lemma_cnt_add(m, p, lo + 1, md + 1, md); lemma_cnt_add(m, p, md + 1, p, hi);
}
/// two roots r, s of the cubic: r^2 + r s + s^2 + a vanishes modulo p
pub proof fn lemma_cubic_two(a: int, b: int, p: int, r: int, s: int) requires is_prime_spec(p), 0 <= r < s < p, divides(p, cur(a, b, r)), divides(p, cur(a, b, s))
    ensures divides(p, r * r + r * s + s * s + a)
{
    let h = r * r + r * s + s * s + a;
    lemma_div_add(p, cur(a, b, s), cur(a, b, r));
    assert(cur(a, b, s) - cur(a, b, r) == (s - r) * h) by (nonlinear_arith) requires h == r * r + r * s + s * s + a, cur(a, b, s) == s * s * s + a * s + b, cur(a, b, r) == r * r * r + a * r + b;
    lemma_euclid(p, s - r, h);
    lemma_prime_not_div(p, s - r);
}
/// the third root -(r + s)
pub proof fn lemma_third(a: int, b: int, p: int, r: int, s: int) requires divides(p, cur(a, b, r)), divides(p, r * r + r * s + s * s + a) ensures divides(p, cur(a, b, -(r + s))) {
    let h = r * r + r * s + s * s + a; let t = -(r + s);
    let g = t * t + t * r + r * r + a;
    assert(cur(a, b, t) - cur(a, b, r) == (t - r) * g) by (nonlinear_arith) requires g == t * t + t * r + r * r + a, cur(a, b, t) == t * t * t + a * t + b, cur(a, b, r) == r * r * r + a * r + b;
    assert(g == h) by (nonlinear_arith) requires g == t * t + t * r + r * r + a, h == r * r + r * s + s * s + a, t == -(r + s);
    lemma_div_mul(p, h, t - r);
    lemma_div_add(p, (t - r) * h, cur(a, b, r));
}
/// a double root makes the discriminant vanish
pub proof fn lemma_double(a: int, b: int, p: int, r: int) requires divides(p, cur(a, b, r)), divides(p, 3 * r * r + a) ensures divides(p, disc(a, b)) {
    let d = 3 * r * r + a; let c = cur(a, b, r);
    // a = d - 3 r^2, b = c - r d + 2 r^3
    let e = b - 2 * (r * r * r);
    assert(e == c - r * d) by (nonlinear_arith) requires e == b - 2 * (r * r * r), c == r * r * r + a * r + b, d == 3 * r * r + a;
    lemma_div_mul(p, d, r); lemma_div_add(p, c, r * d);
    let q = r * r; let w = r * q;
    assert(a == d - 3 * q) by (nonlinear_arith) requires d == 3 * r * r + a, q == r * r;
    assert(b == e + 2 * w) by (nonlinear_arith) requires e == b - 2 * (r * r * r), w == r * q, q == r * r;
    let k1 = d * d - 9 * (d * q) + 27 * (q * q);
    assert(a * a * a == d * k1 - 27 * (q * q * q)) by (nonlinear_arith) requires a == d - 3 * q, k1 == d * d - 9 * (d * q) + 27 * (q * q);
    assert(b * b == e * (e + 4 * w) + 4 * (w * w)) by (nonlinear_arith) requires b == e + 2 * w;
    assert(w * w == q * q * q) by (nonlinear_arith) requires w == r * q, q == r * r;
    assert(disc(a, b) == 4 * (d * k1) + 27 * (e * (e + 4 * w)));
    lemma_div_mul(p, d, k1); lemma_div_mul(p, d * k1, 4); lemma_div_mul(p, e, e + 4 * w); lemma_div_mul(p, e * (e + 4 * w), 27);
    lemma_div_add(p, 4 * (d * k1), 27 * (e * (e + 4 * w)));
}
pub proof fn lemma_cubic_roots(a: int, b: int, p: int) requires ecok(a, b, p) ensures ({ let c = cnt(cubic(a, b), p, p); c == 0 || c == 1 || c == 3 }) {
    let f = cubic(a, b); let c = cnt(f, p, p);
    lemma_cubic(a, b); lemma_cubic_shape(a, b);
    lemma_cnt_mono(f, p, 0, p);
    if c >= 4 {
        lemma_lagrange(f, 4, p);
        assert(cf(pmod(f, p), mk(3, 0, 0)) == 1) by { broadcast use poly_cf; lemma_cf_pmod(f, p, mk(3, 0, 0)); assert(1int % p == 1) by (nonlinear_arith) requires p > 3; }
        assert(false);
    }
    if c == 2 {
        let s = lemma_cnt_pos(f, p, p);
        // the greatest root s' and another one below it
        let (r, s) = lemma_two(f, p, p);
        lemma_root_hit(a, b, p, r); lemma_root_hit(a, b, p, s);
        lemma_cubic_two(a, b, p, r, s);
        lemma_third(a, b, p, r, s);
        let t = (-(r + s)) % p;
        lemma_cong_mod(-(r + s), p);
        lemma_cur_cong(a, b, p, t, -(r + s));
        lemma_div_add(p, cur(a, b, t) - cur(a, b, -(r + s)), cur(a, b, -(r + s)));
        lemma_root_hit(a, b, p, t);
        let h = r * r + r * s + s * s + a;
        if t == r || t == s {
            let (u, v) = if t == r { (r, s) } else { (s, r) };
            // -(u + v) = u, so v = -2 u modulo p and h = 3 u^2 + a
            let z = -(r + s) - t;
            lemma_div_neg(p, t - -(r + s));
            assert(z == -(2 * u + v));
            assert(h == u * u + u * v + v * v + a) by (nonlinear_arith) requires h == r * r + r * s + s * s + a, (u == r && v == s) || (u == s && v == r);
            assert(3 * u * u + a == h + z * (v - u)) by (nonlinear_arith) requires h == u * u + u * v + v * v + a, z == -(2 * u + v);
            lemma_div_mul(p, z, v - u); lemma_div_add(p, h, z * (v - u));
            lemma_root_hit(a, b, p, u);
            lemma_double(a, b, p, u);
        } else { lemma_cnt3(f, p, r, s, t); }
    }
}
pub proof fn lemma_two(m: PM, p: int, n: int) -> (rs: (int, int)) requires cnt(m, p, n) >= 2 ensures 0 <= rs.0 < rs.1 < n, rt(m, rs.0, p), rt(m, rs.1, p) decreases n {
    if n <= 0 { (0, 0) } else if rt(m, n - 1, p) { let r = lemma_cnt_pos(m, p, n - 1); (r, n - 1) } else { lemma_two(m, p, n - 1) }
}
pub proof fn lemma_cubic_shape(a: int, b: int) ensures xo(cubic(a, b)), xonly(cubic(a, b)), dlt(cubic(a, b), 4), is_lead(cubic(a, b), mk(3, 0, 0)), cf(cubic(a, b), mk(3, 0, 0)) == 1, lead(cubic(a, b)) == mk(3, 0, 0), lc(cubic(a, b)) == 1 {
    broadcast use poly_cf;
    let f = cubic(a, b); lemma_cubic(a, b);
    lemma_keys_padd(padd(mono(mk(3, 0, 0), 1), mono(mk(1, 0, 0), a)), mono(m1(), b)); lemma_keys_padd(mono(mk(3, 0, 0), 1), mono(mk(1, 0, 0), a));
    assert(cf(f, mk(3, 0, 0)) == 1);
    assert(f.contains_key(mk(3, 0, 0)));
    assert forall|k: MV| #[trigger] f.contains_key(k) implies k == mk(3, 0, 0) || k == mk(1, 0, 0) || k == m1() by { assert(cf(f, k) != 0); }
    assert(is_lead(f, mk(3, 0, 0)));
    lemma_lead(f);
    assert(lead(f) == mk(3, 0, 0)) by { assert(f.contains_key(lead(f))); }
}
/// the number of points is odd exactly when the cubic has no root
pub proof fn lemma_trace_parity(a: int, b: int, p: int) requires ecok(a, b, p) ensures (trace(a, b, p) - (if cnt(cubic(a, b), p, p) == 0 { 1int } else { 0 })) % 2 == 0 {
    assert(p % 2 == 1) by { if p % 2 == 0 { lemma_div_mod(2, p); assert(1 < 2int && 2int < p); } }
    lemma_apts_parity(a, b, p, p);
    lemma_cubic_roots(a, b, p);
}
/// gcd(x^p - x, cubic) is 1 exactly when the cubic has no root
pub proof fn lemma_gcd_one(g: PM, a: int, b: int, p: int) requires ecok(a, b, p), is_gcd(g, cubic(a, b), xpx(p), p) ensures (g == p1()) == (cnt(cubic(a, b), p, p) == 0) {
    let f = cubic(a, b);
    lemma_cubic(a, b); lemma_cubic_shape(a, b);
    lemma_gcd_sym(g, f, xpx(p), p);
    lemma_gcd_roots(g, f, p);
    lemma_lead(g);
    if lead(g).x == 0 {
        assert forall|k: MV| #[trigger] g.contains_key(k) implies k == m1() by { if k != lead(g) { assert(mlt(k, lead(g))); } }
        broadcast use poly_cf;
        assert(g.contains_key(lead(g)));
        lemma_ext(g, p1());
    }
    if g == p1() { broadcast use poly_cf; assert(g.contains_key(lead(g))); assert(lead(g) == m1()); }
}
// ---- the recursive list holds every point exactly once ----
pub proof fn lemma_ys_mem(a: int, b: int, p: int, x: int, n: int) ensures ys(a, b, p, x, n).no_duplicates(), forall|e: (int, int)| #[trigger] ys(a, b, p, x, n).contains(e) <==> e.0 == x && 0 <= e.1 < n && hit(a, b, p, x, e.1) decreases n {
    if n > 0 {
        lemma_ys_mem(a, b, p, x, n - 1);
        let (s, t) = (ys(a, b, p, x, n - 1), if hit(a, b, p, x, n - 1) { seq![(x, n - 1)] } else { Seq::<(int, int)>::empty() });
        assert forall|e: (int, int)| #[trigger] (s + t).contains(e) <==> e.0 == x && 0 <= e.1 < n && hit(a, b, p, x, e.1) by {
            if (s + t).contains(e) { let i = choose|i: int| 0 <= i < (s + t).len() && (s + t)[i] == e; if i < s.len() { assert(s[i] == e); assert(s.contains(e)); } }
            if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert((s + t)[i] == e); }
            if e == (x, n - 1) && hit(a, b, p, x, n - 1) { assert((s + t)[s.len() as int] == e); }
        }
        assert forall|i: int, j: int| 0 <= i < (s + t).len() && 0 <= j < (s + t).len() && i != j implies (s + t)[i] != (s + t)[j] by {
            if i < s.len() { assert(s.contains(s[i])); }
            if j < s.len() { assert(s.contains(s[j])); }
        }
    }
}
pub proof fn lemma_apts_mem(a: int, b: int, p: int, m: int) ensures apts(a, b, p, m).no_duplicates(), forall|e: (int, int)| #[trigger] apts(a, b, p, m).contains(e) <==> 0 <= e.0 < m && 0 <= e.1 < p && hit(a, b, p, e.0, e.1) decreases m {
    if m > 0 {
        lemma_apts_mem(a, b, p, m - 1); lemma_ys_mem(a, b, p, m - 1, p);
        let (s, t) = (apts(a, b, p, m - 1), ys(a, b, p, m - 1, p));
        assert forall|e: (int, int)| #[trigger] (s + t).contains(e) <==> 0 <= e.0 < m && 0 <= e.1 < p && hit(a, b, p, e.0, e.1) by {
            if (s + t).contains(e) { let i = choose|i: int| 0 <= i < (s + t).len() && (s + t)[i] == e; if i < s.len() { assert(s[i] == e); assert(s.contains(e)); } else { assert(t[i - s.len()] == e); assert(t.contains(e)); } }
            if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert((s + t)[i] == e); }
            if t.contains(e) { let i = choose|i: int| 0 <= i < t.len() && t[i] == e; assert((s + t)[s.len() + i] == e); }
        }
        assert forall|i: int, j: int| 0 <= i < (s + t).len() && 0 <= j < (s + t).len() && i != j implies (s + t)[i] != (s + t)[j] by {
            if i < s.len() { assert(s.contains(s[i])); } else { assert(t.contains(t[i - s.len()])); }
            if j < s.len() { assert(s.contains(s[j])); } else { assert(t.contains(t[j - s.len()])); }
        }
    }
}
pub proof fn lemma_same_len(s: Seq<(int, int)>, t: Seq<(int, int)>) requires s.no_duplicates(), t.no_duplicates(), forall|e: (int, int)| #[trigger] s.contains(e) <==> t.contains(e) ensures s.len() == t.len() {
    s.unique_seq_to_set(); t.unique_seq_to_set();
    assert(s.to_set() =~= t.to_set()) by { assert forall|e: (int, int)| s.to_set().contains(e) == t.to_set().contains(e) by { assert(s.to_set().contains(e) == s.contains(e)); assert(t.to_set().contains(e) == t.contains(e)); assert(s.contains(e) <==> t.contains(e)); } }
}
