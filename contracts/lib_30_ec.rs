// Points of y^2 = x^3 + a x + b over GF(p) as residue classes and the
// chord-and-tangent law.  Everything here is proved except `axiom_ec_assoc`
// (associativity), which lean/ECAssoc.lean derives from Mathlib's group law.
use crate::arith::*;
pub enum PT { O, A(int, int) }
pub open spec fn cur(a: int, b: int, x: int) -> int { x * x * x + a * x + b }
pub open spec fn onc(a: int, b: int, p: int, s: PT) -> bool { match s { PT::O => true, PT::A(x, y) => 0 <= x < p && 0 <= y < p && cong(y * y, cur(a, b, x), p) } }
/// the inverse of d modulo the prime p
pub open spec fn is_inv(d: int, p: int, v: int) -> bool { 0 <= v < p && cong(d * v, 1, p) }
pub open spec fn finv(d: int, p: int) -> int { choose|v: int| #[trigger] is_inv(d, p, v) }
/// third point on the line of slope m through (x1, y1) and abscissa x2, reflected
pub open spec fn chord(p: int, m: int, x1: int, y1: int, x2: int) -> PT { PT::A((m * m - x1 - x2) % p, (m * (x1 - (m * m - x1 - x2)) - y1) % p) }
pub open spec fn chord2(p: int, m: int, x1: int, y1: int) -> PT { PT::A((m * m - 2 * x1) % p, (m * (x1 - (m * m - 2 * x1)) - y1) % p) }
pub open spec fn ecadd(a: int, p: int, s: PT, t: PT) -> PT {
    match (s, t) {
        (PT::O, _) => t,
        (_, PT::O) => s,
        (PT::A(x1, y1), PT::A(x2, y2)) =>
            if x1 != x2 { chord(p, (y2 - y1) * finv(x2 - x1, p), x1, y1, x2) }
            else if y1 != y2 || y1 == 0 { PT::O }
            else { chord(p, (3 * x1 * x1 + a) * finv(2 * y1, p), x1, y1, x1) },
    }
}
pub open spec fn ecneg(p: int, s: PT) -> PT { match s { PT::O => PT::O, PT::A(x, y) => PT::A(x, (-y) % p) } }
pub open spec fn disc(a: int, b: int) -> int { 4 * (a * a * a) + 27 * (b * b) }

pub proof fn lemma_finv(d: int, p: int) requires is_prime_spec(p), !divides(p, d) ensures is_inv(d, p, finv(d, p)) {
    lemma_fermat(p, d);
    let w = pow(d, p - 2); let v = w % p;
    assert(pow(d, p - 1) == d * w);
    lemma_cong_mod(w, p); lemma_cong_refl(d, p);
    lemma_cong_mul(d, d, v, w, p);
    lemma_cong_trans(d * v, d * w, 1, p);
    assert(is_inv(d, p, v));
}
/// any inverse is the inverse
pub proof fn lemma_inv_uniq(d: int, p: int, u: int, v: int) requires is_prime_spec(p), cong(d * u, 1, p), cong(d * v, 1, p) ensures cong(u, v, p) {
    lemma_cong_refl(u, p); lemma_cong_refl(v, p);
    lemma_cong_mul(d * u, 1, v, v, p);
    lemma_cong_mul(d * v, 1, u, u, p);
    assert((d * u) * v == (d * v) * u) by (nonlinear_arith);
    lemma_cong_sym((d * v) * u, 1 * u, p);
    lemma_cong_trans(u, (d * v) * u, v, p);
}
/// slopes with the same product with d agree
pub proof fn lemma_slope_uniq(d: int, p: int, u: int, v: int) requires is_prime_spec(p), !divides(p, d), cong(u * d, v * d, p) ensures cong(u, v, p) {
    assert(u * d - v * d == d * (u - v)) by (nonlinear_arith);
    lemma_euclid(p, d, u - v);
}
pub proof fn lemma_slope(n: int, d: int, p: int) requires is_prime_spec(p), !divides(p, d) ensures cong((n * finv(d, p)) * d, n, p) {
    lemma_finv(d, p);
    lemma_cong_refl(n, p);
    lemma_cong_mul(n, n, d * finv(d, p), 1, p);
    assert((n * finv(d, p)) * d == n * (d * finv(d, p))) by (nonlinear_arith);
}
pub proof fn lemma_small_ndiv(p: int, k: int) requires p >= 2, -p < k < p, k != 0 ensures !divides(p, k) {
    if divides(p, k) { if k > 0 { lemma_div_le(p, k); } else { lemma_div_neg(p, k); lemma_div_le(p, -k); } }
}
pub proof fn lemma_chord_cong(p: int, m: int, n: int, x1: int, y1: int, x2: int) requires p >= 2, cong(m, n, p) ensures chord(p, m, x1, y1, x2) == chord(p, n, x1, y1, x2) {
    lemma_cong_mul(m, n, m, n, p);
    lemma_cong_refl(x1, p); lemma_cong_refl(x2, p); lemma_cong_refl(y1, p);
    lemma_cong_add(m * m, n * n, x1, x1, p);
    lemma_cong_add(m * m - x1, n * n - x1, x2, x2, p);
    let s = m * m - x1 - x2; let t = n * n - x1 - x2;
    lemma_cong_mod_eq(s, t, p);
    lemma_cong_add(x1, x1, s, t, p);
    lemma_cong_mul(m, n, x1 - s, x1 - t, p);
    lemma_cong_add(m * (x1 - s), n * (x1 - t), y1, y1, p);
    lemma_cong_mod_eq(m * (x1 - s) - y1, n * (x1 - t) - y1, p);
}
pub open spec fn gq(a: int, m: int, x1: int, y1: int, s: int) -> int { s * s + s * x1 + x1 * x1 + a - 2 * (y1 * m) - (m * m) * (s - x1) }
/// F(s) - L(s)^2 = (s - x1) G(s) + F(x1) - y1^2
pub proof fn lemma_line(a: int, b: int, m: int, x1: int, y1: int, s: int)
    ensures cur(a, b, s) - (m * (x1 - s) - y1) * (m * (x1 - s) - y1) == (s - x1) * gq(a, m, x1, y1, s) + (cur(a, b, x1) - y1 * y1)
{
    let t = s - x1; let w = m * t;
    assert(m * (x1 - s) == -w) by (nonlinear_arith) requires w == m * (s - x1);
    assert((-w - y1) * (-w - y1) == w * w + 2 * (y1 * w) + y1 * y1) by (nonlinear_arith);
    assert(t * (s * s + s * x1 + x1 * x1) == s * s * s - x1 * x1 * x1) by (nonlinear_arith) requires t == s - x1;
    assert(t * a == a * s - a * x1) by (nonlinear_arith) requires t == s - x1;
    assert(t * (2 * (y1 * m)) == 2 * (y1 * w)) by (nonlinear_arith) requires w == m * t;
    assert(t * ((m * m) * t) == w * w) by (nonlinear_arith) requires w == m * t;
    let u = s * s + s * x1 + x1 * x1;
    assert(t * (u + a - 2 * (y1 * m) - (m * m) * t) == t * u + t * a - t * (2 * (y1 * m)) - t * ((m * m) * t)) by (nonlinear_arith);
}
pub proof fn lemma_gq(a: int, m: int, x1: int, y1: int, x2: int) ensures gq(a, m, x1, y1, m * m - x1 - x2) == gq(a, m, x1, y1, x2) {
    let q = m * m; let s = q - x1 - x2;
    assert(s * s + s * x1 - q * (s - x1) == x2 * x2 + x2 * x1 - q * (x2 - x1)) by (nonlinear_arith) requires s == q - x1 - x2;
}
/// a line that meets the curve twice at x1, x2 meets it again at the chord point
pub proof fn lemma_chord_on(a: int, b: int, p: int, m: int, x1: int, y1: int, x2: int)
    requires p >= 2, cong(y1 * y1, cur(a, b, x1), p), divides(p, gq(a, m, x1, y1, x2))
    ensures onc(a, b, p, chord(p, m, x1, y1, x2))
{
    let s = m * m - x1 - x2; let l = m * (x1 - s) - y1;
    lemma_gq(a, m, x1, y1, x2);
    lemma_line(a, b, m, x1, y1, s);
    lemma_div_mul(p, gq(a, m, x1, y1, s), s - x1);
    lemma_cong_sym(y1 * y1, cur(a, b, x1), p);
    lemma_div_add(p, (s - x1) * gq(a, m, x1, y1, s), cur(a, b, x1) - y1 * y1);
    lemma_cong_sym(cur(a, b, s), l * l, p);
    lemma_onc_mod(a, b, p, s, l);
}
pub proof fn lemma_cur_cong(a: int, b: int, p: int, x: int, y: int) requires cong(x, y, p) ensures cong(cur(a, b, x), cur(a, b, y), p) {
    lemma_cong_mul(x, y, x, y, p); lemma_cong_mul(x * x, y * y, x, y, p);
    lemma_cong_refl(a, p); lemma_cong_refl(b, p);
    lemma_cong_mul(a, a, x, y, p);
    lemma_cong_add(x * x * x, y * y * y, a * x, a * y, p);
    lemma_cong_add(x * x * x + a * x, y * y * y + a * y, b, b, p);
}
pub proof fn lemma_onc_mod(a: int, b: int, p: int, x: int, y: int) requires p >= 2 ensures cong(y * y, cur(a, b, x), p) <==> onc(a, b, p, PT::A(x % p, y % p)) {
    let u = x % p; let v = y % p;
    lemma_cong_mod(x, p); lemma_cong_mod(y, p);
    lemma_cong_mul(y, v, y, v, p); lemma_cong_mul(v, y, v, y, p);
    lemma_cur_cong(a, b, p, x, u); lemma_cur_cong(a, b, p, u, x);
    if cong(y * y, cur(a, b, x), p) {
        lemma_cong_trans(v * v, y * y, cur(a, b, x), p);
        lemma_cong_trans(v * v, cur(a, b, x), cur(a, b, u), p);
    }
    if cong(v * v, cur(a, b, u), p) {
        lemma_cong_trans(y * y, v * v, cur(a, b, u), p);
        lemma_cong_trans(y * y, cur(a, b, u), cur(a, b, x), p);
    }
}
/// secant
pub proof fn lemma_secant(a: int, b: int, p: int, m: int, x1: int, y1: int, x2: int, y2: int)
    requires is_prime_spec(p), !divides(p, x2 - x1), cong(y1 * y1, cur(a, b, x1), p), cong(y2 * y2, cur(a, b, x2), p), cong(m * (x2 - x1), y2 - y1, p)
    ensures divides(p, gq(a, m, x1, y1, x2))
{
    let d = x2 - x1; let g = gq(a, m, x1, y1, x2); let e = y2 - y1; let w = m * d; let l = m * (x1 - x2) - y1;
    lemma_line(a, b, m, x1, y1, x2);
    assert(m * (x1 - x2) == -w) by (nonlinear_arith) requires w == m * (x2 - x1);
    // l = -(w + y1) == -y2
    lemma_cong_refl(y1, p);
    lemma_cong_add(w, e, y1, y1, p);
    assert(e + y1 == y2);
    lemma_cong_mul(w + y1, y2, w + y1, y2, p);
    assert(l * l == (w + y1) * (w + y1)) by (nonlinear_arith) requires l == -(w + y1);
    lemma_cong_trans(l * l, y2 * y2, cur(a, b, x2), p);
    lemma_cong_sym(l * l, cur(a, b, x2), p);
    // d * g == (F(x2) - l^2) + (y1^2 - F(x1))
    lemma_div_add(p, cur(a, b, x2) - l * l, y1 * y1 - cur(a, b, x1));
    lemma_euclid(p, d, g);
}
/// tangent
pub proof fn lemma_tangent(a: int, p: int, m: int, x1: int, y1: int)
    requires cong(m * (2 * y1), 3 * x1 * x1 + a, p)
    ensures divides(p, gq(a, m, x1, y1, x1))
{
    assert(m * (2 * y1) == 2 * (y1 * m)) by (nonlinear_arith);
    assert(3 * x1 * x1 == x1 * x1 + x1 * x1 + x1 * x1) by (nonlinear_arith);
    assert((m * m) * (x1 - x1) == 0) by (nonlinear_arith);
    lemma_cong_sym(m * (2 * y1), 3 * x1 * x1 + a, p);
}
pub proof fn lemma_twice_ndiv(p: int, y: int) requires is_prime_spec(p), p > 2, 0 < y < p ensures !divides(p, 2 * y) {
    if divides(p, 2 * y) { lemma_euclid(p, 2, y); lemma_small_ndiv(p, 2); lemma_small_ndiv(p, y); }
}
/// C16: the law stays on the curve
pub proof fn lemma_add_on(a: int, b: int, p: int, s: PT, t: PT) requires is_prime_spec(p), p > 2, onc(a, b, p, s), onc(a, b, p, t) ensures onc(a, b, p, ecadd(a, p, s, t)) {
    match (s, t) {
        (PT::A(x1, y1), PT::A(x2, y2)) => {
            if x1 != x2 {
                lemma_small_ndiv(p, x2 - x1);
                let m = (y2 - y1) * finv(x2 - x1, p);
                lemma_slope(y2 - y1, x2 - x1, p);
                lemma_secant(a, b, p, m, x1, y1, x2, y2);
                lemma_chord_on(a, b, p, m, x1, y1, x2);
            } else if y1 != y2 || y1 == 0 {} else {
                lemma_twice_ndiv(p, y1);
                let m = (3 * x1 * x1 + a) * finv(2 * y1, p);
                lemma_slope(3 * x1 * x1 + a, 2 * y1, p);
                lemma_tangent(a, p, m, x1, y1);
                lemma_chord_on(a, b, p, m, x1, y1, x1);
            }
        }
        _ => {}
    }
}
/// C16: the law is commutative
pub proof fn lemma_add_comm(a: int, b: int, p: int, s: PT, t: PT) requires is_prime_spec(p), p > 2, onc(a, b, p, s), onc(a, b, p, t) ensures ecadd(a, p, s, t) == ecadd(a, p, t, s) {
    match (s, t) {
        (PT::A(x1, y1), PT::A(x2, y2)) => {
            if x1 != x2 {
                let d = x2 - x1; let e = x1 - x2;
                lemma_small_ndiv(p, d); lemma_small_ndiv(p, e);
                let m = (y2 - y1) * finv(d, p); let n = (y1 - y2) * finv(e, p);
                lemma_slope(y2 - y1, d, p);
                lemma_slope(y1 - y2, e, p);
                lemma_div_neg(p, n * e - (y1 - y2));
                assert(n * e == -(n * d)) by (nonlinear_arith) requires e == -d;
                assert(cong(n * d, y2 - y1, p));
                lemma_cong_sym(m * d, y2 - y1, p);
                lemma_cong_trans(n * d, y2 - y1, m * d, p);
                lemma_slope_uniq(d, p, n, m);
                lemma_chord_cong(p, n, m, x2, y2, x1);
                // same line through the other point
                let s3 = m * m - x1 - x2;
                assert(m * m - x2 - x1 == s3);
                assert((m * (x1 - s3) - y1) - (m * (x2 - s3) - y2) == (y2 - y1) - m * d) by (nonlinear_arith) requires d == x2 - x1;
                lemma_cong_mod_eq(m * (x1 - s3) - y1, m * (x2 - s3) - y2, p);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_neg_on(a: int, b: int, p: int, s: PT) requires p >= 2, onc(a, b, p, s) ensures onc(a, b, p, ecneg(p, s)) {
    match s {
        PT::A(x, y) => {
            assert((-y) * (-y) == y * y) by (nonlinear_arith);
            lemma_onc_mod(a, b, p, x, -y);
            vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p as nat);
        }
        _ => {}
    }
}
pub proof fn lemma_negmod(p: int, y: int) requires p >= 2, 0 <= y < p ensures (-y) % p == (if y == 0 { 0 } else { p - y }) {
    if y == 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, p as nat); }
    else {
        vstd::arithmetic::div_mod::lemma_small_mod((p - y) as nat, p as nat);
        assert((p - y) - (-y) == p * 1);
        lemma_cong_mod_eq(p - y, -y, p);
    }
}
pub proof fn lemma_negneg(p: int, s: PT) requires p >= 2, s matches PT::A(x, y) ==> 0 <= y < p ensures ecneg(p, ecneg(p, s)) == s {
    match s { PT::A(x, y) => { lemma_negmod(p, y); lemma_negmod(p, (-y) % p); } _ => {} }
}
/// C16: a point plus its negation is infinity
pub proof fn lemma_add_neg(a: int, b: int, p: int, s: PT) requires is_prime_spec(p), p > 2, onc(a, b, p, s) ensures ecadd(a, p, s, ecneg(p, s)) == PT::O, ecadd(a, p, ecneg(p, s), s) == PT::O {
    match s {
        PT::A(x, y) => { lemma_negmod(p, y); if y != 0 && p - y == y { assert(2 * y == p * 1); lemma_div_intro(p, 2 * y, 1); lemma_twice_ndiv(p, y); } }
        _ => {}
    }
}
/// ASSUMED here; proved in lean/ECAssoc.lean from Mathlib's group law on Weierstrass curves
pub axiom fn axiom_ec_assoc(a: int, b: int, p: int, s: PT, t: PT, u: PT)
    requires is_prime_spec(p), p > 3, !divides(p, disc(a, b)), onc(a, b, p, s), onc(a, b, p, t), onc(a, b, p, u)
    ensures ecadd(a, p, ecadd(a, p, s, t), u) == ecadd(a, p, s, ecadd(a, p, t, u));

// ---- multiples ----
pub open spec fn smul(a: int, p: int, n: int, s: PT) -> PT decreases n { if n <= 0 { PT::O } else { ecadd(a, p, smul(a, p, n - 1, s), s) } }
pub open spec fn smulz(a: int, p: int, n: int, s: PT) -> PT { if n >= 0 { smul(a, p, n, s) } else { ecneg(p, smul(a, p, -n, s)) } }
/// a usable curve
pub open spec fn ecok(a: int, b: int, p: int) -> bool { is_prime_spec(p) && p > 3 && !divides(p, disc(a, b)) }
pub proof fn lemma_smul_on(a: int, b: int, p: int, n: int, s: PT) requires is_prime_spec(p), p > 2, onc(a, b, p, s) ensures onc(a, b, p, smul(a, p, n, s)) decreases n {
    if n > 0 { lemma_smul_on(a, b, p, n - 1, s); lemma_add_on(a, b, p, smul(a, p, n - 1, s), s); }
}
pub proof fn lemma_smul1(a: int, p: int, s: PT) ensures smul(a, p, 1, s) == s, smul(a, p, 0, s) == PT::O { reveal_with_fuel(smul, 3); }
pub proof fn lemma_smul_comm1(a: int, b: int, p: int, n: int, s: PT) requires is_prime_spec(p), p > 2, onc(a, b, p, s), n >= 1 ensures smul(a, p, n, s) == ecadd(a, p, s, smul(a, p, n - 1, s)) {
    lemma_smul_on(a, b, p, n - 1, s); lemma_add_comm(a, b, p, smul(a, p, n - 1, s), s);
}
pub proof fn lemma_smul_add(a: int, b: int, p: int, m: int, n: int, s: PT) requires ecok(a, b, p), onc(a, b, p, s), m >= 0, n >= 0
    ensures ecadd(a, p, smul(a, p, m, s), smul(a, p, n, s)) == smul(a, p, m + n, s) decreases n
{
    lemma_smul_on(a, b, p, m, s);
    if n > 0 {
        lemma_smul_add(a, b, p, m, n - 1, s);
        lemma_smul_on(a, b, p, n - 1, s);
        axiom_ec_assoc(a, b, p, smul(a, p, m, s), smul(a, p, n - 1, s), s);
    }
}
pub proof fn lemma_smul_dbl(a: int, b: int, p: int, k: int, s: PT) requires ecok(a, b, p), onc(a, b, p, s), k >= 0
    ensures smul(a, p, k, ecadd(a, p, s, s)) == smul(a, p, 2 * k, s) decreases k
{
    if k > 0 {
        lemma_smul_dbl(a, b, p, k - 1, s);
        lemma_smul1(a, p, s);
        lemma_smul_add(a, b, p, 1, 1, s);
        lemma_smul_add(a, b, p, 2 * k - 2, 2, s);
    }
}
/// one step of double-and-add: r + e b is unchanged
pub proof fn lemma_dbladd(a: int, b: int, p: int, r: PT, s: PT, e: int) requires ecok(a, b, p), onc(a, b, p, r), onc(a, b, p, s), e >= 1
    ensures
        e % 2 == 0 ==> ecadd(a, p, r, smul(a, p, e / 2, ecadd(a, p, s, s))) == ecadd(a, p, r, smul(a, p, e, s)),
        e % 2 == 1 ==> ecadd(a, p, ecadd(a, p, r, s), smul(a, p, e / 2, ecadd(a, p, s, s))) == ecadd(a, p, r, smul(a, p, e, s)),
{
    lemma_smul_dbl(a, b, p, e / 2, s);
    if e % 2 == 1 {
        assert(2 * (e / 2) == e - 1);
        lemma_smul_on(a, b, p, e - 1, s);
        axiom_ec_assoc(a, b, p, r, s, smul(a, p, e - 1, s));
        lemma_smul_comm1(a, b, p, e, s);
    } else { assert(2 * (e / 2) == e); }
}
// ---- every point has finite order ----
pub open spec fn code(p: int, s: PT) -> int { match s { PT::O => -1, PT::A(x, y) => x * p + y } }
pub proof fn lemma_code(p: int, x: int, y: int, u: int, v: int) requires p > 0, 0 <= x < p, 0 <= y < p, 0 <= u < p, 0 <= v < p
    ensures 0 <= x * p + y < p * p, x * p + y == u * p + v ==> x == u && y == v
{
    assert(0 <= x * p <= (p - 1) * p) by (nonlinear_arith) requires 0 <= x <= p - 1, p > 0;
    assert((p - 1) * p == p * p - p) by (nonlinear_arith);
    if x * p + y == u * p + v {
        if x < u { assert((u - x) * p >= p) by (nonlinear_arith) requires u - x >= 1, p > 0; assert((u - x) * p == u * p - x * p) by (nonlinear_arith); }
        if x > u { assert((x - u) * p >= p) by (nonlinear_arith) requires x - u >= 1, p > 0; assert((x - u) * p == x * p - u * p) by (nonlinear_arith); }
    }
}
pub proof fn lemma_pigeon(s: Seq<int>, n: int) requires n >= 0, s.len() > n, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n
    ensures exists|i: int, j: int| 0 <= i < j < s.len() && s[i] == s[j]
{
    if s.no_duplicates() {
        s.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(0, n);
        assert(s.to_set().subset_of(vstd::set_lib::set_int_range(0, n)));
        vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, n));
        assert(false);
    }
    let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] == s[j];
    if i < j { assert(s[i] == s[j]); } else { assert(s[j] == s[i]); }
}
/// cancel a common multiple
pub proof fn lemma_smul_cancel(a: int, b: int, p: int, i: int, j: int, s: PT) requires ecok(a, b, p), onc(a, b, p, s), 0 <= i < j, smul(a, p, i, s) == smul(a, p, j, s)
    ensures smul(a, p, j - i, s) == PT::O
{
    let u = smul(a, p, i, s); let v = smul(a, p, j - i, s);
    lemma_smul_on(a, b, p, i, s); lemma_smul_on(a, b, p, j - i, s);
    lemma_smul_add(a, b, p, i, j - i, s);
    lemma_neg_on(a, b, p, u);
    axiom_ec_assoc(a, b, p, ecneg(p, u), u, v);
    lemma_add_neg(a, b, p, u);
}
pub open spec fn is_kill(a: int, p: int, s: PT, n: int) -> bool { n >= 1 && smul(a, p, n, s) == PT::O }
/// some positive multiple is infinity
pub proof fn lemma_finite_order(a: int, b: int, p: int, s: PT) -> (n: int) requires ecok(a, b, p), onc(a, b, p, s) ensures is_kill(a, p, s, n), n <= p * p + 1 {
    let l = p * p + 1;
    assert(l >= 1) by (nonlinear_arith) requires l == p * p + 1;
    if exists|n: int| 1 <= n <= l && #[trigger] smul(a, p, n, s) == PT::O {
        choose|n: int| 1 <= n <= l && #[trigger] smul(a, p, n, s) == PT::O
    } else {
        let c = Seq::new(l as nat, |i: int| code(p, smul(a, p, i + 1, s)));
        assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < p * p by {
            lemma_smul_on(a, b, p, i + 1, s);
            let w = smul(a, p, i + 1, s);
            match w { PT::A(x, y) => { lemma_code(p, x, y, x, y); } PT::O => {} }
        }
        lemma_pigeon(c, p * p);
        let (i, j) = choose|i: int, j: int| 0 <= i < j < c.len() && c[i] == c[j];
        let u = smul(a, p, i + 1, s); let v = smul(a, p, j + 1, s);
        lemma_smul_on(a, b, p, i + 1, s); lemma_smul_on(a, b, p, j + 1, s);
        match (u, v) { (PT::A(x, y), PT::A(z, w)) => { lemma_code(p, x, y, z, w); assert(u == v); } _ => { assert(false); } }
        lemma_smul_cancel(a, b, p, i + 1, j + 1, s);
        assert(smul(a, p, (j + 1) - (i + 1), s) == PT::O);
        assert(false);
        0
    }
}
// ---- facts about the operations the code uses ----
pub proof fn lemma_pow23(m: int) ensures pow(m, 2) == m * m, pow(m, 3) == m * m * m {
    reveal_with_fuel(pow, 5);
    assert(m * (m * m) == m * m * m) by (nonlinear_arith);
}
pub proof fn lemma_modfacts(p: int) requires p >= 1
    ensures forall|u: int| #[trigger] fmod(u, p) == u % p && 0 <= u % p < p && (u % p) % p == u % p && cong(u % p, u, p),
        forall|m: int| #[trigger] pow(m, 2) == m * m, forall|m: int| #[trigger] pow(m, 3) == m * m * m
{
    assert forall|u: int| #[trigger] fmod(u, p) == u % p && 0 <= u % p < p && (u % p) % p == u % p && cong(u % p, u, p) by {
        lemma_fmod(u, p); lemma_cong_mod(u, p); vstd::arithmetic::div_mod::lemma_small_mod((u % p) as nat, p as nat);
    }
    assert forall|m: int| #[trigger] pow(m, 2) == m * m by { lemma_pow23(m); }
    assert forall|m: int| #[trigger] pow(m, 3) == m * m * m by { lemma_pow23(m); }
}
/// tests of a congruence by residues
pub proof fn lemma_modtest(p: int, u: int, v: int) requires p >= 1
    ensures cong(u, v, p) == cong(v, u, p), cong(u, v, p) == ((u - v) % p == 0), cong(u, v, p) == ((v - u) % p == 0), cong(u, v, p) == (u % p == v % p),
        cong(u, v, p) == ((u % p - v % p) % p == 0), cong(u, v, p) == ((v % p - u % p) % p == 0)
{
    if cong(u, v, p) { lemma_cong_sym(u, v, p); } if cong(v, u, p) { lemma_cong_sym(v, u, p); }
    lemma_div_mod(p, u - v); lemma_div_mod(p, v - u);
    lemma_cong_mod_eq(u, v, p);
    lemma_cong_mod(u, p); lemma_cong_mod(v, p);
    lemma_cong_add(u, u % p, v, v % p, p);
    lemma_cong_add(v, v % p, u, u % p, p);
    lemma_cong_mod_eq(u - v, u % p - v % p, p);
    lemma_cong_mod_eq(v - u, v % p - u % p, p);
}
/// the chord through two affine points, whichever inverse is used
pub proof fn lemma_add_chord(a: int, p: int, x1: int, y1: int, x2: int, y2: int) requires is_prime_spec(p), 0 <= x1 < p, 0 <= x2 < p, x1 != x2
    ensures !divides(p, x2 - x1), forall|v: int| #[trigger] cong((x2 - x1) * v, 1, p) ==> chord(p, (y2 - y1) * v, x1, y1, x2) == ecadd(a, p, PT::A(x1, y1), PT::A(x2, y2))
{
    let d = x2 - x1; let n = y2 - y1; let w = finv(d, p);
    lemma_small_ndiv(p, d); lemma_finv(d, p);
    assert forall|v: int| #[trigger] cong(d * v, 1, p) implies chord(p, n * v, x1, y1, x2) == ecadd(a, p, PT::A(x1, y1), PT::A(x2, y2)) by {
        lemma_inv_uniq(d, p, v, w); lemma_cong_refl(n, p); lemma_cong_mul(n, n, v, w, p);
        lemma_chord_cong(p, n * v, n * w, x1, y1, x2);
    }
}
pub proof fn lemma_add_tangent(a: int, p: int, x1: int, y1: int) requires is_prime_spec(p), p > 2, 0 <= x1 < p, 0 < y1 < p
    ensures !divides(p, 2 * y1), forall|v: int| #[trigger] cong((2 * y1) * v, 1, p) ==> chord(p, (3 * (x1 * x1) + a) * v, x1, y1, x1) == ecadd(a, p, PT::A(x1, y1), PT::A(x1, y1))
        && chord2(p, (3 * (x1 * x1) + a) * v, x1, y1) == ecadd(a, p, PT::A(x1, y1), PT::A(x1, y1))
{
    let d = 2 * y1; let n = 3 * x1 * x1 + a; let w = finv(d, p);
    assert(3 * x1 * x1 == 3 * (x1 * x1)) by (nonlinear_arith);
    lemma_twice_ndiv(p, y1); lemma_finv(d, p);
    assert forall|v: int| #[trigger] cong(d * v, 1, p) implies chord(p, n * v, x1, y1, x1) == ecadd(a, p, PT::A(x1, y1), PT::A(x1, y1)) && chord2(p, n * v, x1, y1) == ecadd(a, p, PT::A(x1, y1), PT::A(x1, y1)) by {
        let m = n * v;
        assert(m * m - 2 * x1 == m * m - x1 - x1);
        lemma_inv_uniq(d, p, v, w); lemma_cong_refl(n, p); lemma_cong_mul(n, n, v, w, p);
        lemma_chord_cong(p, n * v, n * w, x1, y1, x1);
    }
}
// ---- square roots ----
pub proof fn lemma_two_roots(p: int, c: int, y: int, z: int) requires is_prime_spec(p), 0 <= y < p, 0 <= z < p, cong(y * y, c, p), cong(z * z, c, p) ensures z == y || z == (-y) % p {
    lemma_cong_sym(z * z, c, p);
    lemma_cong_trans(y * y, c, z * z, p);
    assert(y * y - z * z == (y - z) * (y + z)) by (nonlinear_arith);
    lemma_euclid(p, y - z, y + z);
    lemma_negmod(p, y);
    if divides(p, y - z) { lemma_cong_small(y, z, p); }
    else {
        lemma_div_neg(p, y + z);
        lemma_cong_mod_eq(-y, z, p);
        assert(-y - z == -(y + z));
        vstd::arithmetic::div_mod::lemma_small_mod(z as nat, p as nat);
    }
}
pub proof fn lemma_neg_root(p: int, c: int, y: int) requires p >= 2, 0 <= y < p, cong(y * y, c, p) ensures 0 <= (-y) % p < p, cong(((-y) % p) * ((-y) % p), c, p) {
    let z = (-y) % p;
    lemma_cong_mod(-y, p);
    lemma_cong_mul(z, -y, z, -y, p);
    assert((-y) * (-y) == y * y) by (nonlinear_arith);
    lemma_cong_trans(z * z, y * y, c, p);
}
// ---- the j-invariant ----
pub open spec fn is_j(a: int, b: int, p: int, j: int) -> bool { 0 <= j < p && cong(j * disc(a, b), 1728 * (4 * (a * a * a)), p) }
/// C20: it is determined by a and b modulo p
/// the j-invariant in [0, p)
pub open spec fn the_j(a: int, b: int, p: int) -> int { choose|j: int| is_j(a, b, p, j) }
pub proof fn lemma_j_uniq(a: int, b: int, c: int, d: int, p: int, j: int, k: int) requires ecok(a, b, p), cong(a, c, p), cong(b, d, p), is_j(a, b, p, j), is_j(c, d, p, k) ensures j == k {
    lemma_cong_mul(a, c, a, c, p); lemma_cong_mul(a * a, c * c, a, c, p); lemma_cong_mul(b, d, b, d, p);
    lemma_cong_refl(4, p); lemma_cong_refl(27, p); lemma_cong_refl(1728, p);
    lemma_cong_mul(4, 4, a * a * a, c * c * c, p); lemma_cong_mul(27, 27, b * b, d * d, p);
    lemma_cong_mul(1728, 1728, 4 * (a * a * a), 4 * (c * c * c), p);
    lemma_cong_add(4 * (a * a * a), 4 * (c * c * c), 27 * (b * b), 27 * (d * d), p);
    let u = disc(a, b); let v = disc(c, d); let n = 1728 * (4 * (a * a * a)); let m = 1728 * (4 * (c * c * c));
    lemma_cong_refl(k, p);
    lemma_cong_sym(u, v, p);
    lemma_cong_mul(k, k, u, v, p);
    lemma_cong_trans(k * u, k * v, m, p);
    lemma_cong_sym(n, m, p);
    lemma_cong_trans(k * u, m, n, p);
    lemma_cong_sym(k * u, n, p);
    lemma_cong_trans(j * u, n, k * u, p);
    lemma_slope_uniq(u, p, j, k);
    lemma_cong_small(j, k, p);
}
