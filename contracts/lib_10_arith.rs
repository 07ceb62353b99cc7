// Integer arithmetic used by the contracts: powers, divisibility, congruence,
// Euclid's lemma and Fermat's little theorem.  Everything here is proved.
pub open spec fn pow(b: int, e: int) -> int decreases e { if e <= 0 { 1 } else { b * pow(b, e - 1) } }
pub proof fn lemma_pow0(b: int) ensures pow(b, 0) == 1 {}
pub proof fn lemma_pow1(b: int) ensures pow(b, 1) == b { reveal_with_fuel(pow, 3); }
pub proof fn lemma_pow_sq(b: int, e: int) requires e >= 0 ensures pow(b * b, e) == pow(b, 2 * e) decreases e {
    if e > 0 {
        lemma_pow_sq(b, e - 1);
        assert(pow(b, 2 * e) == b * pow(b, 2 * e - 1));
        assert(pow(b, 2 * e - 1) == b * pow(b, 2 * e - 2));
        assert(b * b * pow(b, 2 * e - 2) == b * (b * pow(b, 2 * e - 2))) by (nonlinear_arith);
    }
}
pub proof fn lemma_pow_add(b: int, m: int, n: int) requires m >= 0, n >= 0 ensures pow(b, m + n) == pow(b, m) * pow(b, n) decreases m {
    if m > 0 {
        lemma_pow_add(b, m - 1, n);
        assert(pow(b, m + n) == b * pow(b, m - 1 + n));
        assert(b * (pow(b, m - 1) * pow(b, n)) == (b * pow(b, m - 1)) * pow(b, n)) by (nonlinear_arith);
    } else { assert(pow(b, 0) * pow(b, n) == pow(b, n)) by { lemma_pow0(b); } }
}
pub proof fn lemma_pow_mulexp(b: int, m: int, n: int) requires m >= 0, n >= 0 ensures pow(pow(b, m), n) == pow(b, m * n) decreases n {
    if n > 0 {
        lemma_pow_mulexp(b, m, n - 1);
        assert(m * n == m + m * (n - 1)) by (nonlinear_arith);
        assert(m * (n - 1) >= 0) by (nonlinear_arith) requires m >= 0, n >= 1;
        lemma_pow_add(b, m, m * (n - 1));
    } else { assert(m * 0 == 0); }
}
pub proof fn lemma_pow_mul(a: int, b: int, n: int) requires n >= 0 ensures pow(a * b, n) == pow(a, n) * pow(b, n) decreases n {
    if n > 0 {
        lemma_pow_mul(a, b, n - 1);
        assert((a * b) * (pow(a, n - 1) * pow(b, n - 1)) == (a * pow(a, n - 1)) * (b * pow(b, n - 1))) by (nonlinear_arith);
    }
}
/// one step of square-and-multiply: r * b^e is unchanged
pub proof fn lemma_sqmul(r: int, b: int, e: int) requires e >= 1
    ensures e % 2 == 1 ==> (r * b) * pow(b * b, e / 2) == r * pow(b, e), e % 2 == 0 ==> r * pow(b * b, e / 2) == r * pow(b, e)
{
    lemma_pow_sq(b, e / 2);
    if e % 2 == 1 {
        assert(2 * (e / 2) == e - 1);
        assert(pow(b, e) == b * pow(b, e - 1));
        assert((r * b) * pow(b, e - 1) == r * (b * pow(b, e - 1))) by (nonlinear_arith);
    } else { assert(2 * (e / 2) == e); }
}

// ---- divisibility ----
pub proof fn lemma_div_intro(d: int, n: int, k: int) requires n == d * k ensures divides(d, n) {}
pub proof fn lemma_div_refl(d: int) ensures divides(d, d) { assert(d == d * 1); }
pub proof fn lemma_div_zero(d: int) ensures divides(d, 0) { assert(0 == d * 0) by (nonlinear_arith); }
pub proof fn lemma_div_add(d: int, a: int, b: int) requires divides(d, a), divides(d, b) ensures divides(d, a + b), divides(d, a - b) {
    let k = choose|k: int| a == #[trigger] (d * k);
    let l = choose|l: int| b == #[trigger] (d * l);
    assert(a + b == d * (k + l)) by (nonlinear_arith) requires a == d * k, b == d * l;
    assert(a - b == d * (k - l)) by (nonlinear_arith) requires a == d * k, b == d * l;
}
pub proof fn lemma_div_mul(d: int, a: int, c: int) requires divides(d, a) ensures divides(d, a * c), divides(d, c * a) {
    let k = choose|k: int| a == #[trigger] (d * k);
    assert(a * c == d * (k * c)) by (nonlinear_arith) requires a == d * k;
    assert(c * a == d * (k * c)) by (nonlinear_arith) requires a == d * k;
}
pub proof fn lemma_div_neg(d: int, a: int) requires divides(d, a) ensures divides(d, -a), divides(-d, a) {
    let k = choose|k: int| a == #[trigger] (d * k);
    assert(-a == d * (-k)) by (nonlinear_arith) requires a == d * k;
    assert(a == (-d) * (-k)) by (nonlinear_arith) requires a == d * k;
}
pub proof fn lemma_div_trans(d: int, e: int, n: int) requires divides(d, e), divides(e, n) ensures divides(d, n) {
    let k = choose|k: int| n == #[trigger] (e * k);
    lemma_div_mul(d, e, k);
}
pub proof fn lemma_div_prod(d: int, e: int, a: int, b: int) requires divides(d, a), divides(e, b) ensures divides(d * e, a * b) {
    let k = choose|k: int| a == #[trigger] (d * k);
    let l = choose|l: int| b == #[trigger] (e * l);
    assert(a * b == (d * e) * (k * l)) by (nonlinear_arith) requires a == d * k, b == e * l;
}
pub proof fn lemma_div_le(d: int, n: int) requires divides(d, n), n > 0, d > 0 ensures d <= n {
    let k = choose|k: int| n == #[trigger] (d * k);
    assert(k >= 1) by (nonlinear_arith) requires n == d * k, n > 0, d > 0;
    assert(d <= n) by (nonlinear_arith) requires n == d * k, k >= 1, d > 0;
}
pub proof fn lemma_div_mod(d: int, n: int) requires d > 0 ensures divides(d, n) <==> n % d == 0 {
    if n % d == 0 {
        assert(n == d * (n / d)) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d); }
    }
    if divides(d, n) {
        let k = choose|k: int| n == #[trigger] (d * k);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, d);
        assert(n == k * d) by (nonlinear_arith) requires n == d * k;
    }
}
// ---- congruence ----
pub open spec fn cong(a: int, b: int, m: int) -> bool { divides(m, a - b) }
pub proof fn lemma_cong_refl(a: int, m: int) ensures cong(a, a, m) { lemma_div_zero(m); }
pub proof fn lemma_cong_eq(a: int, b: int, m: int) requires a == b ensures cong(a, b, m) { lemma_div_zero(m); }
pub proof fn lemma_cong_sym(a: int, b: int, m: int) requires cong(a, b, m) ensures cong(b, a, m) { lemma_div_neg(m, a - b); }
pub proof fn lemma_cong_trans(a: int, b: int, c: int, m: int) requires cong(a, b, m), cong(b, c, m) ensures cong(a, c, m) { lemma_div_add(m, a - b, b - c); }
pub proof fn lemma_cong_add(a: int, b: int, c: int, d: int, m: int) requires cong(a, b, m), cong(c, d, m) ensures cong(a + c, b + d, m), cong(a - c, b - d, m) {
    lemma_div_add(m, a - b, c - d);
    assert((a + c) - (b + d) == (a - b) + (c - d));
    assert((a - c) - (b - d) == (a - b) - (c - d));
}
pub proof fn lemma_cong_mul(a: int, b: int, c: int, d: int, m: int) requires cong(a, b, m), cong(c, d, m) ensures cong(a * c, b * d, m) {
    lemma_div_mul(m, a - b, c);
    lemma_div_mul(m, c - d, b);
    lemma_div_add(m, (a - b) * c, (c - d) * b);
    assert(a * c - b * d == (a - b) * c + (c - d) * b) by (nonlinear_arith);
}
pub proof fn lemma_cong_pow(a: int, b: int, n: int, m: int) requires n >= 0, cong(a, b, m) ensures cong(pow(a, n), pow(b, n), m) decreases n {
    if n > 0 { lemma_cong_pow(a, b, n - 1, m); lemma_cong_mul(a, b, pow(a, n - 1), pow(b, n - 1), m); } else { lemma_cong_refl(1, m); }
}
pub proof fn lemma_cong_mod(a: int, m: int) requires m > 0 ensures cong(a % m, a, m), cong(a, a % m, m), 0 <= a % m < m {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m);
    assert(a - a % m == m * (a / m));
    lemma_cong_sym(a, a % m, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, m);
}
pub proof fn lemma_cong_mod_eq(a: int, b: int, m: int) requires m > 0 ensures cong(a, b, m) <==> a % m == b % m {
    lemma_cong_mod(a, m); lemma_cong_mod(b, m);
    if a % m == b % m {
        lemma_cong_trans(a, a % m, b, m);
    }
    if cong(a, b, m) {
        lemma_cong_trans(a % m, a, b, m); lemma_cong_trans(a % m, b, b % m, m);
        let x = a % m - b % m;
        if x > 0 { lemma_div_le(m, x); } else if x < 0 { lemma_div_neg(m, x); lemma_div_le(m, -x); }
    }
}
pub proof fn lemma_fmod(a: int, m: int) requires m > 0 ensures fmod(a, m) == a % m {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m);
}
pub proof fn lemma_cong_small(a: int, b: int, m: int) requires m > 0, cong(a, b, m), 0 <= a < m, 0 <= b < m ensures a == b {
    lemma_cong_mod_eq(a, b, m);
    vstd::arithmetic::div_mod::lemma_small_mod(a as nat, m as nat);
    vstd::arithmetic::div_mod::lemma_small_mod(b as nat, m as nat);
}
pub proof fn lemma_trem(a: int, b: int) requires b != 0
    ensures a == b * tdiv(a, b) + trem(a, b), -abs(b) < trem(a, b) < abs(b), a >= 0 ==> trem(a, b) >= 0
{
    let c = abs(b); let x = abs(a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, c);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, c);
    let q = x / c; let r = x % c;
    assert(x == c * q + r);
    if a >= 0 { if b > 0 { assert(trem(a, b) == r); } else { assert(b * (-q) == c * q) by (nonlinear_arith) requires c == -b; assert(trem(a, b) == r); } }
    else { if b > 0 { assert(b * (-q) == -(c * q)) by (nonlinear_arith) requires c == b; assert(trem(a, b) == -r); }
           else { assert(b * q == -(c * q)) by (nonlinear_arith) requires c == -b; assert(trem(a, b) == -r); } }
}
pub open spec fn abs(a: int) -> int { if a < 0 { -a } else { a } }

// ---- gcd, Bezout, primes ----
pub open spec fn coprime(a: int, b: int) -> bool { exists|x: int, y: int| #[trigger] (a * x) + #[trigger] (b * y) == 1 }
pub proof fn lemma_coprime_intro(a: int, b: int, x: int, y: int) requires a * x + b * y == 1 ensures coprime(a, b) {}
pub proof fn lemma_coprime_sym(a: int, b: int) requires coprime(a, b) ensures coprime(b, a) {
    let (x, y) = choose|x: int, y: int| #[trigger] (a * x) + #[trigger] (b * y) == 1;
    assert(b * y + a * x == 1);
}
pub proof fn lemma_coprime_prod(a: int, b: int, c: int) requires coprime(a, c), coprime(b, c) ensures coprime(a * b, c) {
    let (x, y) = choose|x: int, y: int| #[trigger] (a * x) + #[trigger] (c * y) == 1;
    let (u, v) = choose|u: int, v: int| #[trigger] (b * u) + #[trigger] (c * v) == 1;
    let t = a * x; let w = b * u; let z = c * v;
    assert((a * b) * (x * u) == t * w) by (nonlinear_arith) requires t == a * x, w == b * u;
    assert(c * (y + t * v) == c * y + t * z) by (nonlinear_arith) requires z == c * v;
    assert(t * w + t * z == t) by (nonlinear_arith) requires w + z == 1;
    assert((a * b) * (x * u) + c * (y + t * v) == 1);
}
/// a common divisor of coprime numbers is a unit
pub proof fn lemma_coprime_common(a: int, b: int, g: int) requires coprime(a, b), divides(g, a), divides(g, b) ensures g == 1 || g == -1 {
    let (x, y) = choose|x: int, y: int| #[trigger] (a * x) + #[trigger] (b * y) == 1;
    lemma_div_mul(g, a, x); lemma_div_mul(g, b, y); lemma_div_add(g, a * x, b * y);
    let k = choose|k: int| 1 == #[trigger] (g * k);
    assert(g == 1 || g == -1) by (nonlinear_arith) requires 1 == g * k;
}
/// g = a x + b y divides both a and b
pub open spec fn is_bezout(a: int, b: int, g: int, x: int, y: int) -> bool { a * x + b * y == g && divides(g, a) && divides(g, b) }
pub proof fn lemma_bezout(a: int, b: int) -> (r: (int, int, int)) requires a >= 0, b >= 0 ensures is_bezout(a, b, r.0, r.1, r.2), r.0 >= 0 decreases a {
    if a == 0 { lemma_div_refl(b); lemma_div_zero(b); assert(a * 0 + b * 1 == b); (b, 0, 1) }
    else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, a);
        vstd::arithmetic::div_mod::lemma_mod_bound(b, a);
        let m = b % a; let q = b / a;
        let (g, x, y) = lemma_bezout(m, a);
        assert(a * (y - q * x) + b * x == g) by (nonlinear_arith) requires m * x + a * y == g, b == a * q + m;
        lemma_div_mul(g, a, q);
        lemma_div_add(g, a * q, m);
        (g, y - q * x, x)
    }
}
pub proof fn lemma_prime_coprime(p: int, a: int) requires is_prime_spec(p), !divides(p, a) ensures coprime(a, p) {
    lemma_cong_mod(a, p); 
    let m = a % p;
    if m == 0 { lemma_div_mod(p, a); }
    let (g, x, y) = lemma_bezout(m, p);
    if g == 0 { let k = choose|k: int| p == #[trigger] (g * k); assert(p == 0) by (nonlinear_arith) requires p == g * k, g == 0; }
    if g != 1 {
        lemma_div_le(g, m);
        assert(1 < g < p);
        assert(false);
    }
    let k = choose|k: int| a - m == #[trigger] (p * k);
    assert(a * x + p * (y - k * x) == 1) by (nonlinear_arith) requires m * x + p * y == 1, a - m == p * k;
}
pub proof fn lemma_coprime_cancel(p: int, a: int, b: int) requires coprime(a, p), divides(p, a * b) ensures divides(p, b) {
    let (x, y) = choose|x: int, y: int| #[trigger] (a * x) + #[trigger] (p * y) == 1;
    let k = choose|k: int| a * b == #[trigger] (p * k);
    let t = a * x; let w = p * y;
    assert(b == t * b + w * b) by (nonlinear_arith) requires t + w == 1;
    assert(t * b == (a * b) * x) by (nonlinear_arith) requires t == a * x;
    assert((p * k) * x == p * (k * x)) by (nonlinear_arith);
    assert(w * b == p * (y * b)) by (nonlinear_arith) requires w == p * y;
    assert(p * (k * x + y * b) == p * (k * x) + p * (y * b)) by (nonlinear_arith);
}
pub proof fn lemma_euclid(p: int, a: int, b: int) requires is_prime_spec(p), divides(p, a * b) ensures divides(p, a) || divides(p, b) {
    if !divides(p, a) { lemma_prime_coprime(p, a); lemma_coprime_cancel(p, a, b); }
}
pub proof fn lemma_coprime_pow(a: int, p: int, n: int) requires coprime(a, p), n >= 0 ensures coprime(pow(a, n), p) decreases n {
    if n == 0 { assert(1 * 1 + p * 0 == 1); } else { lemma_coprime_pow(a, p, n - 1); lemma_coprime_prod(a, pow(a, n - 1), p); }
}
pub proof fn lemma_prime_pow(p: int, a: int, n: int) requires is_prime_spec(p), n >= 0, divides(p, pow(a, n)) ensures divides(p, a) decreases n {
    if n == 0 { lemma_div_le(p, 1); } else { lemma_euclid(p, a, pow(a, n - 1)); if !divides(p, a) { lemma_prime_pow(p, a, n - 1); } }
}

// ---- binomials and Fermat ----
pub open spec fn binom(n: int, k: int) -> int decreases n {
    if k < 0 || n < 0 { 0 } else if k == 0 { 1 } else if n == 0 { 0 } else { binom(n - 1, k - 1) + binom(n - 1, k) }
}
pub proof fn lemma_binom_big(n: int, k: int) requires k > n ensures binom(n, k) == 0 decreases n {
    if n > 0 { lemma_binom_big(n - 1, k - 1); lemma_binom_big(n - 1, k); }
}
pub proof fn lemma_binom_nn(n: int) requires n >= 0 ensures binom(n, n) == 1 decreases n {
    if n > 0 { lemma_binom_nn(n - 1); lemma_binom_big(n - 1, n); }
}
pub proof fn lemma_binom_absorb(n: int, k: int) requires n >= 1, k >= 1 ensures k * binom(n, k) == n * binom(n - 1, k - 1) decreases n {
    if n == 1 {
        assert(binom(1, k) == binom(0, k - 1) + binom(0, k));
        if k == 1 { assert(binom(0, 0) == 1); assert(binom(0, 1) == 0); }
        else { assert(binom(0, k - 1) == 0); assert(binom(0, k) == 0); assert(k * binom(1, k) == 0) by (nonlinear_arith) requires binom(1, k) == 0; }
        assert(n * binom(n - 1, k - 1) == binom(n - 1, k - 1)) by (nonlinear_arith) requires n == 1;
        assert(k == 1 ==> k * binom(n, k) == binom(n, k)) by (nonlinear_arith);
    } else if k == 1 {
        lemma_binom_absorb(n - 1, 1);
        assert(binom(n, 1) == binom(n - 1, 0) + binom(n - 1, 1));
        assert(binom(n - 1, 0) == 1); assert(binom(n - 2, 0) == 1);
        assert(n * binom(n - 1, 0) == n) by (nonlinear_arith) requires binom(n - 1, 0) == 1;
        assert((n - 1) * binom(n - 2, 0) == n - 1) by (nonlinear_arith) requires binom(n - 2, 0) == 1;
    } else {
        lemma_binom_absorb(n - 1, k - 1);
        lemma_binom_absorb(n - 1, k);
        let a = binom(n - 1, k - 1); let b = binom(n - 1, k); let c = binom(n - 2, k - 2); let d = binom(n - 2, k - 1);
        assert(a == c + d); assert(binom(n, k) == a + b);
        assert((k - 1) * a == (n - 1) * c);
        assert(k * b == (n - 1) * d);
        assert(k * (a + b) == (k - 1) * a + a + k * b) by { vstd::arithmetic::mul::lemma_mul_is_distributive_add(k, a, b); vstd::arithmetic::mul::lemma_mul_is_distributive_sub_other_way(a, k, 1); }
        assert((n - 1) * c + (n - 1) * d == (n - 1) * a) by { vstd::arithmetic::mul::lemma_mul_is_distributive_add(n - 1, c, d); }
        assert((n - 1) * a + a == n * a) by { vstd::arithmetic::mul::lemma_mul_is_distributive_sub_other_way(a, n, 1); }
    }
}
/// sum_{k=0..m} binom(n,k) a^k
pub open spec fn bsum(n: int, a: int, m: int) -> int decreases m + 1 { if m < 0 { 0 } else { bsum(n, a, m - 1) + binom(n, m) * pow(a, m) } }
pub proof fn lemma_bsum_step(n: int, a: int, m: int) requires n >= 1, m >= 0 ensures bsum(n, a, m) == bsum(n - 1, a, m) + a * bsum(n - 1, a, m - 1) decreases m {
    if m == 0 {
        assert(bsum(n, a, 0) == bsum(n, a, -1) + binom(n, 0) * pow(a, 0));
        assert(bsum(n - 1, a, 0) == bsum(n - 1, a, -1) + binom(n - 1, 0) * pow(a, 0));
        assert(bsum(n - 1, a, -1) == 0);
        assert(a * 0 == 0) by (nonlinear_arith);
    } else {
        lemma_bsum_step(n, a, m - 1);
        assert(pow(a, m) == a * pow(a, m - 1));
        let s0 = bsum(n - 1, a, m - 1); let s1 = bsum(n - 1, a, m - 2); let p = pow(a, m - 1);
        let c = binom(n - 1, m - 1); let d = binom(n - 1, m);
        assert(binom(n, m) == c + d);
        assert(bsum(n, a, m) == s0 + a * s1 + (c + d) * (a * p));
        assert(bsum(n - 1, a, m) == s0 + d * (a * p));
        assert(s0 == s1 + c * p);
        assert(s0 + a * s1 + (c + d) * (a * p) == s0 + d * (a * p) + a * s0) by (nonlinear_arith) requires s0 == s1 + c * p;
    }
}
pub proof fn lemma_binomial(n: int, a: int) requires n >= 0 ensures pow(a + 1, n) == bsum(n, a, n) decreases n {
    if n == 0 { assert(bsum(0, a, 0) == bsum(0, a, -1) + binom(0, 0) * pow(a, 0)); assert(pow(a + 1, 0) == 1); }
    else {
        lemma_binomial(n - 1, a);
        lemma_bsum_step(n, a, n);
        assert(bsum(n - 1, a, n) == bsum(n - 1, a, n - 1) + binom(n - 1, n) * pow(a, n));
        lemma_binom_big(n - 1, n);
        let s = bsum(n - 1, a, n - 1);
        assert(0 * pow(a, n) == 0);
        assert((a + 1) * s == s + a * s) by (nonlinear_arith);
    }
}
pub proof fn lemma_prime_not_div(p: int, k: int) requires 1 <= k < p ensures !divides(p, k) { if divides(p, k) { lemma_div_le(p, k); } }
pub proof fn lemma_binom_div_prod(p: int, k: int) requires 1 <= k < p ensures divides(p, k * binom(p, k)) {
    lemma_binom_absorb(p, k);
    lemma_div_intro(p, k * binom(p, k), binom(p - 1, k - 1));
}
pub proof fn lemma_binom_div(p: int, k: int) requires is_prime_spec(p), 1 <= k < p ensures divides(p, binom(p, k)) {
    lemma_prime_not_div(p, k);
    lemma_binom_div_prod(p, k);
    lemma_euclid(p, k, binom(p, k));
}
pub proof fn lemma_bsum_mod(p: int, a: int, m: int) requires is_prime_spec(p), 0 <= m < p ensures cong(bsum(p, a, m), 1, p) decreases m {
    if m == 0 { assert(bsum(p, a, 0) == bsum(p, a, -1) + binom(p, 0) * pow(a, 0)); assert(binom(p, 0) == 1); lemma_cong_refl(1, p); }
    else {
        lemma_bsum_mod(p, a, m - 1);
        lemma_binom_div(p, m);
        lemma_div_mul(p, binom(p, m), pow(a, m));
        lemma_div_add(p, bsum(p, a, m - 1) - 1, binom(p, m) * pow(a, m));
    }
}
pub proof fn lemma_fermat_nat(p: int, a: int) requires is_prime_spec(p), a >= 0 ensures cong(pow(a, p), a, p) decreases a {
    if a == 0 { assert(pow(0, p) == 0 * pow(0, p - 1)); assert(0 * pow(0, p - 1) == 0); lemma_cong_refl(0, p); }
    else {
        lemma_fermat_nat(p, a - 1);
        lemma_binomial(p, a - 1);
        lemma_bsum_mod(p, a - 1, p - 1);
        lemma_binom_nn(p);
        assert(bsum(p, a - 1, p) == bsum(p, a - 1, p - 1) + 1 * pow(a - 1, p));
        lemma_cong_add(bsum(p, a - 1, p - 1), 1, pow(a - 1, p), a - 1, p);
    }
}
pub proof fn lemma_fermat(p: int, a: int) requires is_prime_spec(p), !divides(p, a) ensures cong(pow(a, p - 1), 1, p) {
    lemma_cong_mod(a, p);
    let b = a % p;
    lemma_fermat_nat(p, b);
    lemma_cong_pow(b, a, p, p);
    lemma_cong_sym(pow(b, p), pow(a, p), p);
    lemma_cong_trans(pow(a, p), pow(b, p), b, p);
    lemma_cong_trans(pow(a, p), b, a, p);
    assert(pow(a, p) == a * pow(a, p - 1));
    assert(a * pow(a, p - 1) - a == a * (pow(a, p - 1) - 1)) by (nonlinear_arith);
    lemma_euclid(p, a, pow(a, p - 1) - 1);
}
/// ASSUMED: std's i32::pow
pub assume_specification [i32::pow](b: i32, e: u32) -> (r: i32)
    requires -0x8000_0000 <= pow(b as int, e as int) <= 0x7fff_ffff
    ensures r == pow(b as int, e as int);
