// Integer linear systems as augmented matrices.  Everything here is proved.
use crate::arith::*;
pub type Row = Seq<int>;
pub type Mat = Seq<Seq<int>>;
pub open spec fn dot(u: Row, v: Row, n: int) -> int decreases n { if n <= 0 { 0 } else { dot(u, v, n - 1) + u[n - 1] * v[n - 1] } }
pub open spec fn shape(m: Mat, rc: int, n: int) -> bool { m.len() == rc && forall|r: int| 0 <= r < rc ==> (#[trigger] m[r]).len() == n + 1 }
/// x solves the augmented system: coefficient columns 0..n, constants in column n
pub open spec fn sol(m: Mat, x: Row, n: int) -> bool { x.len() == n && forall|r: int| 0 <= r < m.len() ==> dot(#[trigger] m[r], x, n) == m[r][n] }
/// the unknowns are independent: the homogeneous system has only the zero solution
pub open spec fn indep(m: Mat, n: int) -> bool { forall|x: Row| x.len() == n && #[trigger] homsol(m, x, n) ==> allzero(x) }
pub open spec fn homsol(m: Mat, x: Row, n: int) -> bool { forall|r: int| 0 <= r < m.len() ==> dot(#[trigger] m[r], x, n) == 0 }
pub open spec fn allzero(x: Row) -> bool { forall|k: int| 0 <= k < x.len() ==> x[k] == 0 }
/// v is orthogonal to every row, constants included
pub open spec fn inker(m: Mat, v: Row, n: int) -> bool { forall|r: int| 0 <= r < m.len() ==> dot(#[trigger] m[r], v, n + 1) == 0 }
pub open spec fn kereq(m: Mat, a: Mat, n: int) -> bool { forall|v: Row| v.len() == n + 1 ==> #[trigger] inker(m, v, n) == inker(a, v, n) }
/// the first i columns are zero below a non-zero diagonal
pub open spec fn tri(a: Mat, i: int) -> bool {
    &&& forall|r: int, c: int| 0 <= c < i && c < r < a.len() ==> #[trigger] a[r][c] == 0
    &&& forall|c: int| 0 <= c < i ==> #[trigger] a[c][c] != 0
}
/// rows i and j exchanged
pub open spec fn swapped(a: Mat, i: int, j: int) -> Mat { a.update(i, a[j]).update(j, a[i]) }
/// p times row j minus q times row i
pub open spec fn comb(u: Row, t: Row, p: int, q: int) -> Row { Seq::new(u.len(), |k: int| p * u[k] - q * t[k]) }

pub proof fn lemma_dot_comb(u: Row, t: Row, p: int, q: int, v: Row, n: int) requires n <= u.len(), u.len() == t.len()
    ensures dot(comb(u, t, p, q), v, n) == p * dot(u, v, n) - q * dot(t, v, n) decreases n
{
    if n > 0 {
        lemma_dot_comb(u, t, p, q, v, n - 1);
        let (a, b, c, d, e) = (dot(u, v, n - 1), dot(t, v, n - 1), u[n - 1], t[n - 1], v[n - 1]);
        assert(p * a - q * b + (p * c - q * d) * e == p * (a + c * e) - q * (b + d * e)) by (nonlinear_arith);
    } else { assert(p * 0 - q * 0 == 0); }
}
pub open spec fn same4(u: Row, v: Row, s: Row, t: Row, k: int) -> bool { u[k] == s[k] && v[k] == t[k] }
pub proof fn lemma_dot_cong(u: Row, v: Row, s: Row, t: Row, n: int) requires forall|k: int| 0 <= k < n ==> #[trigger] same4(u, v, s, t, k) ensures dot(u, v, n) == dot(s, t, n) decreases n {
    if n > 0 { assert(same4(u, v, s, t, n - 1)); lemma_dot_cong(u, v, s, t, n - 1); }
}
pub proof fn lemma_dot_comm(u: Row, v: Row, n: int) ensures dot(u, v, n) == dot(v, u, n) decreases n {
    if n > 0 { lemma_dot_comm(u, v, n - 1); assert(u[n - 1] * v[n - 1] == v[n - 1] * u[n - 1]) by (nonlinear_arith); }
}
pub open spec fn zprod(u: Row, v: Row, k: int) -> bool { u[k] == 0 || v[k] == 0 }
/// at most one non-zero product
pub proof fn lemma_dot_single(u: Row, v: Row, r: int, n: int) requires forall|k: int| 0 <= k < n && k != r ==> #[trigger] zprod(u, v, k), r >= 0
    ensures dot(u, v, n) == if r < n { u[r] * v[r] } else { 0 } decreases n
{
    if n > 0 {
        lemma_dot_single(u, v, r, n - 1);
        if n - 1 != r { assert(zprod(u, v, n - 1)); assert(u[n - 1] * v[n - 1] == 0) by (nonlinear_arith) requires u[n - 1] == 0 || v[n - 1] == 0; }
    }
}
/// changing one entry
pub proof fn lemma_dot_upd(u: Row, v: Row, w: Row, r: int, n: int) requires 0 <= r, forall|k: int| 0 <= k < n && k != r ==> #[trigger] w[k] == v[k]
    ensures dot(u, w, n) == dot(u, v, n) + if r < n { u[r] * (w[r] - v[r]) } else { 0 } decreases n
{
    if n > 0 {
        lemma_dot_upd(u, v, w, r, n - 1);
        if n - 1 == r { let (a, b, c) = (u[r], v[r], w[r]); assert(a * c == a * b + a * (c - b)) by (nonlinear_arith); }
    }
}
/// a solution extended by -1 is orthogonal to every row
pub proof fn lemma_sol_ker(m: Mat, x: Row, n: int) requires n >= 0, x.len() == n ensures sol(m, x, n) == inker(m, x.push(-1), n) {
    let v = x.push(-1);
    assert forall|r: int| 0 <= r < m.len() implies dot(#[trigger] m[r], v, n + 1) == dot(m[r], x, n) - m[r][n] by {
        lemma_dot_cong(m[r], v, m[r], x, n);
        assert(m[r][n] * v[n] == -m[r][n]) by (nonlinear_arith) requires v[n] == -1;
    }
    if inker(m, v, n) { assert forall|r: int| 0 <= r < m.len() implies dot(#[trigger] m[r], x, n) == m[r][n] by { assert(dot(m[r], v, n + 1) == 0); } }
}
pub proof fn lemma_sol_eq(m: Mat, a: Mat, x: Row, n: int) requires n >= 0, kereq(m, a, n), sol(m, x, n) ensures sol(a, x, n) { lemma_sol_ker(m, x, n); lemma_sol_ker(a, x, n); assert(x.push(-1).len() == n + 1); }
pub proof fn lemma_swap(m: Mat, a: Mat, i: int, j: int, rc: int, n: int) requires kereq(m, a, n), shape(a, rc, n), tri(a, i), 0 <= i <= j < rc
    ensures kereq(m, swapped(a, i, j), n), shape(swapped(a, i, j), rc, n), tri(swapped(a, i, j), i)
{
    let b = swapped(a, i, j);
    assert forall|v: Row| v.len() == n + 1 implies #[trigger] inker(m, v, n) == inker(b, v, n) by {
        assert(b[i] == a[j] && b[j] == a[i]);
        if inker(a, v, n) { assert forall|r: int| 0 <= r < b.len() implies dot(#[trigger] b[r], v, n + 1) == 0 by { if r == i { assert(dot(a[j], v, n + 1) == 0); } else if r == j { assert(dot(a[i], v, n + 1) == 0); } else { assert(dot(a[r], v, n + 1) == 0); } } }
        if inker(b, v, n) { assert forall|r: int| 0 <= r < a.len() implies dot(#[trigger] a[r], v, n + 1) == 0 by { if r == i { assert(dot(b[j], v, n + 1) == 0); } else if r == j { assert(dot(b[i], v, n + 1) == 0); } else { assert(dot(b[r], v, n + 1) == 0); } } }
    }
    assert forall|r: int, c: int| 0 <= c < i && c < r < b.len() implies #[trigger] b[r][c] == 0 by { if r == i { assert(a[j][c] == 0); } else if r == j { assert(a[i][c] == 0); } else { assert(a[r][c] == 0); } }
    assert forall|c: int| 0 <= c < i implies #[trigger] b[c][c] != 0 by { assert(a[c][c] != 0); }
}
/// row j replaced by p row_j - q row_i with p != 0
pub proof fn lemma_elim(m: Mat, a: Mat, i: int, j: int, p: int, q: int, rc: int, n: int) requires kereq(m, a, n), shape(a, rc, n), tri(a, i), 0 <= i < j < rc, i <= n, p != 0
    ensures kereq(m, a.update(j, comb(a[j], a[i], p, q)), n), shape(a.update(j, comb(a[j], a[i], p, q)), rc, n), tri(a.update(j, comb(a[j], a[i], p, q)), i)
{
    let w = comb(a[j], a[i], p, q);
    let b = a.update(j, w);
    assert forall|v: Row| v.len() == n + 1 implies #[trigger] inker(m, v, n) == inker(b, v, n) by {
        let (dj, di) = (dot(a[j], v, n + 1), dot(a[i], v, n + 1));
        lemma_dot_comb(a[j], a[i], p, q, v, n + 1);
        assert(b[j] == w && b[i] == a[i]);
        if inker(a, v, n) { assert forall|r: int| 0 <= r < b.len() implies dot(#[trigger] b[r], v, n + 1) == 0 by { if r == j { assert(p * 0 - q * 0 == 0); } else { assert(dot(a[r], v, n + 1) == 0); } } }
        if inker(b, v, n) {
            assert(dot(b[i], v, n + 1) == 0); assert(dot(b[j], v, n + 1) == 0);
            assert(dj == 0) by (nonlinear_arith) requires p * dj - q * di == 0, di == 0, p != 0;
            assert forall|r: int| 0 <= r < a.len() implies dot(#[trigger] a[r], v, n + 1) == 0 by { if r != j { assert(dot(b[r], v, n + 1) == 0); } }
        }
    }
    assert forall|r: int, c: int| 0 <= c < i && c < r < b.len() implies #[trigger] b[r][c] == 0 by { if r == j { assert(a[j][c] == 0); assert(a[i][c] == 0); assert(p * 0 - q * 0 == 0); } else { assert(a[r][c] == 0); } }
    assert forall|c: int| 0 <= c < i implies #[trigger] b[c][c] != 0 by { assert(a[c][c] != 0); }
}
/// a non-zero vector supported on r..=i orthogonal to rows r..i
pub proof fn lemma_kernel(a: Mat, rc: int, n: int, i: int, r: int) -> (v: Row) requires shape(a, rc, n), tri(a, i), 0 <= r <= i < n, i <= rc
    ensures v.len() == n + 1, v[i] != 0, forall|k: int| 0 <= k <= n && (k < r || k > i) ==> v[k] == 0, forall|q: int| r <= q < i ==> dot(#[trigger] a[q], v, n + 1) == 0
    decreases i - r
{
    if r == i { Seq::new((n + 1) as nat, |k: int| if k == i { 1int } else { 0 }) }
    else {
        let v = lemma_kernel(a, rc, n, i, r + 1);
        let d = a[r][r];
        let s = dot(a[r], v, n + 1);
        let z = Seq::new((n + 1) as nat, |k: int| 0int);
        let dv = comb(v, z, d, 0);
        let w = dv.update(r, -s);
        assert(d != 0);
        assert forall|k: int| 0 <= k <= n implies dv[k] == d * v[k] by { }
        assert(d * v[i] != 0) by (nonlinear_arith) requires d != 0, v[i] != 0;
        assert(d * 0 == 0);
        assert forall|q: int| r <= q < i implies dot(#[trigger] a[q], w, n + 1) == 0 by {
            lemma_dot_comm(a[q], dv, n + 1); lemma_dot_comm(a[q], v, n + 1); lemma_dot_comm(a[q], w, n + 1);
            lemma_dot_comb(v, z, d, 0, a[q], n + 1);
            assert(dot(a[q], dv, n + 1) == d * dot(a[q], v, n + 1));
            lemma_dot_upd(a[q], dv, w, r, n + 1);
            assert(dv[r] == 0 && w[r] == -s);
            if q == r { assert(d * s + d * (-s - 0) == 0) by (nonlinear_arith); }
            else { assert(dot(a[q], v, n + 1) == 0); assert(a[q][r] == 0); assert(0 * (-s - 0) == 0); }
        }
        w
    }
}
/// with independent unknowns some row has a usable pivot
pub proof fn lemma_pivot(m: Mat, a: Mat, rc: int, n: int, i: int) requires shape(m, rc, n), shape(a, rc, n), kereq(m, a, n), indep(m, n), tri(a, i), 0 <= i < n, n <= rc, forall|j: int| i <= j < rc ==> #[trigger] a[j][i] == 0
    ensures false
{
    let v = lemma_kernel(a, rc, n, i, 0);
    assert forall|r: int| 0 <= r < a.len() implies dot(#[trigger] a[r], v, n + 1) == 0 by {
        if r >= i {
            assert forall|k: int| 0 <= k < n + 1 && k != n + 1 implies #[trigger] zprod(a[r], v, k) by { if k < i { assert(a[r][k] == 0); } else if k == i { assert(a[r][i] == 0); } }
            lemma_dot_single(a[r], v, n + 1, n + 1);
        }
    }
    assert(inker(m, v, n));
    let x = v.take(n);
    assert forall|r: int| 0 <= r < m.len() implies dot(#[trigger] m[r], x, n) == 0 by {
        lemma_dot_cong(m[r], v, m[r], x, n);
        assert(dot(m[r], v, n + 1) == 0);
        assert(m[r][n] * v[n] == 0) by (nonlinear_arith) requires v[n] == 0;
    }
    assert(homsol(m, x, n));
    assert(x[i] == v[i]);
}
/// back substitution: columns e.. have been solved
pub open spec fn backst(m: Mat, a: Mat, rc: int, n: int, e: int) -> bool {
    &&& shape(a, rc, n) && tri(a, n)
    &&& forall|r: int, c: int| 0 <= r < e && e <= c < n ==> #[trigger] a[r][c] == 0
    &&& forall|x: Row, r: int| #[trigger] sol(m, x, n) && 0 <= r < e ==> dot(#[trigger] a[r], x, n) == a[r][n]
    &&& forall|x: Row, r: int| #[trigger] sol(m, x, n) && e <= r < n ==> #[trigger] a[r][n] == x[r]
}
pub proof fn lemma_back_init(m: Mat, a: Mat, rc: int, n: int) requires 0 <= n <= rc, shape(a, rc, n), tri(a, n), kereq(m, a, n) ensures backst(m, a, rc, n, n) {
    assert forall|x: Row, r: int| #[trigger] sol(m, x, n) && 0 <= r < n implies dot(#[trigger] a[r], x, n) == a[r][n] by { lemma_sol_eq(m, a, x, n); }
}
/// the last unsolved equation has one unknown left
pub proof fn lemma_back_diag(m: Mat, a: Mat, rc: int, n: int, i: int, x: Row) requires 0 <= i < n <= rc, backst(m, a, rc, n, i + 1), sol(m, x, n) ensures a[i][i] * x[i] == a[i][n], a[i][i] != 0 {
    assert forall|k: int| 0 <= k < n && k != i implies #[trigger] zprod(a[i], x, k) by { if k < i { assert(a[i][k] == 0); } else { assert(a[i][k] == 0); } }
    lemma_dot_single(a[i], x, i, n);
    assert(dot(a[i], x, n) == a[i][n]);
}
/// one step of back substitution: row i solved, column i removed from the rows above
pub open spec fn backstep(a: Mat, b: Mat, rc: int, n: int, i: int) -> bool {
    let val = b[i][n];
    &&& shape(b, rc, n) && b[i][i] != 0
    &&& forall|c: int| 0 <= c < n && c != i ==> #[trigger] b[i][c] == a[i][c]
    &&& forall|r: int| i < r < rc ==> #[trigger] b[r] == a[r]
    &&& forall|r: int, c: int| 0 <= r < i && 0 <= c < n && c != i ==> #[trigger] b[r][c] == a[r][c]
    &&& forall|r: int| 0 <= r < i ==> (#[trigger] b[r])[i] == 0 && b[r][n] == a[r][n] - a[r][i] * val
}
pub proof fn lemma_back_step(m: Mat, a: Mat, b: Mat, rc: int, n: int, i: int) requires 0 <= i < n <= rc, backst(m, a, rc, n, i + 1), backstep(a, b, rc, n, i), forall|x: Row| #[trigger] sol(m, x, n) ==> b[i][n] == x[i]
    ensures backst(m, b, rc, n, i)
{
    assert forall|r: int, c: int| 0 <= c < n && c < r < b.len() implies #[trigger] b[r][c] == 0 by { assert(a[r][c] == 0); if r < i { assert(b[r][c] == a[r][c]); } else if r == i { assert(b[i][c] == a[i][c]); } else { assert(b[r] == a[r]); } }
    assert forall|c: int| 0 <= c < n implies #[trigger] b[c][c] != 0 by { assert(a[c][c] != 0); if c < i { assert(b[c][c] == a[c][c]); } else if c > i { assert(b[c] == a[c]); } }
    assert forall|r: int, c: int| 0 <= r < i && i <= c < n implies #[trigger] b[r][c] == 0 by { if c == i { assert(b[r][i] == 0); } else { assert(a[r][c] == 0); assert(b[r][c] == a[r][c]); } }
    assert forall|x: Row, r: int| #[trigger] sol(m, x, n) && 0 <= r < i implies dot(#[trigger] b[r], x, n) == b[r][n] by {
        lemma_dot_comm(b[r], x, n); lemma_dot_comm(a[r], x, n);
        assert forall|k: int| 0 <= k < n && k != i implies #[trigger] b[r][k] == a[r][k] by { }
        lemma_dot_upd(x, a[r], b[r], i, n);
        assert(dot(a[r], x, n) == a[r][n]);
        let (u, v) = (x[i], a[r][i]);
        assert(b[r][i] == 0);
        assert(u * (0 - v) == -(v * u)) by (nonlinear_arith);
        assert(b[i][n] == x[i]);
    }
    assert forall|x: Row, r: int| #[trigger] sol(m, x, n) && i <= r < n implies #[trigger] b[r][n] == x[r] by { if r > i { assert(b[r] == a[r]); assert(a[r][n] == x[r]); } }
}
pub proof fn lemma_tdiv_exact(c: int, k: int) requires c != 0 ensures tdiv(c * k, c) == k {
    if c > 0 {
        if c * k >= 0 { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, c); }
        else { assert(-(c * k) == c * (-k)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(-k, c); }
    } else {
        if c * k >= 0 { assert(c * k == (-c) * (-k)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(-k, -c); }
        else { assert(-(c * k) == (-c) * k) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, -c); }
    }
}
/// the multipliers taken from the least common multiple
pub proof fn lemma_lcm_mul(l: int, c: int) requires c != 0, l > 0, l % c == 0 ensures tdiv(l, c) * c == l, tdiv(l, c) != 0 {
    let k = l / c;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, c);
    lemma_tdiv_exact(c, k);
    assert(k != 0 && k * c == l) by (nonlinear_arith) requires l == c * k, l > 0;
}
