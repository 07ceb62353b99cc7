@module simultaneous_equation
use crate::arith::*;
use crate::linsys::*;
pub open spec fn rv(r: Vec<BigInt>) -> Row { Seq::new(r@.len(), |k: int| r@[k]@) }
/// the matrix held in nested vectors
pub open spec fn mv(a: Seq<Vec<BigInt>>) -> Mat { Seq::new(a.len(), |j: int| rv(a[j])) }
/// the matrix with its rows taken in the order `row`
pub open spec fn vm(a: Seq<Vec<BigInt>>, row: Seq<usize>) -> Mat { Seq::new(row.len(), |j: int| rv(a[row[j] as int])) }
pub open spec fn rect(a: Seq<Vec<BigInt>>, rc: int, cc: int) -> bool { a.len() == rc && forall|r: int| 0 <= r < rc ==> (#[trigger] a[r])@.len() == cc }
pub open spec fn perm(row: Seq<usize>, rc: int) -> bool { row.len() == rc && (forall|j: int| 0 <= j < rc ==> 0 <= #[trigger] row[j] < rc) && forall|i: int, j: int| 0 <= i < j < rc ==> #[trigger] row[i] != #[trigger] row[j] }
pub proof fn lemma_vm_shape(a: Seq<Vec<BigInt>>, row: Seq<usize>, rc: int, n: int) requires rect(a, rc, n + 1), perm(row, rc) ensures shape(vm(a, row), rc, n) {
    assert forall|r: int| 0 <= r < rc implies (#[trigger] vm(a, row)[r]).len() == n + 1 by { assert(0 <= row[r] < rc); assert(a[row[r] as int]@.len() == n + 1); }
}
pub proof fn lemma_vm_row(a: Seq<Vec<BigInt>>, b: Seq<Vec<BigInt>>, row: Seq<usize>, j: int, rc: int, n: int)
    requires rect(a, rc, n + 1), perm(row, rc), b.len() == rc, 0 <= j < rc, forall|r: int| 0 <= r < rc && r != row[j] ==> #[trigger] b[r] == a[r]
    ensures vm(b, row) == vm(a, row).update(j, rv(b[row[j] as int]))
{
    assert(vm(b, row) =~= vm(a, row).update(j, rv(b[row[j] as int]))) by {
        assert forall|r: int| 0 <= r < rc implies vm(b, row)[r] == #[trigger] vm(a, row).update(j, rv(b[row[j] as int]))[r] by { if r != j { assert(row[r] != row[j]) by { if r < j { assert(row[r] != row[j]); } else { assert(row[j] != row[r]); } } assert(0 <= row[r] < rc); assert(b[row[r] as int] == a[row[r] as int]); } }
    }
}
pub proof fn lemma_vm_swap(a: Seq<Vec<BigInt>>, row: Seq<usize>, i: int, j: int, rc: int) requires perm(row, rc), 0 <= i <= j < rc
    ensures perm(row.update(i, row[j]).update(j, row[i]), rc), vm(a, row.update(i, row[j]).update(j, row[i])) == swapped(vm(a, row), i, j)
{
    let s = row.update(i, row[j]).update(j, row[i]);
    assert(vm(a, s) =~= swapped(vm(a, row), i, j));
    assert forall|k: int| 0 <= k < rc implies 0 <= #[trigger] s[k] < rc by { assert(0 <= row[i] < rc && 0 <= row[j] < rc && 0 <= row[k] < rc); }
    assert forall|k: int, l: int| 0 <= k < l < rc implies #[trigger] s[k] != #[trigger] s[l] by {
        let (k2, l2) = (if k == i { j } else if k == j { i } else { k }, if l == i { j } else if l == j { i } else { l });
        assert(s[k] == row[k2] && s[l] == row[l2] && k2 != l2);
        if k2 < l2 { assert(row[k2] != row[l2]); } else { assert(row[l2] != row[k2]); }
    }
}
pub proof fn lemma_vm_id(a: Seq<Vec<BigInt>>, row: Seq<usize>, m: Seq<Vec<BigInt>>, rc: int, cc: int)
    requires rect(a, rc, cc), rect(m, rc, cc), row.len() == rc, forall|j: int| 0 <= j < rc ==> #[trigger] row[j] == j, forall|r: int, c: int| 0 <= r < rc && 0 <= c < cc ==> (#[trigger] a[r]@[c])@ == m[r]@[c]@
    ensures perm(row, rc), vm(a, row) == mv(m)
{
    assert forall|j: int| 0 <= j < rc implies vm(a, row)[j] == #[trigger] mv(m)[j] by { assert(row[j] == j); assert(a[j]@.len() == cc && m[j]@.len() == cc); assert(rv(a[j]) =~= rv(m[j])); }
    assert(vm(a, row) =~= mv(m));
}
/// state of the elimination before column i
pub open spec fn lust(m: Seq<Vec<BigInt>>, a: Seq<Vec<BigInt>>, row: Seq<usize>, rc: int, n: int, i: int) -> bool {
    rect(a, rc, n + 1) && perm(row, rc) && shape(vm(a, row), rc, n) && kereq(mv(m), vm(a, row), n) && tri(vm(a, row), i)
}
/// column i is zero in the rows from i on, up to r
pub open spec fn zcol(a: Mat, i: int, from: int, to: int) -> bool { forall|j: int| from <= j < to ==> #[trigger] a[j][i] == 0 }
pub open spec fn sysok(m: Seq<Vec<BigInt>>) -> bool { m.len() >= 1 && m[0]@.len() >= 1 && rect(m, m.len() as int, m[0]@.len() as int) && m.len() >= m[0]@.len() - 1 }
@fn simultaneous_equation::solve
@@props C23
@@assertif indep(mv(matrix@), matrix@[0]@.len() - 1)
@@spec
    requires sysok(matrix@)
    ensures rect(vr@, matrix@.len() as int, matrix@[0]@.len() as int),
        forall|x: Row, i: int| #[trigger] sol(mv(matrix@), x, matrix@[0]@.len() - 1) && 0 <= i < matrix@[0]@.len() - 1 ==> (#[trigger] vr@[i]@[matrix@[0]@.len() - 1])@ == x[i]
@@begin
    let ghost rc = matrix@.len() as int;
    let ghost cc = matrix@[0]@.len() as int;
    let ghost n = cc - 1;
    proof { assert(shape(mv(matrix@), rc, n)) by { assert forall|r: int| 0 <= r < rc implies (#[trigger] mv(matrix@)[r]).len() == n + 1 by { assert(matrix@[r]@.len() == cc); } } }
@@loop 0
    invariant rect(matrix@, rc, cc), rc == row_count, cc == col_count, rect(a@, rc, cc), $it0.end@ == rc, 0 <= $it0.cur@ <= rc, forall|r: int, c: int| 0 <= r < $it0.cur@ && 0 <= c < cc ==> (#[trigger] a@[r]@[c])@ == matrix@[r]@[c]@
@@loop 1
    invariant rect(matrix@, rc, cc), rc == row_count, cc == col_count, rect(a@, rc, cc), 0 <= row < rc, $it1.end@ == cc, 0 <= $it1.cur@ <= cc, forall|r: int, c: int| 0 <= r < row && 0 <= c < cc ==> (#[trigger] a@[r]@[c])@ == matrix@[r]@[c]@, forall|c: int| 0 <= c < $it1.cur@ ==> (#[trigger] a@[row as int]@[c])@ == matrix@[row as int]@[c]@
@@loop 2
    invariant rc == row_count, $it2.end@ == rc, 0 <= $it2.cur@ <= rc, row@.len() == $it2.cur@, forall|j: int| 0 <= j < row@.len() ==> #[trigger] row@[j] == j
@@pre 3
    proof { lemma_vm_id(a@, row@, matrix@, rc, cc); lemma_vm_shape(a@, row@, rc, n); }
@@loop 3
    invariant sysok(matrix@), shape(mv(matrix@), rc, n), rc == matrix@.len(), cc == matrix@[0]@.len(), n == cc - 1, rc == row_count, cc == col_count, $it3.end@ == n, 0 <= $it3.cur@ <= n, lust(matrix@, a@, row@, rc, n, $it3.cur@)
@@loop 4
    invariant_except_break lust(matrix@, a@, row@, rc, n, i as int), i <= $it4.cur@, zcol(vm(a@, row@), i as int, i as int, $it4.cur@)
    invariant rc == row_count, cc == col_count, n == cc - 1, $it4.end@ == rc, 0 <= i < n, n <= rc
    ensures lust(matrix@, a@, row@, rc, n, i as int), vm(a@, row@)[i as int][i as int] != 0 || zcol(vm(a@, row@), i as int, i as int, rc)
@@start 4
    proof { lemma_vm_swap(a@, row@, i as int, $o4.cur@, rc); lemma_swap(mv(matrix@), vm(a@, row@), i as int, $o4.cur@, rc, n); assert(row@[$o4.cur@] < rc && row@[i as int] < rc); assert(row@ =~= row@.update(i as int, row@[i as int]).update(i as int, row@[i as int])); }
@@after 4
    proof { if indep(mv(matrix@), n) && zcol(vm(a@, row@), i as int, i as int, rc) && vm(a@, row@)[i as int][i as int] == 0 { lemma_pivot(mv(matrix@), vm(a@, row@), rc, n, i as int); } assert(row@[i as int] < rc); }
@@loop 5
    invariant sysok(matrix@), rc == row_count, cc == col_count, n == cc - 1, 0 <= i < n, n <= rc, $it5.end@ == rc, i + 1 <= $it5.cur@ <= rc, lust(matrix@, a@, row@, rc, n, i as int), c1@ == vm(a@, row@)[i as int][i as int], c1@ != 0, zcol(vm(a@, row@), i as int, i + 1, $it5.cur@)
@@start 5
    let ghost a5 = a@;
    proof { assert(row@[$o5.cur@] < rc && row@[i as int] < rc && row@[i as int] != row@[$o5.cur@]); assert(a@[row@[$o5.cur@] as int]@.len() == cc && a@[row@[i as int] as int]@.len() == cc); }
@@loop 6
    invariant rect(a5, rc, cc), rect(a@, rc, cc), perm(row@, rc), rc == row_count, cc == col_count, 0 <= i < j < rc, $it6.end@ == cc, 0 <= $it6.cur@ <= cc, forall|r: int| 0 <= r < rc && r != row@[j as int] ==> #[trigger] a@[r] == a5[r],
        forall|k: int| 0 <= k < cc ==> (#[trigger] a@[row@[j as int] as int]@[k])@ == if k < $it6.cur@ { a5[row@[j as int] as int]@[k]@ * cc2@ } else { a5[row@[j as int] as int]@[k]@ }
@@start 6
    proof { assert(row@[j as int] < rc); }
@@loop 7
    invariant rect(a5, rc, cc), rect(a@, rc, cc), perm(row@, rc), rc == row_count, cc == col_count, 0 <= i < j < rc, $it7.end@ == cc, 0 <= $it7.cur@ <= cc, forall|r: int| 0 <= r < rc && r != row@[j as int] ==> #[trigger] a@[r] == a5[r],
        forall|k: int| 0 <= k < cc ==> (#[trigger] a@[row@[j as int] as int]@[k])@ == if k < $it7.cur@ { a5[row@[j as int] as int]@[k]@ * cc2@ - a5[row@[i as int] as int]@[k]@ * cc1@ } else { a5[row@[j as int] as int]@[k]@ * cc2@ }
@@start 7
    proof { assert(row@[j as int] < rc && row@[i as int] < rc && row@[i as int] != row@[j as int]); }
@@after 7
    proof {
        let (i, j) = (i as int, j as int);
        let (v5, v) = (vm(a5, row@), vm(a@, row@));
        lemma_vm_row(a5, a@, row@, j, rc, n);
        lemma_lcm_mul(lcm@, c1@); lemma_lcm_mul(lcm@, c2@);
        assert(rv(a@[row@[j] as int]) =~= comb(v5[j], v5[i], cc2@, cc1@)) by {
            assert forall|k: int| 0 <= k < cc implies rv(a@[row@[j] as int])[k] == #[trigger] comb(v5[j], v5[i], cc2@, cc1@)[k] by {
                assert(a@[row@[j] as int]@[k]@ == a5[row@[j] as int]@[k]@ * cc2@ - a5[row@[i] as int]@[k]@ * cc1@);
                let (s, t, p, q) = (a5[row@[j] as int]@[k]@, a5[row@[i] as int]@[k]@, cc2@, cc1@);
                assert(s * p - t * q == p * s - q * t) by (nonlinear_arith);
            }
        }
        lemma_elim(mv(matrix@), v5, i, j, cc2@, cc1@, rc, n);
        assert(v[j][i] == cc2@ * c2@ - cc1@ * c1@);
    }
@@pre 8
    proof { lemma_back_init(mv(matrix@), vm(a@, row@), rc, n); }
@@loop 8
    invariant rc == row_count, cc == col_count, n == cc - 1, n <= rc, col_prim == n, $it8.cur@ == 0, 0 <= $it8.end@ <= n, rect(a@, rc, cc), perm(row@, rc), shape(vm(a@, row@), rc, n), backst(mv(matrix@), vm(a@, row@), rc, n, $it8.end@)
@@start 8
    let ghost a8 = a@;
    let ghost ii = $o8.end@ - 1;
    proof {
        assert(row@[ii] < rc);
        assert(a@[row@[ii] as int]@.len() == cc);
        assert forall|x: Row| #[trigger] sol(mv(matrix@), x, n) implies vm(a8, row@)[ii][ii] * x[ii] == vm(a8, row@)[ii][n] && tdiv(vm(a8, row@)[ii][n], vm(a8, row@)[ii][ii]) == x[ii] by {
            lemma_back_diag(mv(matrix@), vm(a8, row@), rc, n, ii, x);
            lemma_tdiv_exact(vm(a8, row@)[ii][ii], x[ii]);
        }
        assert(vm(a8, row@)[ii][ii] != 0);
    }
@@pre 9
    let ghost a9 = a@;
    proof { lemma_vm_row(a8, a9, row@, ii, rc, n); }
@@loop 9
    invariant rc == row_count, cc == col_count, n == cc - 1, n <= rc, col_prim == n, 0 <= i < n, ii == i, $it9.end@ == i, 0 <= $it9.cur@ <= i, rect(a9, rc, cc), rect(a@, rc, cc), perm(row@, rc), val@ == vm(a9, row@)[i as int][n],
        forall|r: int| 0 <= r < rc && !(0 <= r < $it9.cur@) ==> #[trigger] vm(a@, row@)[r] == vm(a9, row@)[r],
        forall|r: int, c: int| 0 <= r < $it9.cur@ && 0 <= c < n && c != i ==> #[trigger] vm(a@, row@)[r][c] == vm(a9, row@)[r][c],
        forall|r: int| 0 <= r < $it9.cur@ ==> (#[trigger] vm(a@, row@)[r])[i as int] == 0 && vm(a@, row@)[r][n] == vm(a9, row@)[r][n] - vm(a9, row@)[r][i as int] * val@
@@start 9
    let ghost a90 = a@;
    let ghost jj = $o9.cur@;
    proof { assert(row@[jj] < rc); assert(a@[row@[jj] as int]@.len() == cc); assert(vm(a@, row@)[jj] == vm(a9, row@)[jj]); }
@@end 9
    proof {
        lemma_vm_row(a90, a@, row@, jj, rc, n);
        assert(vm(a@, row@)[jj] == rv(a@[row@[jj] as int]));
    }
@@after 9
    proof {
        lemma_vm_shape(a@, row@, rc, n);
        let (b0, b) = (vm(a8, row@), vm(a@, row@));
        let b9 = vm(a9, row@);
        assert(b[ii] == b9[ii]);
        assert forall|r: int| 0 <= r < rc && r != ii implies #[trigger] b9[r] == b0[r] by { }
        assert forall|c: int| 0 <= c < n && c != ii implies #[trigger] b[ii][c] == b0[ii][c] by { }
        assert(backstep(b0, b, rc, n, ii));
        lemma_back_step(mv(matrix@), b0, b, rc, n, ii);
    }
@@loop 10
    invariant rc == row_count, cc == col_count, n == cc - 1, n <= rc, rect(a@, rc, cc), perm(row@, rc), backst(mv(matrix@), vm(a@, row@), rc, n, 0), $it10.end@ == rc, 0 <= $it10.cur@ <= rc, rect(b@, rc, cc), forall|r: int| 0 <= r < $it10.cur@ ==> #[trigger] rv(b@[r]) == vm(a@, row@)[r]
@@start 10
    proof { assert(row@[$o10.cur@] < rc); assert(a@[row@[$o10.cur@] as int]@.len() == cc); }
@@after 10
    proof {
        assert forall|x: Row, i: int| #[trigger] sol(mv(matrix@), x, n) && 0 <= i < n implies (#[trigger] b@[i])@.len() == cc && b@[i]@[n]@ == x[i] by {
            assert(rv(b@[i]) == vm(a@, row@)[i]);
            assert(vm(a@, row@)[i].len() == n + 1);
            assert(vm(a@, row@)[i][n] == x[i]);
            assert(rv(b@[i])[n] == b@[i]@[n]@);
        }
    }
