@module modular_polynomial
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::qser::*;
use crate::linsys::*;
use crate::modpol::*;
use crate::simultaneous_equation::{rv, mv, sysok, rect};
use crate::subscripted_variable::{svidx, svcount, svok, svvar, lemma_svrow, lemma_sv_range};
/// the coefficients of q^(-p^2-p), ..., q^0 in the expansion, in order
pub open spec fn is_list(v: Seq<crate::polynomial::Polynomial>, p: int, len: int) -> bool { v.len() == len && forall|r: int| 0 <= r < v.len() ==> is_qc((#[trigger] v[r])@, mq(p), r - (p * p + p)) }
@fn modular_polynomial::subscripted_variable_modular_polynomial
@@props C25
@@spec
    requires mpok(p as int), is_prime_spec(p as int)
    ensures is_tmpl(vr@, p as int), vr@ == tmpl(p as int)
@@pre 0
    proof { lemma_part_init(pol@, p as int); }
@@loop 0
    invariant mpok(p as int), $it0.end@ == p + 1, 0 <= $it0.cur@ <= p + 1, is_part(pol@, p as int, $it0.cur@, 0, 1)
@@start 0
    proof { lemma_part_diag(pol@, p as int, $o0.cur@); }
@@loop 1
    invariant mpok(p as int), $it1.end@ == p + 1, 0 <= $it1.cur@ <= p + 1, is_part(pol@, p as int, p + 1, $it1.cur@, $it1.cur@ + 1)
@@loop 2
    invariant mpok(p as int), $it2.end@ == p + 1, 0 <= i <= p, i + 1 <= $it2.cur@ <= p + 1, is_part(pol@, p as int, p + 1, i as int, $it2.cur@)
@@start 2
    proof { lemma_part_off(pol@, p as int, i as int, $o2.cur@); }
@@after 2
    proof { lemma_part_row(pol@, p as int, i as int); }
@@after 1
    proof { lemma_part_done(pol@, p as int); }
@fn modular_polynomial::subscripted_variable_modular_polynomial_q
@@props C25
@@spec
    requires mpok(p as int), is_prime_spec(p as int)
    ensures vr@ == mq(p as int), canon(vr@), forall|k: MV| #[trigger] vr@.contains_key(k) ==> k.x == 0 && k.y == 0
@@begin
    proof {
        let n = p as int * p as int + p as int;
        lemma_qok(p as int);
        assert(canon(jser(n)) && qlb(jser(n), -1, n) ==> (forall|k: MV| #[trigger] jser(n).contains_key(k) ==> i32ok(k.q * p)) && canon(jp(p as int)) && qlb(jp(p as int), -(p * (p * p + p)), p * (p * p + p))) by { if canon(jser(n)) && qlb(jser(n), -1, n) { lemma_jp(jser(n), p as int); } }
        assert(canon(jser(n)) && qlb(jser(n), -1, n) && is_tmpl(tmpl(p as int), p as int) ==> sxfit(tmpl(p as int), jser(n)) && canon(mq1(p as int)) && syfit(mq1(p as int), jp(p as int)) && canon(mq2(p as int)) && qonly(mq2(p as int)) && canon(mq(p as int))) by {
            if canon(jser(n)) && qlb(jser(n), -1, n) && is_tmpl(tmpl(p as int), p as int) {
                lemma_sub_x(tmpl(p as int), jser(n), p as int);
                lemma_sub_y(mq1(p as int), jp(p as int), p as int);
                lemma_canon_ptrunc(mq2(p as int), 0);
            }
        }
    }
@fn modular_polynomial::subscripted_variable_modular_polynomial_list
@@props C25
@@spec
    requires mpok(p as int), is_prime_spec(p as int)
    ensures is_list(vr@, p as int, p * p + p + 1)
@@begin
    proof {
        assert(pow(p as int, 2) == p * p) by { reveal_with_fuel(pow, 3); }
        lemma_qok(p as int);
        assert forall|n: int| canon(mq(p as int)) && (forall|k: MV| #[trigger] mq(p as int).contains_key(k) ==> k.x == 0 && k.y == 0) implies is_qc(#[trigger] pqcoef(mq(p as int), n), mq(p as int), n) by { lemma_qc(mq(p as int), n); }
    }
@@loop 0
    invariant mpok(p as int), p * p + p <= 40200, $it0.end@ == 1, -(p * p + p) <= $it0.cur@ <= 1, is_list(v@, p as int, $it0.cur@ + p * p + p), pol_q@ == mq(p as int), canon(mq(p as int)), forall|k: MV| #[trigger] mq(p as int).contains_key(k) ==> k.x == 0 && k.y == 0,
        forall|n: int| is_qc(#[trigger] pqcoef(mq(p as int), n), mq(p as int), n)
@fn modular_polynomial::modular_polynomial
@@props C25
@@spec
    requires mpok(p as int), is_prime_spec(p as int)
    ensures is_modpoly(vr@, p as int)
@@begin
    let ghost pp = p as int;
    let ghost rc = pp * pp + pp + 1;
    let ghost n = svcount(pp);
    let ghost cc = n + 1;
    proof { lemma_qok(pp); lemma_svrow(pp); lemma_count_rows(pp); }
@@loop 0
    invariant mpok(pp), pp == p, rc == pp * pp + pp + 1, n == svcount(pp), cc == n + 1, 0 <= n <= rc <= 40201, 2 * n == (pp + 1) * (pp + 2), is_list(list@, pp, rc), row_count == rc, col_count == cc, converter.p == p, rect(a@, rc, cc), $it0.end@ == rc, 0 <= $it0.cur@ <= rc,
        forall|r: int| 0 <= r < $it0.cur@ ==> is_row(#[trigger] mv(a@)[r], mq(pp), pp, r - (pp * pp + pp))
@@start 0
    let ghost a0 = a@;
    let ghost rr = $o0.cur@;
@@loop 1
    invariant mpok(pp), pp == p, rc == pp * pp + pp + 1, n == svcount(pp), cc == n + 1, 0 <= n <= rc <= 40201, is_list(list@, pp, rc), row_count == rc, col_count == cc, converter.p == p, rect(a@, rc, cc), rect(a0, rc, cc), row == rr, 0 <= rr < rc, $it1.end@ == cc, 0 <= $it1.cur@ <= cc,
        forall|r: int| 0 <= r < rc && r != rr ==> #[trigger] a@[r] == a0[r],
        forall|i: int| 0 <= i < $it1.cur@ ==> (#[trigger] a@[rr]@[i])@ == cell(mq(pp), pp, rr - (pp * pp + pp), i)
@@start 1
    proof {
        let ci = $o1.cur@;
        assert forall|v: crate::subscripted_variable::SubscriptedVariable| #[trigger] svvar(pp, v) && svidx(pp, v.i as int, v.j as int) == ci implies cf(list@[rr]@, v.mv()) == cell(mq(pp), pp, rr - (pp * pp + pp), ci) by {
            assert(is_of(pp, ci, v.i as int, v.j as int));
            lemma_cell(list@[rr]@, mq(pp), pp, rr - (pp * pp + pp), ci, v.i as int, v.j as int);
        }
        lemma_cell_one(list@[rr]@, mq(pp), pp, rr - (pp * pp + pp));
        assert(a@[rr]@.len() == cc);
    }
@@after 1
    proof {
        assert(a@[rr]@.len() == cc);
        assert forall|r: int| 0 <= r < rr + 1 implies is_row(#[trigger] mv(a@)[r], mq(pp), pp, r - (pp * pp + pp)) by {
            if r < rr { assert(a@[r] == a0[r]); assert(mv(a@)[r] == mv(a0)[r]); assert(is_row(mv(a0)[r], mq(pp), pp, r - (pp * pp + pp))); }
        }
    }
@@after 0
    proof { assert(a@[0]@.len() == cc); assert(is_sys(mv(a@), mq(pp), pp)); }
@@pre 2
    let ghost c = Seq::new(n as nat, |i: int| -b@[i]@[n]@);
    proof {
        assert forall|d: Seq<int>| #[trigger] vanishes(mq(pp), pp, d) implies d == c by {
            lemma_sys_sol(mv(a@), mq(pp), pp, d);
            assert forall|i: int| 0 <= i < n implies d[i] == c[i] by { assert(sol(mv(a@), negs(d), n)); assert(b@[i]@[n]@ == negs(d)[i]); }
            assert(d =~= c);
        }
        assert(is_mpart(pol@, pp, c, 0)) by { assert forall|k: MV| #[trigger] cf(pol@, k) == mpcf(pp, c, k, 0) by { if 0 <= k.x <= k.y <= pp { lemma_sv_range(pp, k.x, k.y); } if 0 <= k.y <= k.x <= pp { lemma_sv_range(pp, k.y, k.x); } } }
    }
@@loop 2
    invariant mpok(pp), pp == p, n == svcount(pp), cc == n + 1, 0 <= n <= rc <= 40201, col_count == cc, converter.p == p, rect(b@, rc, cc), c.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] c[i] == -b@[i]@[n]@, $it2.end@ == n, 0 <= $it2.cur@ <= n, is_mpart(pol@, pp, c, $it2.cur@)
@@start 2
    proof {
        broadcast use poly_cf;
        let ci = $o2.cur@;
        assert(b@[ci]@.len() == cc);
        assert forall|v: crate::subscripted_variable::SubscriptedVariable| #[trigger] svvar(pp, v) && svidx(pp, v.i as int, v.j as int) == ci implies
            (v.i == v.j ==> is_mpart(padd(pol@, mono(mxy(v.i as int, v.j as int), c[ci])), pp, c, ci + 1)) && (v.i != v.j ==> is_mpart(padd(padd(pol@, mono(mxy(v.i as int, v.j as int), c[ci])), mono(mxy(v.j as int, v.i as int), c[ci])), pp, c, ci + 1)) && canon(padd(pol@, mono(mxy(v.i as int, v.j as int), c[ci])))
        by { assert(is_of(pp, ci, v.i as int, v.j as int)); lemma_mp_step(pol@, pp, c, ci, v.i as int, v.j as int); }
    }
@@after 2
    proof { broadcast use poly_cf; lemma_mp_last(pol@, pp, c); assert(canon(padd(pol@, mono(mxy(pp + 1, 0), 1)))); }
@@ret
    proof { lemma_mp_shape($r@, p as int, c); }
