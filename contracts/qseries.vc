@module divisor
use crate::arith::*;
use crate::qser::*;
@fn divisor::sigma_divisor
@@props C22
@@spec
    requires n < 0x7fff_ffff, power >= 0
    ensures n >= 0 ==> vr@ == sigma(n as int, power as int), n < 0 ==> vr@ == 0
@@loop 0
    invariant n >= 0, power >= 0, n < 0x7fff_ffff, $it0.end@ == n + 1, 1 <= $it0.cur@ <= n + 1, sum@ == sigto(n as int, power as int, $it0.cur@ - 1)
@module eisenstein
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::qser::*;
@fn eisenstein::eisenstein4
@@props C22
@@spec
    requires max_q_order < 0x7fff_ffff
    ensures vr@ == e4s(max_q_order as int), canon(vr@),
        forall|k: MV| #[trigger] cf(vr@, k) == (if k == m1() { 1 } else if k == qm(k.q) && 1 <= k.q <= max_q_order { 240 * sigma(k.q, 3) } else { 0 })
@@begin
    proof { lemma_e4(max_q_order as int); }
@@loop 0
    invariant max_q_order < 0x7fff_ffff, $it0.end@ == max_q_order + 1, 1 <= $it0.cur@, $it0.cur@ <= max_q_order + 1 || $it0.cur@ == 1, pol@ == e4s($it0.cur@ - 1), canon(pol@)
@@start 0
    proof { lemma_e4($o0.cur@); lemma_e4($o0.cur@ - 1); }
@module delta
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::qser::*;
@fn delta::delta1
@@props C22
@@spec
    requires qok(order as int)
    ensures vr@ == ptrunc(dprod(order as int), order as int), qs(vr@), cf(vr@, m1()) == 1, qle(vr@, order as int), qbnd(vr@, order as int)
@@begin
    proof { broadcast use poly_cf; lemma_dprod(order as int); lemma_qs_trunc(dprod(order as int), order as int); lemma_trunc_id(p1(), order as int); }
@@loop 0
    invariant qok(order as int), $it0.end@ == order + 1, 1 <= $it0.cur@ <= order + 1, one@ == p1(), canon(one@), pol@ == ptrunc(dprod($it0.cur@ - 1), order as int), canon(pol@)
@@start 0
    proof {
        broadcast use poly_cf, lemma_canon_ptrunc;
        lemma_dfac($o0.cur@); lemma_dprod($o0.cur@ - 1); lemma_qs_pow(dfac($o0.cur@), 24);
        lemma_delta_step(pol@, ptrunc(ppow(dfac($o0.cur@), 24), order as int), $o0.cur@, order as int);
    }
@fn delta::delta1_inverse
@@props C22
@@spec
    requires qok(order as int)
    ensures ptrunc(pmul(vr@, dprod(order as int)), order as int) == p1(), qs(vr@), qbnd(vr@, order as int), qle(vr@, order as int)
@@begin
    let ghost dd = ptrunc(dprod(order as int), order as int);
    proof {
        broadcast use poly_cf, lemma_canon_ptrunc;
        lemma_dprod(order as int); lemma_qs_trunc(dprod(order as int), order as int);
        lemma_compl(dd, order as int);
        lemma_geo(psub(p1(), dd), order as int);
        lemma_geo_inverse(dd, ptrunc(geo(psub(p1(), dd), order as int), order as int), order as int);
        lemma_qs_trunc(geo(psub(p1(), dd), order as int), order as int);
        lemma_trunc_mul2(ptrunc(geo(psub(p1(), dd), order as int), order as int), dprod(order as int), order as int);
        lemma_trunc_id(p1(), order as int);
    }
@@loop 0
    invariant qok(order as int), $it0.end@ == order + 1, 1 <= $it0.cur@ <= order + 1, a@ == psub(p1(), dd), qs(a@), qbnd(a@, order as int), pol@ == ptrunc(geo(a@, $it0.cur@ - 1), order as int), canon(pol@)
@@start 0
    proof {
        broadcast use poly_cf, lemma_canon_ptrunc;
        lemma_qs_pow(a@, $o0.cur@);
        lemma_geo_step(pol@, ptrunc(ppow(a@, $o0.cur@), order as int), a@, $o0.cur@, order as int);
    }
@module j_invariant
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::qser::*;
@fn j_invariant::j_invariant1
@@props C22
@@spec
    requires qok(order as int)
    ensures is_j1(vr@, order as int)
@@begin
    proof {
        broadcast use poly_cf, lemma_canon_ptrunc;
        let n = order as int;
        lemma_e4(n); lemma_qs_pow(e4s(n), 3); lemma_dprod(n); lemma_qs_trunc(ppow(e4s(n), 3), n);
        assert forall|u: PM| qs(u) && #[trigger] qbnd(u, n) && ptrunc(pmul(u, dprod(n)), n) == p1() implies is_j1(ptrunc(pmul(u, ptrunc(ppow(e4s(n), 3), n)), n), n) && mulfit(u, ptrunc(ppow(e4s(n), 3), n)) && qonly(pmul(u, ptrunc(ppow(e4s(n), 3), n))) by {
            lemma_quot(u, dprod(n), ppow(e4s(n), 3), ptrunc(ppow(e4s(n), 3), n), ptrunc(pmul(u, ptrunc(ppow(e4s(n), 3), n)), n), n);
            lemma_qbnd_mul(u, ptrunc(ppow(e4s(n), 3), n), n, n);
        }
    }
@fn j_invariant::j_invariant
@@props C22
@@spec
    requires qok(order as int + 1)
    ensures is_j1(pscale(vr@, qm(1), 1), order as int + 1), vr@ == jser(order as int), canon(vr@), qlb(vr@, -1, order as int)
@@begin
    proof {
        broadcast use poly_cf;
        assert forall|u: PM| #[trigger] is_j1(u, order as int + 1) implies mulfit(u, mono(qm(-1), 1)) && pmul(u, mono(qm(-1), 1)) == jser(order as int) && pscale(jser(order as int), qm(1), 1) == u && canon(jser(order as int)) && qlb(jser(order as int), -1, order as int) by {
            lemma_jser(u, order as int);
        }
    }
