@module schoof_elkies_atkins
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::polygcd::*;
use crate::ec::*;
use crate::modpol::*;
use crate::roots::*;
pub open spec fn vals(s: Seq<BigInt>) -> Seq<int> { s.map_values(|b: BigInt| b@) }
pub open spec fn sea_res(r: SEAResult, mp: PM, j: int, p: int) -> bool { sea_ok(r.gcd@, r.degree_of_gcd as int, r.is_elkies_prime, vals(r.isogeny_j_invariants@), mp, j, p) }
pub proof fn lemma_vals_push(s: Seq<BigInt>, b: BigInt) ensures vals(s.push(b)) == vals(s).push(b@), vals(s).len() == s.len() { assert(vals(s.push(b)) =~= vals(s).push(b@)); }
@fn schoof_elkies_atkins::sea
@@props C29
@@spec
    requires ecok(ec.a@, ec.b@, ec.p@), ec.p@ <= i32::MAX, mpok(l as int), is_prime_spec(l as int)
    ensures exists|mp: PM, j: int| #[trigger] is_modpoly(mp, l as int) && #[trigger] is_j(ec.a@, ec.b@, ec.p@, j) && sea_res(vr, mp, j, ec.p@)
@@begin
    let ghost ll = l as int; let ghost (a, b, p) = (ec.a@, ec.b@, ec.p@);
    proof {
        lemma_xpx(p);
        assert forall|mp: PM| #[trigger] is_modpoly(mp, ll) implies ynonneg(pmod(mp, p)) by { lemma_special(mp, ll, 0, p); }
        assert forall|mp: PM, j: int| #[trigger] is_modpoly(mp, ll) && #[trigger] is_j(a, b, p, j) implies good(special(mp, j, p), p) by { lemma_special(mp, ll, j, p); }
        assert forall|mp: PM, j: int, g: PM| #[trigger] is_modpoly(mp, ll) && #[trigger] is_j(a, b, p, j) && #[trigger] is_gcd(g, xpx(p), special(mp, j, p), p) implies canon(g) && xo(g) && lead(g).x == cnt(g, p, p) && is_lead(g, lead(g)) && g.contains_key(lead(g)) by { lemma_sea_gcd(g, mp, ll, j, p); }
    }
@@pre 0
    proof { assert(vals(isogeny_j_invariants@) =~= Seq::<int>::empty()); assert(found(vals(isogeny_j_invariants@), gcd@, p, 0)); }
@@loop 0
    invariant_except_break found(vals(isogeny_j_invariants@), gcd@, p, $it0.cur@), isogeny_j_invariants@.len() < 2
    invariant is_prime_spec(p), p == ec.p@, $it0.end@ == p, 0 <= $it0.cur@ <= p, canon(gcd@), xo(gcd@), degree == cnt(gcd@, p, p)
    ensures isogeny_j_invariants@.len() <= 2, isogeny_j_invariants@.len() == 2 || isogeny_j_invariants@.len() == degree, exists|m: int| 0 <= m <= p && #[trigger] found(vals(isogeny_j_invariants@), gcd@, p, m)
@@start 0
    proof {
        lemma_eval_const(gcd@, $o0.cur@, p); lemma_found_step(vals(isogeny_j_invariants@), gcd@, p, $o0.cur@);
        assert forall|c: BigInt| vals(#[trigger] isogeny_j_invariants@.push(c)) == vals(isogeny_j_invariants@).push(c@) by { lemma_vals_push(isogeny_j_invariants@, c); }
    }
@@ret
    proof {
        let js = vals($r.isogeny_j_invariants@);
        assert(found(Seq::<int>::empty(), $r.gcd@, p, 0));
        if js.len() == 0 { assert(js =~= Seq::<int>::empty()); }
        assert forall|mp: PM, j: int| #[trigger] is_modpoly(mp, ll) && #[trigger] is_j(a, b, p, j) && is_gcd($r.gcd@, xpx(p), special(mp, j, p), p) implies sea_res($r, mp, j, p) by {
            let m = choose|m: int| 0 <= m <= p && #[trigger] found(js, $r.gcd@, p, m);
            lemma_sea_done(js, $r.gcd@, mp, ll, j, p, m);
        }
    }
