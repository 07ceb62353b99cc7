@module schoof
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::polygcd::*;
use crate::ec::*;
use crate::roots::*;
use crate::parity::*;
@fn schoof::schoof
@@props C27 C30
@@opt push_loops
@@spec
    requires ecok(a@, b@, q as int)
    ensures vr@.len() >= 1, vr@[0].l@ == 2, 0 <= vr@[0].r@ <= 1, (trace(a@, b@, q as int) - vr@[0].r@) % 2 == 0
@@begin
    proof {
        broadcast use poly_cf;
        let (aa, bb, p) = (a@, b@, q as int);
        lemma_xpx(p); lemma_cubic(aa, bb); lemma_cubic_shape(aa, bb); lemma_trace_parity(aa, bb, p);
        lemma_prime_not_div(p, 1);
        assert(good(cubic(aa, bb), p));
        assert forall|g: PM| #[trigger] is_gcd(g, cubic(aa, bb), xpx(p), p) implies (g == p1()) == (cnt(cubic(aa, bb), p, p) == 0) by { lemma_gcd_one(g, aa, bb, p); }
    }
