@module division_polynomial
use crate::arith::*;
use crate::poly::*;
use crate::polyops::*;
use crate::polymod::*;
use crate::divpol::*;
use crate::top::*;
@fn division_polynomial::psi
@@props C21
@@spec
    requires 0 <= n <= 20002
    ensures vr@ == psip(a@, b@, n as int), is_psi(vr@, a@, b@, n as int), tpw(vr@, n * n - 1) == n
    decreases n
@@begin
    proof {
        broadcast use poly_cf;
        lemma_psip(a@, b@, n as int); lemma_psi_top(a@, b@, n as int); lemma_fit_psi4(a@, b@);
        assert(pow(a@, 2) == a@ * a@ && pow(b@, 2) == b@ * b@ && pow(a@, 3) == a@ * a@ * a@) by { reveal_with_fuel(pow, 4); assert(a@ * (a@ * a@) == a@ * a@ * a@) by (nonlinear_arith); }
        if n > 4 {
            let m = n as int / 2;
            assert(n % 2 == 1 ==> m == (n - 1) / 2);
            lemma_psip(a@, b@, m + 2); lemma_psip(a@, b@, m - 1); lemma_psip(a@, b@, m + 1); lemma_psip(a@, b@, m); lemma_psip(a@, b@, m - 2);
            let (q, e, f, g, h) = (psip(a@, b@, m), psip(a@, b@, m + 2), psip(a@, b@, m - 1), psip(a@, b@, m - 2), psip(a@, b@, m + 1));
            if n % 2 == 1 { lemma_fit_odd(a@, b@, m, e, q, f, h); lemma_mul_comm(e, ppow(q, 3)); lemma_mul_comm(f, ppow(h, 3)); }
            else { lemma_fit_dif2(a@, b@, m, e, f, g, h); lemma_fit_even(a@, b@, m, q, e, f, g, h); lemma_mul_comm(e, ppow(f, 2)); lemma_mul_comm(g, ppow(h, 2)); lemma_mul_comm(q, dif(e, f, g, h, 2)); }
        }
    }
@fn division_polynomial::phi
@@props C21
@@spec
    requires 1 <= n <= 20000
    ensures vr@ == phip(a@, b@, n as int), yeq(vr@, 0), tpw(vr@, 2 * n * n) == 1
@@begin
    proof { lemma_phi_top(a@, b@, n as int); lemma_fit_phi(a@, b@, n as int); }
@fn division_polynomial::omega
@@props C21
@@spec
    requires 1 <= n <= 20000
    ensures vr@ == omgp(a@, b@, n as int), yeq(vr@, if n % 2 == 1 { 1 } else { 0 }), n >= 2 ==> pscale(vr@, yk(1), 4) == omgn(a@, b@, n as int), tpw(vr@, 3 * n * n) == 1
@@begin
    proof {
        lemma_omg_top(a@, b@, n as int);
        if n >= 2 {
            let m = n as int;
            lemma_psip(a@, b@, m + 2); lemma_psip(a@, b@, m - 1); lemma_psip(a@, b@, m - 2); lemma_psip(a@, b@, m + 1);
            lemma_fit_dif2(a@, b@, m, psip(a@, b@, m + 2), psip(a@, b@, m - 1), psip(a@, b@, m - 2), psip(a@, b@, m + 1));
            lemma_omega(a@, b@, m); lemma_fit_omega(a@, b@, m);
        }
    }
