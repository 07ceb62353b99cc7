@module bigint
@trait bigint::Power
    spec fn power_req(&self, n: T) -> bool;
    spec fn power_ok(&self, n: T, vr: Self) -> bool;
@traitfn bigint::Power::power
    requires self.power_req(n)
    ensures self.power_ok(n, vr)
@trait bigint::PowerModulo
@traitfn bigint::PowerModulo::power_modulo
    requires n@ >= 0, p@ >= 2
@trait bigint::Inverse
@traitfn bigint::Inverse::inverse
    requires p@ >= 2

@impl bigint::BigInt:Power<BigInt>
    open spec fn power_req(&self, n: BigInt) -> bool { n@ >= 0 }
    open spec fn power_ok(&self, n: BigInt, vr: BigInt) -> bool { vr@ == pow(self@, n@) }
@fn bigint::BigInt:Power<BigInt>::power
@@props C01
@impl bigint::BigInt:Power<&BigInt>
    open spec fn power_req(&self, n: &'a BigInt) -> bool { n@ >= 0 }
    open spec fn power_ok(&self, n: &'a BigInt, vr: BigInt) -> bool { vr@ == pow(self@, n@) }
@fn bigint::BigInt:Power<&BigInt>::power
@@props C01
@@loop 0
    invariant e@ >= 1, r@ * pow(b@, e@) == pow(self@, n@)
    decreases e@
@@start 0
    proof { lemma_sqmul(r@, b@, e@); lemma_pow1(b@); }
@@after 0
    proof { lemma_pow1(b@); }
@impl bigint::BigInt:Power<i32>
    open spec fn power_req(&self, n: i32) -> bool { n >= 0 }
    open spec fn power_ok(&self, n: i32, vr: BigInt) -> bool { vr@ == pow(self@, n as int) }
@fn bigint::BigInt:Power<i32>::power
@@props C01
@@loop 0
    invariant e >= 1, r@ * pow(b@, e as int) == pow(self@, n as int)
    decreases e
@@start 0
    proof { lemma_sqmul(r@, b@, e as int); lemma_pow1(b@); }
@@after 0
    proof { lemma_pow1(b@); }

@fn bigint::BigInt:PowerModulo::power_modulo
@@props C02
@@spec
    ensures vr@ == pow(self@, n@) % p@, 0 <= vr@ < p@
@@begin
    proof { lemma_pow0(self@); vstd::arithmetic::div_mod::lemma_small_mod(1, p@ as nat); }
@@loop 0
    invariant e@ >= 1, p@ >= 2, cong(r@ * pow(b@, e@), pow(self@, n@), p@)
    decreases e@
@@pre 0
    proof {
        lemma_cong_refl(pow(self@, n@), p@); lemma_cong_refl(pow(self@, n@), p@);
        lemma_cong_mod(self@, p@); lemma_fmod(self@, p@); lemma_cong_pow(self@ % p@, self@, n@, p@);
        assert(1 * pow(self@ % p@, n@) == pow(self@ % p@, n@) && 1 * pow(self@, n@) == pow(self@, n@));
    }
@@start 0
    let ghost r0 = r@; let ghost b0 = b@; let ghost e0 = e@;
@@end 0
    proof {
        lemma_sqmul(r0, b0, e0);
        lemma_fmod(b0 * b0, p@); lemma_fmod(r0 * b0, p@);
        lemma_cong_mod(b0 * b0, p@); lemma_cong_mod(r0 * b0, p@);
        lemma_cong_pow(b@, b0 * b0, e@, p@);
        lemma_cong_refl(r0, p@);
        if e0 % 2 == 1 { lemma_cong_mul(r@, r0 * b0, pow(b@, e@), pow(b0 * b0, e@), p@); }
        else { lemma_cong_mul(r@, r0, pow(b@, e@), pow(b0 * b0, e@), p@); }
        lemma_cong_trans(r@ * pow(b@, e@), r0 * pow(b0, e0), pow(self@, n@), p@);
    }
@@after 0
    proof { lemma_pow1(b@); lemma_fmod(r@ * b@, p@); lemma_cong_mod_eq(r@ * b@, pow(self@, n@), p@); lemma_cong_mod(r@ * b@, p@); }
@fn bigint::BigInt:Inverse::inverse
@@props C02
@@spec
    ensures 0 <= vr@ < p@,
        vr@ == pow(self@, p@ - 2) % p@,
        is_prime_spec(p@) && !divides(p@, self@) ==> cong(self@ * vr@, 1, p@) && (self@ * vr@) % p@ == 1,
@@ret
    proof {
        if is_prime_spec(p@) && !divides(p@, self@) {
            lemma_fermat(p@, self@);
            let w = pow(self@, p@ - 2);
            lemma_cong_mod(w, p@); lemma_cong_refl(self@, p@);
            lemma_cong_mul(self@, self@, $r@, w, p@);
            lemma_cong_trans(self@ * $r@, self@ * w, 1, p@);
            lemma_cong_mod_eq(self@ * $r@, 1, p@);
            vstd::arithmetic::div_mod::lemma_small_mod(1, p@ as nat);
        }
    }

@fn bigint::extended_gcd
@@props C03
@@spec
    ensures is_bezout(a@, b@, vr.0@, vr.1@, vr.2@), a@ >= 0 && b@ >= 0 ==> vr.0@ >= 0
    decreases abs(a@)
@@begin
    proof {
        lemma_div_refl(b@); lemma_div_zero(b@);
        if a@ != 0 { lemma_trem(b@, a@); let (u, w) = (a@, tdiv(b@, a@)); assert(u * w == w * u) by (nonlinear_arith); }
    }
@@ret
    proof {
        if a@ != 0 {
            let m = trem(b@, a@); let q = tdiv(b@, a@);
            let g = $r.0@; let x = $r.2@; let y = $r.1@ + q * x;
            assert(is_bezout(m, a@, g, x, y));
            assert(a@ * (y - q * x) + b@ * x == g) by (nonlinear_arith) requires m * x + a@ * y == g, b@ == a@ * q + m;
            lemma_div_mul(g, a@, q);
            lemma_div_add(g, a@ * q, m);
        } else {
            assert(a@ * $r.1@ + b@ * $r.2@ == $r.0@) by (nonlinear_arith) requires a@ == 0, $r.2@ == 1, $r.0@ == b@;
        }
    }

@fn bigint::chinese_remainder
@@props C04
@@spec
    requires forall|i: int| 0 <= i < mod_result@.len() ==> (#[trigger] mod_result@[i]).l@ > 0,
        forall|i: int, j: int| 0 <= i < j < mod_result@.len() ==> coprime((#[trigger] mod_result@[i]).l@, (#[trigger] mod_result@[j]).l@),
    ensures vr.l@ == crt_prod(mod_result@, mod_result@.len() as int),
        forall|i: int| 0 <= i < mod_result@.len() ==> cong(vr.r@, (#[trigger] mod_result@[i]).r@, mod_result@[i].l@),
@@loop 0
    invariant $it0.all() == mod_result@, 0 <= $it0.pos() <= mod_result@.len(),
        forall|i: int| 0 <= i < mod_result@.len() ==> (#[trigger] mod_result@[i]).l@ > 0,
        forall|i: int, j: int| 0 <= i < j < mod_result@.len() ==> coprime((#[trigger] mod_result@[i]).l@, (#[trigger] mod_result@[j]).l@),
        l@ == crt_prod(mod_result@, $it0.pos()), l@ > 0,
        forall|i: int| 0 <= i < $it0.pos() ==> cong(r@, (#[trigger] mod_result@[i]).r@, mod_result@[i].l@),
        forall|i: int| 0 <= i < $it0.pos() ==> divides((#[trigger] mod_result@[i]).l@, l@),
@@start 0
    let ghost r0 = r@; let ghost l0 = l@; let ghost k = $o0.pos();
    proof { lemma_crt_coprime(mod_result@, k, k); }
@@end 0
    proof {
        let li = res.l@; let ri = res.r@; let pp = p@;
        let g = choose|g: int, y: int| #[trigger] is_bezout(l0, li, g, pp, y) && g >= 0;
        lemma_coprime_common(l0, li, g.0);
        assert(r@ == r0 + ((ri - r0) * l0) * pp);
        crt_step(mod_result@, k, r0, l0, r@, pp, g.1);
        assert(l@ > 0) by (nonlinear_arith) requires l@ == l0 * li, l0 > 0, li > 0;
    }
@module bigint
pub open spec fn crt_prod(s: Seq<ModResult>, k: int) -> int decreases k { if k <= 0 { 1 } else { crt_prod(s, k - 1) * s[k - 1].l@ } }
pub proof fn lemma_crt_coprime(s: Seq<ModResult>, k: int, j: int)
    requires 0 <= k <= j < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> coprime((#[trigger] s[i]).l@, (#[trigger] s[j]).l@),
    ensures coprime(crt_prod(s, k), s[j].l@)
    decreases k
{
    if k == 0 { assert(1 * 1 + s[j].l@ * 0 == 1); }
    else { lemma_crt_coprime(s, k - 1, j); lemma_coprime_prod(crt_prod(s, k - 1), s[k - 1].l@, s[j].l@); }
}
pub proof fn crt_step(s: Seq<ModResult>, k: int, r0: int, l0: int, r1: int, p: int, y: int)
    requires 0 <= k < s.len(), l0 * p + s[k].l@ * y == 1, r1 == r0 + ((s[k].r@ - r0) * l0) * p,
        forall|i: int| 0 <= i < k ==> cong(r0, (#[trigger] s[i]).r@, s[i].l@),
        forall|i: int| 0 <= i < k ==> divides((#[trigger] s[i]).l@, l0),
    ensures forall|i: int| 0 <= i < k + 1 ==> cong(r1, (#[trigger] s[i]).r@, s[i].l@),
        forall|i: int| 0 <= i < k + 1 ==> divides((#[trigger] s[i]).l@, l0 * s[k].l@),
{
    let li = s[k].l@; let ri = s[k].r@;
    assert(r1 - ri == li * (y * (r0 - ri))) by (nonlinear_arith) requires l0 * p + li * y == 1, r1 == r0 + ((ri - r0) * l0) * p;
    assert forall|i: int| 0 <= i < k + 1 implies cong(r1, (#[trigger] s[i]).r@, s[i].l@) && divides(s[i].l@, l0 * li) by {
        let m = s[i].l@;
        if i < k {
            lemma_div_mul(m, l0, li);
            lemma_div_mul(m, l0, (ri - r0) * p);
            assert(r1 - r0 == l0 * ((ri - r0) * p)) by (nonlinear_arith) requires r1 == r0 + ((ri - r0) * l0) * p;
            lemma_div_add(m, r1 - r0, r0 - s[i].r@);
            assert(r1 - r0 + (r0 - s[i].r@) == r1 - s[i].r@);
        } else { lemma_div_refl(li); lemma_div_mul(li, li, l0); }
    }
}
