@module polynomial
pub open spec fn pl(m: PM) -> Polynomial { Polynomial { terms: BTreeMap { m: Ghost(m) } } }
impl View for Polynomial { type V = PM; open spec fn view(&self) -> PM { self.terms.m@ } }
@fn polynomial::Polynomial:Clone::clone
@@props C06
@fn polynomial::Polynomial:PartialEq::eq
@@props C06
@@opspec self@ == rhs@
@fn polynomial::Polynomial:Default::default
@@props C06
@@spec
    ensures vr@ == p0()
@fn polynomial::Polynomial::new
@@props C06
@@spec
    ensures vr@ == p0()
@impl polynomial::Polynomial:Zero
    open spec fn zero_spec() -> Polynomial { pl(p0()) }
    open spec fn is_zero_spec(&self) -> bool { self@ == p0() }
@fn polynomial::Polynomial:Zero::zero
@@props C06
@fn polynomial::Polynomial:Zero::is_zero
@@props C06
@@begin
    proof { lemma_len0(self@); }
@impl polynomial::Polynomial:One
    open spec fn one_req() -> bool { true }
    open spec fn one_is(r: Polynomial) -> bool { r@ == p1() }
@fn polynomial::Polynomial:One::one
@@props C08
@fn polynomial::op+(Polynomial,Polynomial)
@@props C06
@@opreq canon($l@) && canon($r@)
@@opspec pl(padd($l@, $r@))
@@loop 0
    invariant padd(pol@, $it0.rest()) == padd(a@, b@), canon(pol@), canon($it0.rest())
@@start 0
    let ghost p00 = pol@;
    proof { lemma_add_step(pol@, $o0.rest(), bk.dv()); lemma_addterm(pol@, bk.dv(), bv@); }
@@end 0
    assert(pol@ =~= addterm(p00, bk.dv(), bv@));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::op+(Polynomial,Term)
@@props C06
@@opreq canon($l@)
@@opspec pl(padd($l@, $r.pv()))
@@begin
    broadcast use lemma_canon_mono;
@fn polynomial::op+(Term,Polynomial)
@@props C06
@@opreq canon($r@)
@@opspec pl(padd($l.pv(), $r@))
@@begin
    broadcast use lemma_canon_mono;
@fn polynomial::op+=(Polynomial,Polynomial)
@@props C06
@@opreq canon($l@) && canon($r@)
@@opspec pl(padd($l@, $r@))
@@begin
    let ghost a00 = self@;
@@loop 0
    invariant padd(a@, $it0.rest()) == padd(a00, b@), canon(a@), canon($it0.rest())
@@start 0
    let ghost p00 = a@;
    proof { lemma_add_step(a@, $o0.rest(), bk.dv()); lemma_addterm(a@, bk.dv(), bv@); }
@@end 0
    assert(a@ =~= addterm(p00, bk.dv(), bv@));
@@after 0
    proof { lemma_padd_0(a@); }
@fn polynomial::op+=(Polynomial,Term)
@@props C06
@@opreq canon($l@)
@@opspec pl(padd($l@, $r.pv()))
@@begin
    let ghost a00 = self@;
    proof { if b.c() != 0 || a00.contains_key(b.m()) { lemma_addterm(a00, b.m(), b.c()); } else { lemma_padd_0(a00); } }
@@ret
    assert(b.c() != 0 || a00.contains_key(b.m()) ==> a@ =~= addterm(a00, b.m(), b.c()));
@fn polynomial::op-(Polynomial,Polynomial)
@@props C06
@@opreq canon($l@) && canon($r@)
@@opspec pl(psub($l@, $r@))
@@begin
    broadcast use lemma_canon_pneg;
@fn polynomial::op-(Polynomial,Term)
@@props C06
@@opreq canon($l@)
@@opspec pl(psub($l@, $r.pv()))
@@begin
    broadcast use lemma_canon_mono, lemma_canon_pneg;
@fn polynomial::op-(Term,Polynomial)
@@props C06
@@opreq canon($r@)
@@opspec pl(psub($l.pv(), $r@))
@@begin
    broadcast use lemma_canon_mono, lemma_canon_pneg;
@fn polynomial::op-=(Polynomial,Polynomial)
@@props C06
@@opreq canon($l@) && canon($r@)
@@opspec pl(psub($l@, $r@))
@@begin
    let ghost a00 = self@;
@@loop 0
    invariant psub(a@, $it0.rest()) == psub(a00, b@), canon(a@), canon($it0.rest())
@@start 0
    let ghost p00 = a@;
    proof { lemma_sub_step(a@, $o0.rest(), bk.dv()); lemma_addterm(a@, bk.dv(), -bv@); }
@@end 0
    assert(a@ =~= addterm(p00, bk.dv(), -bv@));
@@after 0
    proof { broadcast use poly_cf; lemma_ext(psub(a@, p0()), a@); }
@fn polynomial::neg(Polynomial)
@@props C06
@@opreq canon($l@)
@@opspec pl(pneg($l@))
@@loop 0
    invariant psub(pol@, $it0.rest()) == pneg(a@), canon(pol@), canon($it0.rest()), forall|k: MV| #[trigger] $it0.rest().contains_key(k) ==> !pol@.contains_key(k)
@@pre 0
    proof { broadcast use poly_cf; lemma_ext(psub(p0(), a@), pneg(a@)); }
@@start 0
    let ghost p00 = pol@;
    proof { lemma_sub_step(pol@, $o0.rest(), m.dv()); lemma_addterm(pol@, m.dv(), -coef@); }
@@end 0
    assert(pol@ =~= addterm(p00, m.dv(), -coef@));
@@after 0
    proof { broadcast use poly_cf; lemma_ext(psub(pol@, p0()), pol@); }
@fn polynomial::op*(Polynomial,Polynomial)
@@props C07
@@opreq canon($l@) && canon($r@) && mulfit($l@, $r@)
@@opspec pl(pmul($l@, $r@))
@@loop 0
    invariant padd(pol@, pmul($it0.rest(), b@)) == pmul(a@, b@), canon(pol@), canon(a@), canon(b@), mulfit(a@, b@), canon($it0.rest()), $it0.rest().submap_of(a@)
@@pre 0
    proof { lemma_canon_pmul(a@, b@); lemma_padd_0(pmul(a@, b@)); }
@@start 0
    let ghost p00 = pol@;
    let ghost r00 = $o0.rest();
    proof { lemma_mul_step(pol@, r00, b@, ik.dv()); assert(a@.contains_key(ik.dv())); lemma_sub_rm($o0.rest(), a@, ik.dv()); lemma_peel(r00, ik.dv()); }
@@loop 1
    invariant padd(pol@, pscale($it1.rest(), ik.dv(), iv@)) == padd(p00, pscale(b@, ik.dv(), iv@)), canon(pol@), canon(a@), canon(b@), mulfit(a@, b@), canon($it1.rest()), $it1.rest().submap_of(b@),
        i.m() == ik.dv(), i.c() == iv@, iv@ != 0, a@.contains_key(ik.dv())
@@start 1
    let ghost p01 = pol@;
    proof { lemma_scale_step(pol@, $o1.rest(), jk.dv(), ik.dv(), iv@); assert(b@.contains_key(jk.dv())); lemma_sub_rm($o1.rest(), b@, jk.dv()); 
        assert(iv@ * jv@ != 0) by (nonlinear_arith) requires iv@ != 0, jv@ != 0;
        lemma_addterm(pol@, mmul(ik.dv(), jk.dv()), iv@ * jv@); lemma_peel($o1.rest(), jk.dv()); }
@@end 1
    assert(pol@ =~= addterm(p01, mmul(ik.dv(), jk.dv()), iv@ * jv@));
@@after 1
    proof { lemma_scale_p0(ik.dv(), iv@); lemma_padd_0(pol@); }
@@after 0
    proof { lemma_mul_p0(b@); lemma_padd_0(pol@); }
@fn polynomial::op*(Polynomial,Term)
@@props C07
@@opreq canon($l@) && mulfit($l@, $r.pv())
@@opspec pl(pscale($l@, $r.m(), $r.c()))
@@begin
    proof { broadcast use lemma_canon_mono; lemma_mul_mono_r(self@, b.m(), b.c()); }
@fn polynomial::op*(Term,Polynomial)
@@props C07
@@opreq canon($r@) && mulfit($l.pv(), $r@)
@@opspec pl(pscale($r@, $l.m(), $l.c()))
@@begin
    proof { broadcast use lemma_canon_mono; lemma_mul_mono_l(self.m(), self.c(), b@); }
@fn polynomial::op*=(Polynomial,Polynomial)
@@props C07
@@opreq canon($l@) && canon($r@) && mulfit($l@, $r@)
@@opspec pl(pmul($l@, $r@))
@fn polynomial::op/(Polynomial,Polynomial)
@@props C09
@@opreq canon($l@) && canon($r@) && $r@.len() == 1 && tkey($r@).vn == 0 && divfit($l@, tkey($r@))
@@opspec pl(pdivm($l@, tkey($r@), tcoef($r@)))
@@begin
    let ghost dk = tkey(b@); let ghost dc = tcoef(b@);
    proof { lemma_len0(b@); }
@@pre 0
    proof { broadcast use poly_cf; lemma_padd_0(pdivm(a@, dk, dc)); assert(b@.contains_key(dk)); }
@@loop 0
    invariant padd(pol@, pdivm($it0.rest(), dk, dc)) == pdivm(a@, dk, dc), canon(pol@), canon($it0.rest()), $it0.rest().submap_of(a@), divfit(a@, dk),
        canon(a@), canon(b@), b@.len() == 1, dk == tkey(b@), dc == tcoef(b@), dk.vn == 0, b@.contains_key(dk),
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(mdiv(j, dk))
@@start 0
    let ghost p00 = pol@;
    let ghost r00 = $o0.rest();
    proof {
        lemma_pdivm_step(pol@, r00, ak.dv(), dk, dc); lemma_peel(r00, ak.dv()); assert(a@.contains_key(ak.dv())); lemma_sub_rm($o0.rest(), a@, ak.dv());
        assert forall|j: MV| #[trigger] b@.contains_key(j) implies j == dk by { lemma_single(b@, j); }
        if fdiv(av@, dc) != 0 { lemma_addterm(pol@, mdiv(ak.dv(), dk), fdiv(av@, dc)); } else { lemma_padd_0(pol@); }
    }
@@end 0
    assert(fdiv(av@, dc) != 0 ==> pol@ =~= addterm(p00, mdiv(ak.dv(), dk), fdiv(av@, dc)));
@@after 0
    proof { lemma_pdivm_p0(dk, dc); lemma_padd_0(pol@); }
@fn polynomial::op/(Polynomial,Term)
@@props C09
@@opreq canon($l@) && $r.c() != 0 && $r.m().vn == 0 && divfit($l@, $r.m())
@@opspec pl(pdivm($l@, $r.m(), $r.c()))
@@begin
    proof { broadcast use lemma_canon_mono; lemma_tkey(b.m(), b.c()); }
@fn polynomial::op/(Term,Polynomial)
@@props C09
@@opreq canon($r@) && $r@.len() == 1 && tkey($r@).vn == 0 && divfit($l.pv(), tkey($r@))
@@opspec pl(pdivm($l.pv(), tkey($r@), tcoef($r@)))
@@begin
    broadcast use lemma_canon_mono;
@fn polynomial::op/=(Polynomial,Polynomial)
@@props C09
@@opreq canon($l@) && canon($r@) && $r@.len() == 1 && tkey($r@).vn == 0 && divfit($l@, tkey($r@))
@@opspec pl(pdivm($l@, tkey($r@), tcoef($r@)))
@fn polynomial::op/=(Polynomial,Term)
@@props C09
@@opreq canon($l@) && $r.c() != 0 && $r.m().vn == 0 && divfit($l@, $r.m())
@@opspec pl(pdivm($l@, $r.m(), $r.c()))
@@begin
    proof { broadcast use lemma_canon_mono; lemma_tkey(b.m(), b.c()); }
@fn polynomial::op%(Polynomial,i32)
@@props C10
@@opreq ($r as int) > 0 && canon($l@)
@@opspec pl(pmod($l@, $r as int))
@fn polynomial::op%(Polynomial,BigInt)
@@props C10
@@opreq $r@ > 0 && canon($l@)
@@opspec pl(pmod($l@, $r@))
@@pre 0
    proof { broadcast use poly_cf; lemma_padd_0(pmod(self@, p@)); }
@@loop 0
    invariant padd(pol@, pmod($it0.rest(), p@)) == pmod(self@, p@), canon(pol@), canon($it0.rest()), p@ > 0,
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(j)
@@start 0
    let ghost p00 = pol@;
    let ghost k00 = m.dv();
    let ghost c00 = coef@ % p@;
    proof { lemma_fmod(coef@, p@); lemma_pmod_step(pol@, $o0.rest(), m.dv(), p@); lemma_peel($o0.rest(), m.dv());
        if c00 != 0 { lemma_addterm(pol@, m.dv(), c00); } else { lemma_padd_0(pol@); } vstd::arithmetic::div_mod::lemma_mod_bound(coef@, p@); }
@@end 0
    assert(c00 != 0 ==> pol@ =~= addterm(p00, k00, c00));
@@after 0
    proof { lemma_pmod_p0(p@); lemma_padd_0(pol@); lemma_pmod_keys(self@, p@); }
@@loop 1
    invariant reduced(pol@, p@), $it1.rest().submap_of(pol@)
@@start 1
    proof { assert(pol@.contains_key($n1.0.dv())); lemma_sub_rm($o1.rest(), pol@, $n1.0.dv()); }
@fn polynomial::Polynomial::modular_assign
@@props C10
@@spec
    requires p@ > 0
    ensures final(self)@ == pmod(old(self)@, p@)
@@begin
    let ghost a00 = self@;
@@loop 0
    invariant p@ > 0, self@.dom() == a00.dom(), $it0.rest().submap_of(a00), forall|k: MV| #[trigger] $it0.rest().contains_key(k) ==> self@[k] == a00[k],
        forall|k: MV| a00.contains_key(k) && !$it0.rest().contains_key(k) ==> #[trigger] self@[k] == a00[k] % p@,
        forall|k: MV| #[trigger] del.s@.contains(k) <==> a00.contains_key(k) && !$it0.rest().contains_key(k) && a00[k] % p@ == 0
@@start 0
    let ghost k00 = $n0.dv();
    proof { assert(a00.contains_key(k00)); assert(coef@ == a00[k00]); lemma_fmod(coef@, p@); vstd::arithmetic::div_mod::lemma_mod_bound(coef@, p@); }
@@end 0
    assert(self@.dom() =~= a00.dom());
@@loop 1
    invariant $it1.rest().subset_of(del.s@), forall|k: MV| #[trigger] self@.contains_key(k) <==> a00.contains_key(k) && !(del.s@.contains(k) && !$it1.rest().contains(k)),
        forall|k: MV| #[trigger] self@.contains_key(k) ==> self@[k] == a00[k] % p@
@@start 1
    let ghost s01 = self@;
    let ghost k01 = $n1.dv();
@@end 1
    assert(self@ =~= s01.remove(k01));
@@after 1
    proof { reveal(pmod); lemma_pmod_keys(a00, p@); }
    assert(self@ =~= pmod(a00, p@));
@@loop 2
    invariant reduced(self@, p@), $it2.rest().submap_of(self@)
@@start 2
    proof { assert(self@.contains_key($n2.0.dv())); lemma_sub_rm($o2.rest(), self@, $n2.0.dv()); }
@impl polynomial::Polynomial:Power<i32>
    open spec fn power_req(&self, n: i32) -> bool { n >= 0 && canon(self@) && powfit(self@, n as int) }
    open spec fn power_ok(&self, n: i32, vr: Polynomial) -> bool { vr@ == ppow(self@, n as int) }
@impl polynomial::Polynomial:Power<BigInt>
    open spec fn power_req(&self, n: BigInt) -> bool { n@ >= 0 && canon(self@) && powfit(self@, n@) }
    open spec fn power_ok(&self, n: BigInt, vr: Polynomial) -> bool { vr@ == ppow(self@, n@) }
@impl polynomial::Polynomial:Power<&BigInt>
    open spec fn power_req(&self, n: &'a BigInt) -> bool { n@ >= 0 && canon(self@) && powfit(self@, n@) }
    open spec fn power_ok(&self, n: &'a BigInt, vr: Polynomial) -> bool { vr@ == ppow(self@, n@) }
@fn polynomial::Polynomial:Power<BigInt>::power
@@props C08
@fn polynomial::Polynomial:Power<&BigInt>::power
@@props C08
@@pre 0
    let ghost mut kr: int = 0; let ghost mut kb: int = 1;
    proof { lemma_powst_init(self@, n@); }
@@loop 0
    invariant powst(self@, n@, r@, b@, kr, kb, e@), pmul(r@, ppow(b@, e@)) == ppow(self@, n@)
    decreases e@
@@start 0
    let ghost e00 = e@;
    proof { lemma_powst_step(self@, n@, r@, b@, kr, kb, e@); }
@@end 0
    proof { if e00 % 2 == 1 { kr = kr + kb; } kb = 2 * kb; }
@@after 0
    proof { lemma_powst_last(self@, n@, r@, b@, kr, kb); }
@fn polynomial::Polynomial:Power<i32>::power
@@props C08
@@pre 0
    let ghost mut kr: int = 0; let ghost mut kb: int = 1;
    proof { lemma_powst_init(self@, n as int); }
@@loop 0
    invariant powst(self@, n as int, r@, b@, kr, kb, e as int), pmul(r@, ppow(b@, e as int)) == ppow(self@, n as int)
    decreases e
@@start 0
    let ghost e00 = e as int;
    proof { lemma_powst_step(self@, n as int, r@, b@, kr, kb, e as int); }
@@end 0
    proof { if e00 % 2 == 1 { kr = kr + kb; } kb = 2 * kb; }
@@after 0
    proof { lemma_powst_last(self@, n as int, r@, b@, kr, kb); }
@fn polynomial::Polynomial::square
@@props C08
@@spec
    requires canon(self@), powfit(self@, 2)
    ensures vr@ == pmul(self@, self@), vr@ == ppow(self@, 2)
@@ret
    proof { lemma_ppow_add(self@, 1, 1); lemma_ppow_1(self@); }
@fn polynomial::Polynomial::cube
@@props C08
@@spec
    requires canon(self@), powfit(self@, 3)
    ensures vr@ == pmul(self@, pmul(self@, self@)), vr@ == ppow(self@, 3)
@@ret
    proof { lemma_ppow_add(self@, 1, 2); lemma_ppow_add(self@, 1, 1); lemma_ppow_1(self@); }
@fn polynomial::Polynomial::power_modulo
@@props C10
@@spec
    requires n@ >= 0, p@ >= 2, canon(self@), powfit(self@, n@)
    ensures vr@ == pmod(ppow(self@, n@), p@)
@@begin
    proof { if n@ == 0 { lemma_pmod_small(p1(), p@); } }
@@pre 0
    let ghost mut kr: int = 0; let ghost mut kb: int = 1;
    proof { lemma_powst_init(self@, n@); lemma_powst_mod(self@, n@, p1(), self@, 0, 1, n@, p@);
        broadcast use lemma_canon_pmod;
        lemma_pmod_idem(self@, p@); lemma_pmod_pow(pmod(self@, p@), self@, n@, p@); lemma_canon_ppow(pmod(self@, p@), n@); lemma_mul_1(ppow(pmod(self@, p@), n@)); }
@@loop 0
    invariant powst(self@, n@, r@, b@, kr, kb, e@), pmod(pmul(r@, ppow(b@, e@)), p@) == pmod(ppow(self@, n@), p@), p@ > 0
    decreases e@
@@start 0
    let ghost e00 = e@;
    proof { let (r0, b0) = (r@, b@);
        lemma_powst_step(self@, n@, r0, b0, kr, kb, e@); lemma_pmod_sqmul(r0, b0, e@, p@);
        if e00 % 2 == 1 { lemma_powst_mod(self@, n@, pmul(r0, b0), pmul(b0, b0), kr + kb, 2 * kb, e00 / 2, p@); lemma_powst_mod(self@, n@, pmod(pmul(r0, b0), p@), pmul(b0, b0), kr + kb, 2 * kb, e00 / 2, p@); }
        else { lemma_powst_mod(self@, n@, r0, pmul(b0, b0), kr, 2 * kb, e00 / 2, p@); } }
@@end 0
    proof { if e00 % 2 == 1 { kr = kr + kb; } kb = 2 * kb; }
@@after 0
    proof { lemma_powst_last(self@, n@, r@, b@, kr, kb); }
@fn polynomial::Polynomial::highest_term_x
@@props C11 C15
@@spec
    ensures self@ == p0() ==> vr.c() == 0 && vr.m() == m1(), self@ != p0() ==> is_lead(self@, vr.m()) && vr.c() == self@[vr.m()]
@@begin
    proof { lemma_len0(self@); }
@@loop 0
    invariant $it0.rest() == self@, self@ != p0()
@@start 0
    proof { broadcast use axiom_key_lt; }
@fn polynomial::Polynomial::has_x
@@props C15
@@spec
    ensures vr == (exists|k: MV| #[trigger] self@.contains_key(k) && k.x != 0)
@@loop 0
    invariant $it0.rest().submap_of(self@), forall|k: MV| #[trigger] self@.contains_key(k) && !$it0.rest().contains_key(k) ==> k.x == 0
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); }
@fn polynomial::Polynomial::has_y
@@props C15
@@spec
    ensures vr == (exists|k: MV| #[trigger] self@.contains_key(k) && k.y != 0)
@@loop 0
    invariant $it0.rest().submap_of(self@), forall|k: MV| #[trigger] self@.contains_key(k) && !$it0.rest().contains_key(k) ==> k.y == 0
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); }
@fn polynomial::Polynomial::has_q
@@props C15
@@spec
    ensures vr == (exists|k: MV| #[trigger] self@.contains_key(k) && k.q != 0)
@@loop 0
    invariant $it0.rest().submap_of(self@), forall|k: MV| #[trigger] self@.contains_key(k) && !$it0.rest().contains_key(k) ==> k.q == 0
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); }
@fn polynomial::Polynomial::degree_x
@@props C15
@@spec
    requires forall|k: MV| #[trigger] self@.contains_key(k) ==> k.y == 0 && k.q == 0
    ensures self@ == p0() ==> vr == 0, self@ != p0() ==> (exists|k: MV| #[trigger] self@.contains_key(k) && k.x == vr) && (forall|k: MV| #[trigger] self@.contains_key(k) ==> k.x <= vr)
@fn polynomial::Polynomial::to_scalar
@@props C15
@@spec
    requires self@ == p0() || (exists|c: int, k: MV| c != 0 && k.x == 0 && k.y == 0 && k.q == 0 && self@ == #[trigger] mono(k, c))
    ensures self@ == p0() ==> vr@ == 0, forall|c: int, k: MV| self@ == #[trigger] mono(k, c) ==> vr@ == c
@@begin
    proof { lemma_len0(self@); if self@ != p0() { let (c, k) = choose|c: int, k: MV| c != 0 && k.x == 0 && k.y == 0 && k.q == 0 && self@ == #[trigger] mono(k, c); lemma_tkey(k, c); } 
      assert forall|c: int, k: MV| self@ == #[trigger] mono(k, c) && c != 0 implies self@.contains_key(k) && self@[k] == c && forall|j: MV| #[trigger] self@.contains_key(j) ==> j == k by {}
    }
@@loop 0
    invariant $it0.rest() == self@, self@ != p0(), exists|c: int, k: MV| c != 0 && k.x == 0 && k.y == 0 && k.q == 0 && self@ == #[trigger] mono(k, c)
@@start 0
    proof { let (c, k) = choose|c: int, k: MV| c != 0 && k.x == 0 && k.y == 0 && k.q == 0 && self@ == #[trigger] mono(k, c); assert(self@.contains_key(m.dv())); }
@fn polynomial::Polynomial::derivative_x
@@props C13
@@spec
    requires canon(self@), xnonneg(self@)
    ensures vr@ == pdx(self@)
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, dxf()); lemma_padd_0(pdx(self@)); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), dxf())) == pdx(self@), canon(pol@), canon($it0.rest()), canon(self@), xnonneg(self@), $it0.rest().submap_of(self@),
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(mdiv(j, mk(1, 0, 0)))
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@ * m.dv().x; let ghost k00 = mdiv(m.dv(), mk(1, 0, 0));
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), dxf(), m.dv()); lemma_peel($o0.rest(), m.dv());
        if c00 != 0 { assert(m.dv().x > 0) by (nonlinear_arith) requires c00 != 0, c00 == coef@ * m.dv().x, m.dv().x >= 0; lemma_addterm(pol@, k00, c00); } else { lemma_padd_0(pol@); } }
@@end 0
    assert(c00 != 0 ==> pol@ =~= addterm(p00, k00, c00));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::derivative_y
@@props C13
@@spec
    requires canon(self@), ynonneg(self@)
    ensures vr@ == pdy(self@)
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, dyf()); lemma_padd_0(pdy(self@)); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), dyf())) == pdy(self@), canon(pol@), canon($it0.rest()), canon(self@), ynonneg(self@), $it0.rest().submap_of(self@),
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(mdiv(j, mk(0, 1, 0)))
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@ * m.dv().y; let ghost k00 = mdiv(m.dv(), mk(0, 1, 0));
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), dyf(), m.dv()); lemma_peel($o0.rest(), m.dv());
        if c00 != 0 { assert(m.dv().y > 0) by (nonlinear_arith) requires c00 != 0, c00 == coef@ * m.dv().y, m.dv().y >= 0; lemma_addterm(pol@, k00, c00); } else { lemma_padd_0(pol@); } }
@@end 0
    assert(c00 != 0 ==> pol@ =~= addterm(p00, k00, c00));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::to_frob
@@props C13
@@spec
    requires canon(self@), n >= 1, forall|k: MV| #[trigger] self@.contains_key(k) ==> i32ok(k.x * n) && i32ok(k.y * n)
    ensures vr@ == pmap(self@, frobg(n as int))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, pmapf(frobg(n as int))); lemma_padd_0(pmap(self@, frobg(n as int))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), pmapf(frobg(n as int)))) == pmap(self@, frobg(n as int)), canon(pol@), canon($it0.rest()), canon(self@), $it0.rest().submap_of(self@), n >= 1,
        forall|k: MV| #[trigger] self@.contains_key(k) ==> i32ok(k.x * n) && i32ok(k.y * n),
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(frobm(j, n as int))
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@; let ghost k00 = frobm(m.dv(), n as int);
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), pmapf(frobg(n as int)), m.dv()); lemma_peel($o0.rest(), m.dv());
        lemma_addterm(pol@, k00, c00);
        assert forall|j: MV| #[trigger] $o0.rest().contains_key(j) && j != m.dv() implies frobm(j, n as int) != k00 by { lemma_frob_inj(j, m.dv(), n as int); } }
@@end 0
    assert(pol@ =~= addterm(p00, k00, c00));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::to_y_power
@@props C13
@@spec
    requires canon(self@), n >= 1, forall|k: MV| #[trigger] self@.contains_key(k) ==> i32ok(k.y * n)
    ensures vr@ == pmap(self@, ypowg(n as int))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, pmapf(ypowg(n as int))); lemma_padd_0(pmap(self@, ypowg(n as int))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), pmapf(ypowg(n as int)))) == pmap(self@, ypowg(n as int)), canon(pol@), canon($it0.rest()), canon(self@), $it0.rest().submap_of(self@), n >= 1,
        forall|k: MV| #[trigger] self@.contains_key(k) ==> i32ok(k.y * n),
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(ypowm(j, n as int))
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@; let ghost k00 = ypowm(m.dv(), n as int);
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), pmapf(ypowg(n as int)), m.dv()); lemma_peel($o0.rest(), m.dv());
        lemma_addterm(pol@, k00, c00);
        assert forall|j: MV| #[trigger] $o0.rest().contains_key(j) && j != m.dv() implies ypowm(j, n as int) != k00 by { lemma_frob_inj(j, m.dv(), n as int); } }
@@end 0
    assert(pol@ =~= addterm(p00, k00, c00));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::to_q_power
@@props C13
@@spec
    requires canon(self@), n >= 1, forall|k: MV| #[trigger] self@.contains_key(k) ==> i32ok(k.q * n)
    ensures vr@ == pmap(self@, qpowg(n as int))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, pmapf(qpowg(n as int))); lemma_padd_0(pmap(self@, qpowg(n as int))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), pmapf(qpowg(n as int)))) == pmap(self@, qpowg(n as int)), canon(pol@), canon($it0.rest()), canon(self@), $it0.rest().submap_of(self@), n >= 1,
        forall|k: MV| #[trigger] self@.contains_key(k) ==> i32ok(k.q * n),
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) ==> !pol@.contains_key(qpowm(j, n as int))
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@; let ghost k00 = qpowm(m.dv(), n as int);
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), pmapf(qpowg(n as int)), m.dv()); lemma_peel($o0.rest(), m.dv());
        lemma_addterm(pol@, k00, c00);
        assert forall|j: MV| #[trigger] $o0.rest().contains_key(j) && j != m.dv() implies qpowm(j, n as int) != k00 by { lemma_frob_inj(j, m.dv(), n as int); } }
@@end 0
    assert(pol@ =~= addterm(p00, k00, c00));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::eval_xy
@@props C12
@@spec
    requires nonneg(self@)
    ensures vr@ == ev(self@, x@, y@)
@@loop 0
    invariant sum@ + isum($it0.rest(), evf(x@, y@)) == ev(self@, x@, y@), $it0.rest().submap_of(self@), nonneg(self@)
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_isum_remove($o0.rest(), evf(x@, y@), m.dv()); lemma_sub_rm($o0.rest(), self@, m.dv());
        let ghost (ex, ey, c) = (pow(x@, m.dv().x), pow(y@, m.dv().y), coef@); assert(c * (ex * ey) == (ex * ey) * c) by (nonlinear_arith); }
@fn polynomial::Polynomial::eval_x
@@props C12
@@spec
    requires xnonneg(self@)
    ensures vr@ == psum(self@, exf(x@))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, exf(x@)); lemma_padd_0(psum(self@, exf(x@))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), exf(x@))) == psum(self@, exf(x@)), canon(pol@), $it0.rest().submap_of(self@), xnonneg(self@)
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@ * pow(x@, m.dv().x); let ghost k00 = xz(m.dv());
    proof { assert(c00 == pow(x@, m.dv().x) * coef@) by (nonlinear_arith) requires c00 == coef@ * pow(x@, m.dv().x); assert(self@.contains_key(m.dv())); lemma_psum_step(pol@, $o0.rest(), exf(x@), m.dv()); lemma_sub_rm($o0.rest(), self@, m.dv()); }
@@end 0
    proof { broadcast use poly_cf; assert(pol@ == padd(p00, mono(k00, c00))); }
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::eval_x_polynomial
@@props C12
@@spec
    requires canon(polynomial@), sxfit(self@, polynomial@)
    ensures vr@ == psum(self@, sxf(polynomial@))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, sxf(polynomial@)); lemma_padd_0(psum(self@, sxf(polynomial@))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), sxf(polynomial@))) == psum(self@, sxf(polynomial@)), canon(pol@), $it0.rest().submap_of(self@), canon(polynomial@), sxfit(self@, polynomial@)
@@start 0
    proof { broadcast use poly_cf; assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), sxf(polynomial@), m.dv());
        lemma_sub_scalar(ppow(polynomial@, m.dv().x), xz(m.dv()), coef@); }
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::eval_y
@@props C12
@@spec
    requires ynonneg(self@)
    ensures vr@ == psum(self@, eyf(y@))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, eyf(y@)); lemma_padd_0(psum(self@, eyf(y@))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), eyf(y@))) == psum(self@, eyf(y@)), canon(pol@), $it0.rest().submap_of(self@), ynonneg(self@)
@@start 0
    let ghost p00 = pol@; let ghost c00 = coef@ * pow(y@, m.dv().y); let ghost k00 = yz(m.dv());
    proof { assert(c00 == pow(y@, m.dv().y) * coef@) by (nonlinear_arith) requires c00 == coef@ * pow(y@, m.dv().y); assert(self@.contains_key(m.dv())); lemma_psum_step(pol@, $o0.rest(), eyf(y@), m.dv()); lemma_sub_rm($o0.rest(), self@, m.dv()); }
@@end 0
    proof { broadcast use poly_cf; assert(pol@ == padd(p00, mono(k00, c00))); }
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::eval_y_polynomial
@@props C12
@@spec
    requires canon(polynomial@), syfit(self@, polynomial@)
    ensures vr@ == psum(self@, syf(polynomial@))
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, syf(polynomial@)); lemma_padd_0(psum(self@, syf(polynomial@))); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), syf(polynomial@))) == psum(self@, syf(polynomial@)), canon(pol@), $it0.rest().submap_of(self@), canon(polynomial@), syfit(self@, polynomial@)
@@start 0
    proof { broadcast use poly_cf; assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), syf(polynomial@), m.dv());
        lemma_sub_scalar(ppow(polynomial@, m.dv().y), yz(m.dv()), coef@); }
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::reduction
@@props C14
@@spec
    requires canon(self@), redfit(self@)
    ensures vr@ == pred(self@, a@, b@)
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, redf(a@, b@)); lemma_padd_0(pred(self@, a@, b@)); }
@@loop 0
    invariant padd(t@, psum($it0.rest(), redf(a@, b@))) == pred(self@, a@, b@), canon(t@), canon($it0.rest()), $it0.rest().submap_of(self@), redfit(self@)
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_psum_step(t@, $o0.rest(), redf(a@, b@), m.dv()); lemma_peel($o0.rest(), m.dv()); lemma_sub_rm($o0.rest(), self@, m.dv());
        broadcast use poly_cf;
        let k = m.dv();
        if k.y >= 2 { lemma_cubic_fit(a@, b@, k.y / 2, k.x); lemma_cubic(a@, b@); lemma_canon_ppow(cubic(a@, b@), k.y / 2);
            lemma_pdivm_mono(k, coef@, mk(0, 2 * (k.y / 2), 0)); lemma_mul_mono_l(ylow(k), coef@, ppow(cubic(a@, b@), k.y / 2));
            assert(mdiv(k, mk(0, 2 * (k.y / 2), 0)) == ylow(k)); }
    }
@@after 0
    proof { lemma_padd_0(t@); }
@fn polynomial::Polynomial::reduction_modular
@@props C14
@@spec
    requires canon(self@), redfit(self@), p >= 2
    ensures vr@ == pmod(pred(self@, a@, b@), p as int)
    decreases (if yle1(self@) { 0int } else { 1int })
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, redf(a@, b@)); lemma_padd_0(pred(self@, a@, b@)); }
@@loop 0
    invariant pmod(padd(t@, psum($it0.rest(), redf(a@, b@))), p as int) == pmod(pred(self@, a@, b@), p as int), canon(t@), canon($it0.rest()), $it0.rest().submap_of(self@), redfit(self@), p >= 2, pp@ == p
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_psum_step(t@, $o0.rest(), redf(a@, b@), m.dv()); lemma_peel($o0.rest(), m.dv()); lemma_sub_rm($o0.rest(), self@, m.dv());
        broadcast use poly_cf;
        let k = m.dv();
        if k.y >= 2 { 
            let g = ppow(cubic(a@, b@), k.y / 2);
            lemma_cubic_fit(a@, b@, k.y / 2, k.x); lemma_cubic(a@, b@); lemma_canon_ppow(cubic(a@, b@), k.y / 2);
            lemma_pdivm_mono(k, coef@, mk(0, 2 * (k.y / 2), 0)); lemma_mul_mono_l(ylow(k), coef@, pmod(g, p as int));
            assert(mdiv(k, mk(0, 2 * (k.y / 2), 0)) == ylow(k));
            lemma_y0_pow(cubic(a@, b@), k.y / 2); lemma_pmod_keys(g, p as int);
            lemma_pred_id(pmod(g, p as int), a@, b@); lemma_pmod_idem(g, p as int);
            lemma_mulfit_keys(mono(ylow(k), coef@), g, pmod(g, p as int));
            lemma_cong_refl(coef@, p as int);
            lemma_pmod_scale(pmod(g, p as int), g, ylow(k), coef@, coef@, p as int);
            let f1 = redf(a@, b@)(k, coef@); let f2 = pscale(pmod(g, p as int), ylow(k), coef@); let rest = psum($o0.rest().remove(k), redf(a@, b@));
            lemma_pmod_padd2(t@, t@, f2, f1, p as int); lemma_pmod_padd2(padd(t@, f2), padd(t@, f1), rest, rest, p as int);
        }
    }
@@after 0
    proof { lemma_padd_0(t@); }
@fn polynomial::Polynomial::omit_high_order_q
@@props C15
@@spec
    requires qonly(old(self)@), order < 0x7fff_ffff
    ensures final(self)@ == ptrunc(old(self)@, order as int)
@@begin
    let ghost a00 = self@;
@@ret
    proof { broadcast use axiom_key_lt; }
    assert(self@ =~= ptrunc(a00, order as int));
@fn polynomial::Polynomial::power_omit_high_order_q
@@props C15
@@spec
    requires canon(self@), order >= 0, n >= 0, order < 0x7fff_ffff, qbnd(self@, 0x7fff_ffff - order)
    ensures vr@ == ptrunc(ppow(self@, n as int), order as int)
@@pre 0
    proof { lemma_trunc_id(p1(), order as int); }
@@loop 0
    invariant pol@ == ptrunc(ppow(self@, $it0.cur@), order as int), 0 <= $it0.cur@ <= n, $it0.end@ == n, canon(self@), order >= 0, order < 0x7fff_ffff, qbnd(self@, 0x7fff_ffff - order), qbnd(pol@, order as int)
@@start 0
    proof { broadcast use lemma_canon_ptrunc, lemma_cf_ptrunc; let i = $o0.cur@; lemma_canon_ppow(self@, i); lemma_qbnd_mul(pol@, self@, order as int, 0x7fff_ffff - order);
        lemma_trunc_mul(ppow(self@, i), self@, order as int); lemma_mul_comm(ppow(self@, i), self@); }
@fn polynomial::Polynomial::to_q_power_coef
@@props C15
@@spec
    requires canon(self@), forall|k: MV| #[trigger] self@.contains_key(k) ==> k.x == 0 && k.y == 0
    ensures vr@ == pqcoef(self@, power as int)
@@pre 0
    proof { broadcast use poly_cf; lemma_psum_canon(self@, qcf(power as int)); lemma_padd_0(pqcoef(self@, power as int)); }
@@loop 0
    invariant padd(pol@, psum($it0.rest(), qcf(power as int))) == pqcoef(self@, power as int), canon(pol@), canon($it0.rest()), $it0.rest().submap_of(self@), canon(self@),
        forall|k: MV| #[trigger] self@.contains_key(k) ==> k.x == 0 && k.y == 0,
        forall|j: MV| #[trigger] $it0.rest().contains_key(j) && j.q == power ==> !pol@.contains_key(qz(j))
@@start 0
    let ghost p00 = pol@; let ghost k00 = m.dv(); let ghost c00 = coef@;
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); lemma_psum_step(pol@, $o0.rest(), qcf(power as int), m.dv()); lemma_peel($o0.rest(), m.dv());
        if k00.q == power { lemma_addterm(pol@, qz(k00), c00); } else { lemma_padd_0(pol@); } }
@@end 0
    assert(k00.q == power ==> pol@ =~= addterm(p00, qz(k00), c00));
@@after 0
    proof { lemma_padd_0(pol@); }
@fn polynomial::Polynomial::to_variable_coef
@@props C15
@@spec
    requires canon(self@), forall|k: MV| #[trigger] self@.contains_key(k) ==> k.x == 0 && k.y == 0 && k.q == 0
    ensures vr@ == cf(self@, variable.mv())
@@loop 0
    invariant $it0.rest().submap_of(self@), forall|k: MV| #[trigger] self@.contains_key(k) && !$it0.rest().contains_key(k) ==> k != variable.mv(), forall|k: MV| #[trigger] self@.contains_key(k) ==> k.x == 0 && k.y == 0 && k.q == 0
@@start 0
    proof { assert(self@.contains_key(m.dv())); lemma_sub_rm($o0.rest(), self@, m.dv()); }
@fn polynomial::Polynomial::polynomial_modular
@@props C11
@@spec
    requires is_prime_spec(p@), canon(self@), novar(self@), good(other@, p@)
    ensures is_rem(self@, vr@, other@, p@), xnonneg(self@) ==> xnonneg(vr@)
@@begin
    let ghost mut gq: PM = p0();
    proof { lemma_reminv_init(self@, other@, p@); lemma_lead(other@); }
@@loop 0
    invariant_except_break canon(r@), novar(r@), reminv(self@, r@, other@, gq, p@), xonly(self@) ==> xonly(r@), xnonneg(self@) ==> xnonneg(r@)
    invariant is_prime_spec(p@), good(other@, p@), oh.m() == lead(other@), oh.c() == lc(other@)
    ensures canon(r@), novar(r@), reminv(self@, r@, other@, gq, p@), xonly(self@) ==> xonly(r@), xnonneg(self@) ==> xnonneg(r@), forall|k: MV| #[trigger] r@.contains_key(k) ==> k.x < lead(other@).x
    decreases mea(r@, 0), mea(r@, 1), mea(r@, 2)
@@start 0
    proof {
        broadcast use poly_cf;
        lemma_lead(other@);
        let (l, o) = (lead(r@), lead(other@));
        if r@ != p0() {
            lemma_lead(r@);
            if l.x >= o.x {
                let inv = invp(lc(other@), p@); let t = mdiv(l, o); let c = r@[l] * inv;
                lemma_invp(lc(other@), p@);
                lemma_divstep(r@, other@, t, c, inv, p@);
                lemma_reminv_step(self@, r@, other@, gq, t, c, p@);
                gq = padd(gq, mono(t, c % p@));
                let n = divstep(r@, other@, t, c, p@);
                if n != p0() { lemma_lead(n); }
            } else {
                assert forall|k: MV| #[trigger] r@.contains_key(k) implies k.x < o.x by { assert(k == l || mlt(k, l)); }
            }
        }
    }
@@after 0
    proof { lemma_reminv_last(self@, r@, other@, gq, p@); lemma_pmod_keys(r@, p@); }
@fn polynomial::Polynomial::to_monic
@@props C11
@@spec
    requires is_prime_spec(p@), canon(self@), self@ == p0() || (novar(self@) && !divides(p@, lc(self@)))
    ensures self@ == p0() ==> vr@ == p0(), self@ != p0() ==> is_monic_form(vr@, self@, invp(lc(self@), p@), p@)
@@begin
    proof { if self@ != p0() { lemma_lead(self@); lemma_invp(lc(self@), p@); lemma_novar_fit(self@, invp(lc(self@), p@)); } }
@fn polynomial::Polynomial::gcd
@@props C11
@@spec
    requires is_prime_spec(p@), good(self@, p@), good(other@, p@)
    ensures is_gcd(vr@, self@, other@, p@)
    decreases lead(other@).x, lead(self@).x + 1
@@begin
    proof { lemma_lead(self@); lemma_lead(other@); lemma_xonly_novar(self@); lemma_xonly_novar(other@);
        lemma_invp(lc(other@), p@);
        assert forall|g: PM| is_gcd(g, other@, self@, p@) implies #[trigger] is_gcd(g, self@, other@, p@) by { lemma_gcd_sym(g, other@, self@, p@); }
        assert forall|r: PM| r != p0() && #[trigger] is_rem(self@, r, other@, p@) implies good(r, p@) && 0 <= lead(r).x < lead(other@).x by { lemma_reduced_good(r, p@); lemma_lead(r); }
        assert forall|r: PM, g: PM| is_rem(self@, r, other@, p@) && #[trigger] is_gcd(g, other@, r, p@) implies is_gcd(g, self@, other@, p@) by { lemma_gcd_rem(g, self@, other@, r, p@); }
        assert forall|g: PM| is_rem(self@, p0(), other@, p@) && #[trigger] is_monic_form(g, other@, invp(lc(other@), p@), p@) implies is_gcd(g, self@, other@, p@) by { lemma_gcd_base(g, self@, other@, p0(), invp(lc(other@), p@), p@); }
    }
@fn polynomial::Polynomial::is_gcd_one
@@props C11
@@spec
    requires is_prime_spec(p@), good(self@, p@), good(other@, p@)
    ensures exists|g: PM| #[trigger] is_gcd(g, self@, other@, p@) && vr == (g == p1())
@impl polynomial::Polynomial:Display
    open spec fn fmt_req(&self) -> bool { canon(self@) && self@.len() < 0x7fff_ffff }
    open spec fn text(&self) -> Seq<char> { crate::text::pol_text(self@) }
@fn polynomial::Polynomial:Display::fmt
@@props C26
@@begin
    proof { crate::text::lemma_lits(); assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); } }
@@loop 0
    invariant $it0.rest().submap_of(self@), canon(self@), self@ != p0(), self@.len() < 0x7fff_ffff, crate::text::printed(st@, self@, $it0.rest()), i + $it0.rest().len() == self@.len(), 0 <= i, i == 0 <==> $it0.rest() == self@,
        "+ "@ == seq!['+', ' '], " "@ == crate::text::sp(), forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s
@@start 0
    proof { crate::text::lemma_print(st@, self@, $o0.rest(), m.dv()); lemma_sub_rm($o0.rest(), self@, m.dv()); assert(self@.contains_key(m.dv())); }
@@after 0
    proof { crate::text::lemma_printed(st@, self@); }
