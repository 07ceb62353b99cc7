@module term
impl DV for Monomial { type D = MV; open spec fn dv(&self) -> MV { let v = self.variable.mv(); MV { x: self.xpow as int, y: self.ypow as int, q: self.qpow as int, vn: v.vn, vi: v.vi, vj: v.vj } } }
impl Term {
    pub open spec fn c(&self) -> int { self.coef@ }
    pub open spec fn m(&self) -> MV { self.monomial.dv() }
    pub open spec fn pv(&self) -> PM { mono(self.m(), self.c()) }
}
@fn term::Term:Clone::clone
@@props C05
@fn term::Monomial:Clone::clone
@@props C05
@fn term::Term:PartialEq::eq
@@props C05
@@opspec self.coef@ == rhs.coef@ && self.monomial.dv() == rhs.monomial.dv()
@fn term::Monomial:PartialEq::eq
@@props C05
@@opspec self.dv() == rhs.dv()
@fn term::Monomial:Ord::cmp
@@props C05
@@opspec mcmp(self.dv(), rhs.dv())
@fn term::Monomial:PartialOrd::partial_cmp
@@props C05
@@opspec Some(mcmp(self.dv(), rhs.dv()))
@fn term::Term:Ord::cmp
@@props C05
@@opspec mcmp(self.monomial.dv(), rhs.monomial.dv())
@fn term::Term:PartialOrd::partial_cmp
@@props C05
@@opspec Some(mcmp(self.monomial.dv(), rhs.monomial.dv()))
@impl term::Term:One
    open spec fn one_req() -> bool { true }
    open spec fn one_is(r: Term) -> bool { r.c() == 1 && r.m() == m1() }
@fn term::Term:One::one
@@props C08
@fn term::op+(Term,Term)
@@props C06
@@opspec polynomial::pl(padd($l.pv(), $r.pv()))
@fn term::op-(Term,Term)
@@props C06
@@opspec polynomial::pl(psub($l.pv(), $r.pv()))
@@begin
    proof { broadcast use poly_cf; lemma_ext(mono(b.m(), -b.c()), pneg(b.pv())); }
@fn term::neg(Term)
@@props C06
@@opreq true
@@spec
    ensures vr.c() == -self.c(), vr.m() == self.m(),
@fn term::op*(Term,Term)
@@props C07
@@opreq mfit(mmul($l.m(), $r.m()))
@@spec
    ensures vr.c() == self.c() * b.c(), vr.m() == mmul(self.m(), b.m())
@fn term::op/(Term,Term)
@@props C09
@@opreq $r.m().vn == 0 && $r.c() != 0 && mfit(mdiv($l.m(), $r.m()))
@@spec
    ensures vr.c() == fdiv(self.c(), b.c()), vr.m() == mdiv(self.m(), b.m())
@impl term::Term:Power<i32>
    open spec fn power_req(&self, n: i32) -> bool { self.m().vn == 0 && n >= 0 && mfit(mpow(self.m(), n as int)) }
    open spec fn power_ok(&self, n: i32, vr: Term) -> bool { vr.c() == pow(self.c(), n as int) && vr.m() == mpow(self.m(), n as int) }
@fn term::Term:Power<i32>::power
@@props C08
@impl term::Term:Power<BigInt>
    open spec fn power_req(&self, n: BigInt) -> bool { self.m().vn == 0 && 0 <= n@ <= 0x7fff_ffff && mfit(mpow(self.m(), n@)) }
    open spec fn power_ok(&self, n: BigInt, vr: Term) -> bool { vr.c() == pow(self.c(), n@) && vr.m() == mpow(self.m(), n@) }
@fn term::Term:Power<BigInt>::power
@@props C08
@impl term::Term:Power<&BigInt>
    open spec fn power_req(&self, n: &'a BigInt) -> bool { self.m().vn == 0 && 0 <= n@ <= 0x7fff_ffff && mfit(mpow(self.m(), n@)) }
    open spec fn power_ok(&self, n: &'a BigInt, vr: Term) -> bool { vr.c() == pow(self.c(), n@) && vr.m() == mpow(self.m(), n@) }
@fn term::Term:Power<&BigInt>::power
@@props C08
@@begin
    proof { lemma_mpow_vn0(self.m(), n@); }
@fn term::Monomial::eval_xy
@@props C12
@@spec
    requires self.xpow >= 0, self.ypow >= 0
    ensures vr@ == pow(x@, self.xpow as int) * pow(y@, self.ypow as int)
@fn term::Monomial::eval_q
@@props C15
@@spec
    requires self.qpow >= 0, i32ok(pow(q as int, self.qpow as int))
    ensures vr == pow(q as int, self.qpow as int)
@fn term::Term::from
@@props C06
@@spec
    ensures vr.c() == coef@, vr.m() == monomial.dv()
@fn term::Term::xpow
@@props C15
@@spec
    ensures vr == self.m().x
@fn term::Term::ypow
@@props C15
@@spec
    ensures vr == self.m().y
@fn term::Term::qpow
@@props C15
@@spec
    ensures vr == self.m().q
@fn term::Term::variable
@@props C15
@@spec
    ensures vr.mv() == self.monomial.variable.mv()
@fn term::Term::new
@@props C06
@@spec
    ensures vr.c() == 0, vr.m() == m1()
@fn term::Term::to_pol
@@props C06
@@spec
    ensures vr@ == self.pv()
@fn term::Term::is_equal_order
@@props C05
@@spec
    ensures vr == (self.m().x == other.m().x && self.m().y == other.m().y && self.m().q == other.m().q)
@fn term::Term::power_modulo
@@props C10
@@spec
    requires 0 <= n@ <= 0x7fff_ffff, p@ >= 2, i32ok(self.m().x * n@), i32ok(self.m().y * n@), i32ok(self.m().q * n@)
    ensures vr.c() == pow(self.c(), n@) % p@, vr.m().x == self.m().x * n@, vr.m().y == self.m().y * n@, vr.m().q == self.m().q * n@,
        vr.monomial.variable.mv() == self.monomial.variable.mv()
@fn term::Term::to_frob
@@props C13
@@spec
    requires i32ok(self.m().x * n), i32ok(self.m().y * n)
    ensures vr.c() == self.c(), vr.m() == frobm(self.m(), n as int)
@fn term::Term::to_y_power
@@props C13
@@spec
    requires i32ok(self.m().y * n)
    ensures vr.c() == self.c(), vr.m() == ypowm(self.m(), n as int)
@fn term::Term::to_q_power
@@props C13
@@spec
    requires i32ok(self.m().q * n)
    ensures vr.c() == self.c(), vr.m() == qpowm(self.m(), n as int)
@fn term::Term::modulo
@@props C10
@@spec
    requires n@ > 0
    ensures vr.c() == self.c() % n@, vr.m() == self.m()
@@begin
    proof { lemma_fmod(self.c(), n@); }
@fn term::Term::modular_assign
@@props C10
@@spec
    requires n@ > 0
    ensures final(self).c() == old(self).c() % n@, final(self).m() == old(self).m()
@@begin
    proof { lemma_fmod(self.c(), n@); }
@fn term::Term::has_x
@@props C15
@@spec
    ensures vr == (self.m().x != 0)
@fn term::Term::has_y
@@props C15
@@spec
    ensures vr == (self.m().y != 0)
@fn term::Term::has_q
@@props C15
@@spec
    ensures vr == (self.m().q != 0)
@fn term::Term::derivative_x
@@props C13
@@spec
    requires self.m().x >= 0
    ensures vr.c() == self.c() * self.m().x, self.m().x > 0 ==> vr.m() == mdiv(self.m(), mk(1, 0, 0))
@@begin
    proof { assert(self.c() * 0 == 0); }
@fn term::Term::derivative_y
@@props C13
@@spec
    requires self.m().y >= 0
    ensures vr.c() == self.c() * self.m().y, self.m().y > 0 ==> vr.m() == mdiv(self.m(), mk(0, 1, 0))
@@begin
    proof { assert(self.c() * 0 == 0); }
@fn term::Monomial::eval_x_polynomial
@@props C12
@@spec
    requires self.xpow >= 0, canon(polynomial@), powfit(polynomial@, self.xpow as int), mulfit(ppow(polynomial@, self.xpow as int), mono(xz(self.dv()), 1))
    ensures vr@ == pscale(ppow(polynomial@, self.xpow as int), xz(self.dv()), 1)
@@begin
    proof { broadcast use lemma_canon_mono; lemma_canon_ppow(polynomial@, self.xpow as int); lemma_mul_mono_r(ppow(polynomial@, self.xpow as int), xz(self.dv()), 1); }
@fn term::Term::eval_x_polynomial
@@props C12
@@spec
    requires self.m().x >= 0, canon(polynomial@), powfit(polynomial@, self.m().x), mulfit(ppow(polynomial@, self.m().x), mono(xz(self.m()), 1))
    ensures vr@ == pscale(ppow(polynomial@, self.m().x), xz(self.m()), self.c())
@@begin
    proof { broadcast use poly_cf; let q = ppow(polynomial@, self.m().x); lemma_sub_scalar(q, xz(self.m()), self.c()); lemma_mul_comm(pscale(q, xz(self.m()), 1), mono(m1(), self.c()));
        lemma_mulfit_sym(pscale(q, xz(self.m()), 1), mono(m1(), self.c())); }
@fn term::Monomial::eval_y_polynomial
@@props C12
@@spec
    requires self.ypow >= 0, canon(polynomial@), powfit(polynomial@, self.ypow as int), mulfit(ppow(polynomial@, self.ypow as int), mono(yz(self.dv()), 1))
    ensures vr@ == pscale(ppow(polynomial@, self.ypow as int), yz(self.dv()), 1)
@@begin
    proof { broadcast use lemma_canon_mono; lemma_canon_ppow(polynomial@, self.ypow as int); lemma_mul_mono_r(ppow(polynomial@, self.ypow as int), yz(self.dv()), 1); }
@fn term::Term::eval_y_polynomial
@@props C12
@@spec
    requires self.m().y >= 0, canon(polynomial@), powfit(polynomial@, self.m().y), mulfit(ppow(polynomial@, self.m().y), mono(yz(self.m()), 1))
    ensures vr@ == pscale(ppow(polynomial@, self.m().y), yz(self.m()), self.c())
@@begin
    proof { broadcast use poly_cf; let q = ppow(polynomial@, self.m().y); lemma_sub_scalar(q, yz(self.m()), self.c()); lemma_mul_comm(pscale(q, yz(self.m()), 1), mono(m1(), self.c()));
        lemma_mulfit_sym(pscale(q, yz(self.m()), 1), mono(m1(), self.c())); }
@impl term::Term:Display
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { crate::text::term_text(self.m(), self.c()) }
@fn term::Term:Display::fmt
@@props C26
@@begin
    proof {
        crate::text::lemma_lits();
        crate::text::lemma_term_raw(self.m(), self.c());
        crate::text::lemma_word_mono(self.m());
        crate::text::lemma_push(self.m(), self.c());
    }
