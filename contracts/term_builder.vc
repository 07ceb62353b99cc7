@module term_builder
@trait term_builder::TermBuildable
@traitfn term_builder::TermBuildable::coef
@fn term_builder::TermBuilder:Clone::clone
@@props C06
@fn term_builder::TermBuilder:Default::default
@@props C06
@@spec
    ensures vr.coef_@ == 0, vr.xpow_ == 0, vr.ypow_ == 0, vr.qpow_ == 0, vr.variable_.empty
@impl term_builder::TermBuilder:TermBuildable<&BigInt>
@fn term_builder::TermBuilder:TermBuildable<&BigInt>::coef
@@props C06
@@spec
    ensures *final(self) == *final(vr), vr.coef_@ == coef@, *vr == (TermBuilder { coef_: vr.coef_, ..*old(self) })
@fn term_builder::TermBuilder:TermBuildable<BigInt>::coef
@@props C06
@like term_builder::TermBuilder:TermBuildable<&BigInt>::coef
@fn term_builder::TermBuilder:TermBuildable<i32>::coef
@@props C06
@@spec
    ensures *final(self) == *final(vr), vr.coef_@ == coef, *vr == (TermBuilder { coef_: vr.coef_, ..*old(self) })
@fn term_builder::TermBuilder::new
@@props C06
@@spec
    ensures vr.coef_@ == 1, vr.xpow_ == 0, vr.ypow_ == 0, vr.qpow_ == 0, vr.variable_.empty
@fn term_builder::TermBuilder::xpow
@@props C06
@@spec
    ensures *final(self) == *final(vr), *vr == (TermBuilder { xpow_: xpow, ..*old(self) })
@fn term_builder::TermBuilder::ypow
@@props C06
@@spec
    ensures *final(self) == *final(vr), *vr == (TermBuilder { ypow_: ypow, ..*old(self) })
@fn term_builder::TermBuilder::qpow
@@props C06
@@spec
    ensures *final(self) == *final(vr), *vr == (TermBuilder { qpow_: qpow, ..*old(self) })
@fn term_builder::TermBuilder::variable
@@props C06
@@spec
    ensures *final(self) == *final(vr), vr.variable_.mv() == variable.mv(), *vr == (TermBuilder { variable_: vr.variable_, ..*old(self) })
@fn term_builder::TermBuilder::variable_ij
@@props C06
@@spec
    requires i >= 0, j >= 0
    ensures *final(self) == *final(vr), !vr.variable_.empty, vr.variable_.i == i, vr.variable_.j == j, *vr == (TermBuilder { variable_: vr.variable_, ..*old(self) })
@fn term_builder::TermBuilder::build
@@props C06
@@spec
    ensures vr.coef@ == self.coef_@, vr.monomial.xpow == self.xpow_, vr.monomial.ypow == self.ypow_, vr.monomial.qpow == self.qpow_, vr.monomial.variable.mv() == self.variable_.mv()
