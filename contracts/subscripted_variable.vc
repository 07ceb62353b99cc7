@module subscripted_variable
impl SubscriptedVariable {
    /// the variable as a monomial: the empty one is 1, c_i_j is (1, i, j)
    pub open spec fn mv(&self) -> MV { if self.empty { m1() } else { MV { x: 0, y: 0, q: 0, vn: 1, vi: self.i as int, vj: self.j as int } } }
}
/// the numbers of variables c_i_j with i < j and i below i0: p + (p-1) + ...
pub open spec fn svrow(p: int, i0: int) -> int decreases i0 { if i0 <= 0 { 0 } else { svrow(p, i0 - 1) + (p - (i0 - 1)) } }
pub open spec fn svcount(p: int) -> int { svrow(p, p) + p + 1 }
/// the index of c_i_j: off-diagonal variables first, in lexicographic order, then the diagonal ones
pub open spec fn svidx(p: int, i: int, j: int) -> int { if i == j { svrow(p, p) + i } else { svrow(p, i) + (j - i - 1) } }
pub open spec fn svok(p: int) -> bool { 1 <= p <= 65534 }
pub open spec fn svvar(p: int, v: SubscriptedVariable) -> bool { !v.empty && 0 <= v.i <= v.j <= p }
pub open spec fn svbase(p: int) -> bool {
    &&& svrow(p, 0) == 0 && svrow(p, p + 1) == svrow(p, p) && 2 * svcount(p) == (p + 1) * (p + 2) && svcount(p) <= 0x7fff_ffff
    &&& forall|i: int| 0 <= i <= p ==> svrow(p, i + 1) == #[trigger] svrow(p, i) + (p - i)
    &&& forall|i: int| 0 <= i <= p + 1 ==> 0 <= #[trigger] svrow(p, i) <= svrow(p, p)
}
pub proof fn lemma_svrow_closed(p: int, i: int) requires 0 <= i <= p + 1 ensures 2 * svrow(p, i) == i * (2 * p - i + 1) decreases i {
    if i > 0 { lemma_svrow_closed(p, i - 1); assert((i - 1) * (2 * p - (i - 1) + 1) + 2 * (p - (i - 1)) == i * (2 * p - i + 1)) by (nonlinear_arith); } else { assert(0 * (2 * p + 1) == 0); }
}
pub proof fn lemma_svrow_mono(p: int, i: int, j: int) requires 0 <= i <= j <= p + 1 ensures 0 <= svrow(p, i) <= svrow(p, j) decreases j - i, j {
    if i < j { lemma_svrow_mono(p, i, j - 1); } else if i > 0 { lemma_svrow_mono(p, i - 1, i - 1); }
}
pub proof fn lemma_svrow(p: int) requires svok(p) ensures svbase(p) {
    lemma_svrow_closed(p, p);
    assert(p * (2 * p - p + 1) + 2 * p + 2 == (p + 1) * (p + 2)) by (nonlinear_arith);
    assert((p + 1) * (p + 2) <= 65535 * 65536) by (nonlinear_arith) requires 1 <= p <= 65534;
    assert forall|i: int| 0 <= i <= p + 1 implies 0 <= #[trigger] svrow(p, i) <= svrow(p, p) by { if i <= p { lemma_svrow_mono(p, i, p); } else { lemma_svrow_mono(p, 0, p); } }
}
pub proof fn lemma_sv_range(p: int, i: int, j: int) requires svok(p), 0 <= i <= j <= p
    ensures 0 <= svidx(p, i, j) < svcount(p), i < j ==> svrow(p, i) <= svidx(p, i, j) < svrow(p, i + 1) <= svrow(p, p), i == j ==> svidx(p, i, j) >= svrow(p, p)
{
    lemma_svrow_mono(p, 0, i);
    lemma_svrow_mono(p, 0, p);
    if i < j { lemma_svrow_mono(p, i + 1, p); }
}
/// the numbering is an order-preserving bijection between the variables and the indices below the count
pub proof fn lemma_sv_bijection(p: int, v: SubscriptedVariable, w: SubscriptedVariable) requires svok(p), svvar(p, v), svvar(p, w)
    ensures 0 <= svidx(p, v.i as int, v.j as int) < svcount(p),
        svidx(p, v.i as int, v.j as int) == svidx(p, w.i as int, w.j as int) ==> v == w,
        v.i < v.j && w.i == w.j ==> svidx(p, v.i as int, v.j as int) < svidx(p, w.i as int, w.j as int),
        v.i < v.j && w.i < w.j && (v.i < w.i || v.i == w.i && v.j < w.j) ==> svidx(p, v.i as int, v.j as int) < svidx(p, w.i as int, w.j as int),
        v.i == v.j && w.i == w.j && v.i < w.i ==> svidx(p, v.i as int, v.j as int) < svidx(p, w.i as int, w.j as int),
{
    lemma_sv_range(p, v.i as int, v.j as int);
    lemma_sv_range(p, w.i as int, w.j as int);
    if v.i < w.i { lemma_svrow_mono(p, v.i + 1, w.i as int); }
    if w.i < v.i { lemma_svrow_mono(p, w.i + 1, v.i as int); }
}
@fn subscripted_variable::SubscriptedVariable:Clone::clone
@@props C05
@fn subscripted_variable::SubscriptedVariable::new
@@props C05
@@spec
    ensures vr.empty
@fn subscripted_variable::SubscriptedVariable:Default::default
@@props C05
@@spec
    ensures vr.empty
@fn subscripted_variable::SubscriptedVariable:PartialEq::eq
@@props C05
@@opspec self.mv() == rhs.mv()
@impl subscripted_variable::SubscriptedVariable:Eq
@fn subscripted_variable::SubscriptedVariable:Ord::cmp
@@props C05
@@opspec mcmp(self.mv(), rhs.mv())
@fn subscripted_variable::SubscriptedVariable:PartialOrd::partial_cmp
@@props C05
@@opspec Some(mcmp(self.mv(), rhs.mv()))
@fn subscripted_variable::SubscriptedVariableConverter::new
@@props C24
@@spec
    requires is_prime_spec(p as int)
    ensures vr.p == p
@fn subscripted_variable::SubscriptedVariableConverter::count
@@props C24
@@spec
    requires svok(self.p as int)
    ensures 2 * vr == (self.p + 1) * (self.p + 2), vr == svcount(self.p as int)
@@begin
    proof { lemma_svrow(self.p as int); }
@@loop 0
    invariant svok(self.p as int), $it0.end@ == self.p + 1, 0 <= $it0.cur@ <= self.p + 1, index == svrow(self.p as int, $it0.cur@), svbase(self.p as int)
@@loop 1
    invariant svok(self.p as int), $it1.end@ == self.p + 1, 0 <= i <= self.p, i + 1 <= $it1.cur@ <= self.p + 1, index == svrow(self.p as int, i as int) + $it1.cur@ - i - 1, svbase(self.p as int)
@@loop 2
    invariant svok(self.p as int), $it2.end@ == self.p + 1, 0 <= $it2.cur@ <= self.p + 1, index == svrow(self.p as int, self.p as int) + $it2.cur@, svbase(self.p as int)
@fn subscripted_variable::SubscriptedVariableConverter::index_from_variable
@@props C24
@@spec
    requires svok(self.p as int), variable.empty || svvar(self.p as int, variable)
    ensures variable.empty ==> vr is None, !variable.empty ==> vr == Some(svidx(self.p as int, variable.i as int, variable.j as int) as u64) && svidx(self.p as int, variable.i as int, variable.j as int) < svcount(self.p as int)
@@begin
    proof { lemma_svrow(self.p as int); }
@@loop 0
    invariant svok(self.p as int), $it0.end@ == self.p + 1, 0 <= $it0.cur@ <= self.p + 1, index == svrow(self.p as int, $it0.cur@), svbase(self.p as int), !variable.empty, svvar(self.p as int, variable), variable.i < variable.j ==> $it0.cur@ <= variable.i
@@loop 1
    invariant svok(self.p as int), $it1.end@ == self.p + 1, 0 <= i <= self.p, i + 1 <= $it1.cur@ <= self.p + 1, index == svrow(self.p as int, i as int) + $it1.cur@ - i - 1, svbase(self.p as int), !variable.empty, svvar(self.p as int, variable), variable.i < variable.j ==> i <= variable.i, variable.i < variable.j && variable.i == i ==> $it1.cur@ <= variable.j
@@loop 2
    invariant svok(self.p as int), $it2.end@ == self.p + 1, 0 <= $it2.cur@ <= self.p + 1, index == svrow(self.p as int, self.p as int) + $it2.cur@, svbase(self.p as int), !variable.empty, svvar(self.p as int, variable), variable.i == variable.j, $it2.cur@ <= variable.i
@fn subscripted_variable::SubscriptedVariableConverter::variable_from_index
@@props C24
@@spec
    requires svok(self.p as int), index < svcount(self.p as int)
    ensures svvar(self.p as int, vr), svidx(self.p as int, vr.i as int, vr.j as int) == index
@@begin
    proof { lemma_svrow(self.p as int); }
@@loop 0
    invariant svok(self.p as int), $it0.end@ == self.p + 1, 0 <= $it0.cur@ <= self.p + 1, local_index == svrow(self.p as int, $it0.cur@), svbase(self.p as int), index < svcount(self.p as int), local_index <= index
@@loop 1
    invariant svok(self.p as int), $it1.end@ == self.p + 1, 0 <= i <= self.p, i + 1 <= $it1.cur@ <= self.p + 1, local_index == svrow(self.p as int, i as int) + $it1.cur@ - i - 1, svbase(self.p as int), index < svcount(self.p as int), local_index <= index
@@loop 2
    invariant svok(self.p as int), $it2.end@ == self.p + 1, 0 <= $it2.cur@ <= self.p + 1, local_index == svrow(self.p as int, self.p as int) + $it2.cur@, svbase(self.p as int), index < svcount(self.p as int), local_index <= index
@impl subscripted_variable::SubscriptedVariable:Display
    open spec fn fmt_req(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { crate::text::vtext(self.mv()) }
@fn subscripted_variable::SubscriptedVariable:Display::fmt
@@props C26
@@begin
    broadcast use crate::text::cat;
    proof { crate::text::lemma_lits(); }
