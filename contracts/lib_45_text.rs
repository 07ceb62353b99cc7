// What the Display implementations print.  Everything here is proved.
use crate::arith::*;
use crate::poly::*;
use crate::vx::*;
pub open spec fn sp() -> Seq<char> { seq![' '] }
/// two words separated by one space; an empty word leaves no space
pub open spec fn spaced(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else if b.len() == 0 { a } else { a + sp() + b } }
/// a power of the variable v: nothing for exponent 0, v for 1, v^e otherwise
pub open spec fn powtext(v: char, e: int) -> Seq<char> { if e == 0 { seq![] } else if e == 1 { seq![v] } else { seq![v, '^'] + itext(e) } }
/// c_i_j, nothing without a subscripted variable
pub open spec fn vtext(m: MV) -> Seq<char> { if m.vn == 0 { seq![] } else { seq!['c', '_'] + itext(m.vi) + seq!['_'] + itext(m.vj) } }
pub open spec fn mono_text(m: MV) -> Seq<char> { spaced(powtext('x', m.x), spaced(powtext('y', m.y), spaced(powtext('q', m.q), vtext(m)))) }
pub open spec fn sign_text(c: int) -> Seq<char> { if c < 0 { seq!['-', ' '] } else { seq![] } }
/// sign, absolute value (left out when it is 1 and a monomial follows), monomial
pub open spec fn term_text(m: MV, c: int) -> Seq<char> {
    sign_text(c) + spaced(if (c == 1 || c == -1) && mono_text(m).len() > 0 { seq![] } else { itext(if c < 0 { -c } else { c }) }, mono_text(m))
}
/// the greatest monomial
pub open spec fn top(p: PM) -> MV { choose|k: MV| #[trigger] p.contains_key(k) && is_greatest(k, p) }
/// the terms after the first: separated by a space, with a plus sign before a positive one
pub open spec fn rest_text(p: PM) -> Seq<char> decreases p.len() {
    if p.len() == 0 || !p.contains_key(top(p)) { seq![] }
    else { sp() + (if p[top(p)] > 0 { seq!['+', ' '] } else { seq![] }) + term_text(top(p), p[top(p)]) + rest_text(p.remove(top(p))) }
}
/// the terms from the greatest monomial down
pub open spec fn pol_text(p: PM) -> Seq<char> { if p == p0() { seq!['0'] } else { term_text(top(p), p[top(p)]) + rest_text(p.remove(top(p))) } }
pub open spec fn point_text(inf: bool, x: int, y: int) -> Seq<char> { if inf { seq!['O'] } else { seq!['('] + itext(x) + seq![',', ' '] + itext(y) + seq![')'] } }

pub open spec fn curve_text(p: int, pol: Seq<char>, n: int, j: int) -> Seq<char> { "F_"@ + itext(p) + ": y^2 = "@ + pol + ", cardinality:"@ + itext(n) + ", j:"@ + itext(j) }

// ---- lemmas
/// ends in something that trimming keeps
pub open spec fn solid(s: Seq<char>) -> bool { s.len() > 0 && !is_ws(s.last()) }
pub proof fn lemma_solid_dtext(n: nat) ensures solid(dtext(n)) { reveal_with_fuel(dtext, 2); }
pub broadcast proof fn lemma_solid_itext(i: int) ensures solid(#[trigger] itext(i)) { lemma_solid_dtext(i as nat); lemma_solid_dtext((-i) as nat); if i < 0 { assert(itext(i).last() == dtext((-i) as nat).last()); } }
pub broadcast proof fn lemma_trim_solid(s: Seq<char>) requires solid(s) ensures #[trigger] trimmed(s) == s {}
pub proof fn lemma_trim_empty() ensures #[trigger] trimmed(Seq::<char>::empty()) == Seq::<char>::empty() {}
pub broadcast proof fn lemma_trim_sp(s: Seq<char>) ensures #[trigger] trimmed(s + sp()) == trimmed(s) { assert((s + sp()).drop_last() =~= s); assert((s + sp()).last() == ' '); }
pub broadcast proof fn lemma_solid_add(a: Seq<char>, b: Seq<char>) requires solid(b) ensures solid(#[trigger] (a + b)) {}
pub open spec fn word(s: Seq<char>) -> bool { s.len() == 0 || solid(s) }
pub broadcast proof fn lemma_word_powtext(v: char, e: int) requires !is_ws(v) ensures word(#[trigger] powtext(v, e)), powtext(v, e).len() == 0 <==> e == 0 { broadcast use lemma_solid_itext; if e != 0 && e != 1 { lemma_solid_add(seq![v, '^'], itext(e)); } }
pub broadcast proof fn lemma_word_vtext(m: MV) ensures word(#[trigger] vtext(m)), vtext(m).len() == 0 <==> m.vn == 0 { broadcast use lemma_solid_itext; if m.vn != 0 { lemma_solid_add(seq!['c', '_'] + itext(m.vi) + seq!['_'], itext(m.vj)); } }
pub broadcast proof fn lemma_word_spaced(a: Seq<char>, b: Seq<char>) requires word(a), word(b) ensures word(#[trigger] spaced(a, b)), spaced(a, b).len() == 0 <==> a.len() == 0 && b.len() == 0 { if a.len() > 0 && b.len() > 0 { lemma_solid_add(a + sp(), b); } }
pub proof fn lemma_word_mono(m: MV) ensures word(mono_text(m)), mono_text(m).len() == 0 <==> m.x == 0 && m.y == 0 && m.q == 0 && m.vn == 0 { broadcast use {lemma_word_powtext, lemma_word_vtext, lemma_word_spaced}; }
pub broadcast proof fn lemma_solid_term(m: MV, c: int) ensures solid(#[trigger] term_text(m, c)) {
    broadcast use {lemma_solid_itext, lemma_word_spaced};
    lemma_word_mono(m);
    let a = if (c == 1 || c == -1) && mono_text(m).len() > 0 { seq![] } else { itext(if c < 0 { -c } else { c }) };
    lemma_solid_add(sign_text(c), spaced(a, mono_text(m)));
}
/// a word followed by a space, nothing for the empty word
pub open spec fn seg(s: Seq<char>) -> Seq<char> { if s.len() == 0 { seq![] } else { s + sp() } }
pub open spec fn raw(m: MV) -> Seq<char> { seg(powtext('x', m.x)) + seg(powtext('y', m.y)) + seg(powtext('q', m.q)) + vtext(m) }
/// appending words each followed by a space and trimming is joining them by spaces
pub proof fn lemma_seg(h: Seq<char>, w: Seq<char>, r: Seq<char>, j: Seq<char>) requires word(w), word(j), forall|g: Seq<char>| trimmed(#[trigger] (seg(g) + r)) == spaced(g, j) || !word(g)
    ensures word(h) ==> trimmed(seg(h) + (seg(w) + r)) == spaced(h, spaced(w, j))
{
    if word(h) {
        let h2 = spaced(h, w);
        lemma_word_spaced(h, w);
        assert(seg(h2) =~= seg(h) + seg(w));
        assert(seg(h) + (seg(w) + r) =~= seg(h2) + r);
        assert(spaced(h2, j) =~= spaced(h, spaced(w, j)));
    }
}
pub proof fn lemma_raw(h: Seq<char>, m: MV) requires word(h) ensures trimmed(seg(h) + raw(m)) == spaced(h, mono_text(m)) {
    broadcast use {lemma_word_powtext, lemma_word_vtext, lemma_word_spaced};
    let (x, y, q, v) = (powtext('x', m.x), powtext('y', m.y), powtext('q', m.q), vtext(m));
    let (jq, jy) = (spaced(q, v), spaced(y, spaced(q, v)));
    assert forall|g: Seq<char>| trimmed(#[trigger] (seg(g) + v)) == spaced(g, v) || !word(g) by {
        if word(g) {
            if v.len() == 0 { assert(seg(g) + v =~= seg(g)); assert(spaced(g, v) =~= g); if g.len() > 0 { lemma_trim_sp(g); lemma_trim_solid(g); } else { assert(seg(g) =~= Seq::<char>::empty()); lemma_trim_empty(); } }
            else { lemma_solid_add(seg(g), v); lemma_trim_solid(seg(g) + v); assert(seg(g) + v =~= spaced(g, v)); }
        }
    }
    assert forall|g: Seq<char>| trimmed(#[trigger] (seg(g) + (seg(q) + v))) == spaced(g, jq) || !word(g) by { lemma_seg(g, q, v, v); }
    assert forall|g: Seq<char>| trimmed(#[trigger] (seg(g) + (seg(y) + (seg(q) + v)))) == spaced(g, jy) || !word(g) by { lemma_seg(g, y, seg(q) + v, jq); }
    lemma_seg(h, x, seg(y) + (seg(q) + v), jy);
    assert(raw(m) =~= seg(x) + (seg(y) + (seg(q) + v)));
}
/// trimming does not reach into a prefix when what follows is not all white space
pub proof fn lemma_trim_prefix(a: Seq<char>, s: Seq<char>) requires trimmed(s).len() > 0 ensures trimmed(a + s) == a + trimmed(s) decreases s.len() {
    if s.len() > 0 {
        assert((a + s).last() == s.last());
        if is_ws(s.last()) { assert((a + s).drop_last() =~= a + s.drop_last()); lemma_trim_prefix(a, s.drop_last()); }
    }
}
/// what the code builds for a term
pub proof fn lemma_term_raw(m: MV, c: int) ensures
    c == 1 || c == -1 ==> mono_text(m).len() > 0 ==> trimmed(sign_text(c) + raw(m)) == term_text(m, c),
    c != 1 && c != -1 ==> trimmed(sign_text(c) + seg(itext(if c < 0 { -c } else { c })) + raw(m)) == term_text(m, c),
    m.x == 0 && m.y == 0 && m.q == 0 ==> mono_text(m) == vtext(m) && raw(m) == vtext(m)
{
    lemma_word_mono(m);
    let n = itext(if c < 0 { -c } else { c });
    lemma_solid_itext(if c < 0 { -c } else { c });
    let e = Seq::<char>::empty();
    lemma_raw(e, m); lemma_raw(n, m);
    assert(seg(e) + raw(m) =~= raw(m));
    if (c == 1 || c == -1) && mono_text(m).len() > 0 { lemma_trim_prefix(sign_text(c), raw(m)); }
    if c != 1 && c != -1 { lemma_word_spaced(n, mono_text(m)); lemma_trim_prefix(sign_text(c), seg(n) + raw(m)); assert(sign_text(c) + seg(n) + raw(m) =~= sign_text(c) + (seg(n) + raw(m))); }
    if m.x == 0 && m.y == 0 && m.q == 0 { assert(raw(m) =~= vtext(m)); }
}
/// the greatest key is unique, hence the one the iterator hands out
pub proof fn lemma_top(p: PM, k: MV) requires p.contains_key(k), is_greatest(k, p) ensures top(p) == k, p.len() > 0, p != p0() {
    broadcast use axiom_key_lt;
    let t = top(p);
    assert(p.contains_key(t) && is_greatest(t, p));
    if t != k { assert(key_lt(t, k) && key_lt(k, t)); assert(mlt(t, k) && mlt(k, t)); }
}
// ---- normal form of concatenations: nested to the left, without empty parts
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn lemma_add_e(a: Seq<char>) ensures #[trigger] (a + Seq::<char>::empty()) == a { assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn lemma_e_add(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group cat { lemma_assoc, lemma_add_e, lemma_e_add }
/// the literals of the Display implementations
pub proof fn lemma_lits() ensures ""@ == Seq::<char>::empty(), "0"@ == seq!['0'], "1"@ == seq!['1'], "- 1"@ == seq!['-', ' ', '1'], "- "@ == seq!['-', ' '], "+ "@ == seq!['+', ' '], " "@ == sp(), "O"@ == seq!['O'],
    "x"@ == seq!['x'], "y"@ == seq!['y'], "q"@ == seq!['q'], "x^"@ == seq!['x', '^'], "y^"@ == seq!['y', '^'], "q^"@ == seq!['q', '^'], "c_"@ == seq!['c', '_'], "_"@ == seq!['_'],
    "("@ == seq!['('], ", "@ == seq![',', ' '], ")"@ == seq![')'], "^"@ == seq!['^'],
    itext(1) == seq!['1'], seq!['-', ' '] + seq!['1'] == seq!['-', ' ', '1'], seq!['x'] + seq!['^'] == seq!['x', '^'], seq!['y'] + seq!['^'] == seq!['y', '^'], seq!['q'] + seq!['^'] == seq!['q', '^'],
{
    reveal_strlit(""); reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("- 1"); reveal_strlit("- "); reveal_strlit("+ "); reveal_strlit(" "); reveal_strlit("O");
    reveal_strlit("x"); reveal_strlit("y"); reveal_strlit("q"); reveal_strlit("x^"); reveal_strlit("y^"); reveal_strlit("q^"); reveal_strlit("c_"); reveal_strlit("_");
    reveal_strlit("("); reveal_strlit(", "); reveal_strlit(")"); reveal_strlit("^");
    assert(""@ =~= Seq::<char>::empty()); assert("0"@ =~= seq!['0']); assert("1"@ =~= seq!['1']); assert("- 1"@ =~= seq!['-', ' ', '1']); assert("- "@ =~= seq!['-', ' ']); assert("+ "@ =~= seq!['+', ' ']); assert(" "@ =~= sp()); assert("O"@ =~= seq!['O']);
    assert("x"@ =~= seq!['x']); assert("y"@ =~= seq!['y']); assert("q"@ =~= seq!['q']); assert("x^"@ =~= seq!['x', '^']); assert("y^"@ =~= seq!['y', '^']); assert("q^"@ =~= seq!['q', '^']); assert("c_"@ =~= seq!['c', '_']); assert("_"@ =~= seq!['_']);
    assert("("@ =~= seq!['(']); assert(", "@ =~= seq![',', ' ']); assert(")"@ =~= seq![')']); assert("^"@ =~= seq!['^']);
    reveal_with_fuel(dtext, 2);
    assert(itext(1) =~= seq!['1']);
    assert(seq!['-', ' '] + seq!['1'] =~= seq!['-', ' ', '1']);
    assert(seq!['x'] + seq!['^'] =~= seq!['x', '^']); assert(seq!['y'] + seq!['^'] =~= seq!['y', '^']); assert(seq!['q'] + seq!['^'] =~= seq!['q', '^']);
}

/// one factor pushed after another, each followed by a space
#[verifier::opaque]
pub open spec fn rx(s: Seq<char>, m: MV) -> Seq<char> { s + seg(powtext('x', m.x)) }
#[verifier::opaque]
pub open spec fn ry(s: Seq<char>, m: MV) -> Seq<char> { s + seg(powtext('y', m.y)) }
#[verifier::opaque]
pub open spec fn rq(s: Seq<char>, m: MV) -> Seq<char> { s + seg(powtext('q', m.q)) }
#[verifier::opaque]
pub open spec fn rv(s: Seq<char>, m: MV) -> Seq<char> { s + vtext(m) }
pub open spec fn rall(s: Seq<char>, m: MV) -> Seq<char> { rv(rq(ry(rx(s, m), m), m), m) }
#[verifier::opaque]
pub open spec fn rcoef(c: int) -> Seq<char> { sign_text(c) + seg(itext(if c < 0 { -c } else { c })) }
pub proof fn lemma_seg_pow(s: Seq<char>, v: char, e: int) ensures s + seg(powtext(v, e)) == (if e == 0 { s } else if e == 1 { s + seq![v] + sp() } else { s + seq![v, '^'] + itext(e) + sp() }) {
    if e == 0 { assert(s + seg(powtext(v, e)) =~= s); } else if e == 1 { assert(s + seg(powtext(v, e)) =~= s + seq![v] + sp()); } else { assert(s + seg(powtext(v, e)) =~= s + seq![v, '^'] + itext(e) + sp()); }
}
pub proof fn lemma_rx(s: Seq<char>, m: MV) ensures rx(s, m) == (if m.x == 0 { s } else if m.x == 1 { s + "x"@ + " "@ } else { s + "x^"@ + itext(m.x) + " "@ }) { lemma_lits(); reveal(rx); lemma_seg_pow(s, 'x', m.x); }
pub proof fn lemma_ry(s: Seq<char>, m: MV) ensures ry(s, m) == (if m.y == 0 { s } else if m.y == 1 { s + "y"@ + " "@ } else { s + "y^"@ + itext(m.y) + " "@ }) { lemma_lits(); reveal(ry); lemma_seg_pow(s, 'y', m.y); }
pub proof fn lemma_rq(s: Seq<char>, m: MV) ensures rq(s, m) == (if m.q == 0 { s } else if m.q == 1 { s + "q"@ + " "@ } else { s + "q^"@ + itext(m.q) + " "@ }) { lemma_lits(); reveal(rq); lemma_seg_pow(s, 'q', m.q); }
pub proof fn lemma_rv(s: Seq<char>, m: MV) ensures rv(s, m) == (if m.vn == 0 { s } else { s + vtext(m) }) { reveal(rv); assert(s + Seq::<char>::empty() =~= s); }
pub proof fn lemma_rall(s: Seq<char>, m: MV) ensures rall(s, m) == s + raw(m) {
    reveal(rx); reveal(ry); reveal(rq); reveal(rv);
    let (x, y, q, v) = (seg(powtext('x', m.x)), seg(powtext('y', m.y)), seg(powtext('q', m.q)), vtext(m));
    assert(s + x + y + q + v =~= s + (x + y + q + v));
}
pub proof fn lemma_rcoef(m: MV, c: int) requires c != 1 && c != -1 ensures
    rcoef(c) == (if c < 0 { Seq::<char>::empty() + "- "@ + itext(-c) + " "@ } else { Seq::<char>::empty() + itext(c) + " "@ }),
    trimmed(rall(rcoef(c), m)) == term_text(m, c),
{
    lemma_lits(); lemma_term_raw(m, c); reveal(rcoef); lemma_solid_itext(if c < 0 { -c } else { c }); lemma_rall(rcoef(c), m);
    assert(rcoef(c) =~= (if c < 0 { Seq::<char>::empty() + "- "@ + itext(-c) + " "@ } else { Seq::<char>::empty() + itext(c) + " "@ }));
}
pub proof fn lemma_unit(m: MV, c: int) requires c == 1 || c == -1, m.vn == 0 || m.vn == 1 ensures
    c == 1 && !(m.x == 0 && m.y == 0 && m.q == 0) ==> trimmed(rall(Seq::<char>::empty(), m)) == term_text(m, c),
    c == -1 && !(m.x == 0 && m.y == 0 && m.q == 0) ==> trimmed(rall(Seq::<char>::empty() + "- "@, m)) == term_text(m, c),
    c == 1 && m.x == 0 && m.y == 0 && m.q == 0 ==> term_text(m, c) == if m.vn == 0 { "1"@ } else { vtext(m) },
    c == -1 && m.x == 0 && m.y == 0 && m.q == 0 ==> term_text(m, c) == if m.vn == 0 { "- 1"@ } else { "- "@ + vtext(m) },
{
    lemma_lits(); lemma_term_raw(m, c); lemma_word_mono(m);
    let e = Seq::<char>::empty();
    lemma_rall(e, m); lemma_rall("- "@, m);
    assert(e + raw(m) =~= raw(m));
    assert(e + "- "@ =~= "- "@);
    assert(e + itext(1) =~= itext(1)); assert(e + vtext(m) =~= vtext(m));
}
/// how the text of a term is built, step by step
pub proof fn lemma_push(m: MV, c: int) requires m.vn == 0 || m.vn == 1 ensures
    forall|s: Seq<char>| #[trigger] rx(s, m) == (if m.x == 0 { s } else if m.x == 1 { s + "x"@ + " "@ } else { s + "x^"@ + itext(m.x) + " "@ }),
    forall|s: Seq<char>| #[trigger] ry(s, m) == (if m.y == 0 { s } else if m.y == 1 { s + "y"@ + " "@ } else { s + "y^"@ + itext(m.y) + " "@ }),
    forall|s: Seq<char>| #[trigger] rq(s, m) == (if m.q == 0 { s } else if m.q == 1 { s + "q"@ + " "@ } else { s + "q^"@ + itext(m.q) + " "@ }),
    forall|s: Seq<char>| #[trigger] rv(s, m) == (if m.vn == 0 { s } else { s + vtext(m) }),
    c != 1 && c != -1 ==> rcoef(c) == (if c < 0 { Seq::<char>::empty() + "- "@ + itext(-c) + " "@ } else { Seq::<char>::empty() + itext(c) + " "@ }),
    forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s,
    c == 1 && !(m.x == 0 && m.y == 0 && m.q == 0) ==> trimmed(rall(Seq::<char>::empty(), m)) == term_text(m, c),
    c == -1 && !(m.x == 0 && m.y == 0 && m.q == 0) ==> trimmed(rall(Seq::<char>::empty() + "- "@, m)) == term_text(m, c),
    c == 1 && m.x == 0 && m.y == 0 && m.q == 0 ==> term_text(m, c) == if m.vn == 0 { "1"@ } else { vtext(m) },
    c == -1 && m.x == 0 && m.y == 0 && m.q == 0 ==> term_text(m, c) == if m.vn == 0 { "- 1"@ } else { "- "@ + vtext(m) },
    c != 1 && c != -1 ==> trimmed(rall(rcoef(c), m)) == term_text(m, c),
{
    assert forall|s: Seq<char>| #[trigger] rx(s, m) == (if m.x == 0 { s } else if m.x == 1 { s + "x"@ + " "@ } else { s + "x^"@ + itext(m.x) + " "@ }) by { lemma_rx(s, m); }
    assert forall|s: Seq<char>| #[trigger] ry(s, m) == (if m.y == 0 { s } else if m.y == 1 { s + "y"@ + " "@ } else { s + "y^"@ + itext(m.y) + " "@ }) by { lemma_ry(s, m); }
    assert forall|s: Seq<char>| #[trigger] rq(s, m) == (if m.q == 0 { s } else if m.q == 1 { s + "q"@ + " "@ } else { s + "q^"@ + itext(m.q) + " "@ }) by { lemma_rq(s, m); }
    assert forall|s: Seq<char>| #[trigger] rv(s, m) == (if m.vn == 0 { s } else { s + vtext(m) }) by { lemma_rv(s, m); }
    assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
    if c == 1 || c == -1 { lemma_unit(m, c); } else { lemma_rcoef(m, c); }
}
/// what has been printed when the terms r of p are still to come: a text and a space
pub open spec fn printed(st: Seq<char>, p: PM, r: PM) -> bool {
    if r == p { st == Seq::<char>::empty() } else { st == st.drop_last() + sp() && st.len() > 0 && solid(st.drop_last()) && st.drop_last() + rest_text(r) == pol_text(p) }
}
pub proof fn lemma_rest(r: PM, k: MV) requires r.contains_key(k), is_greatest(k, r)
    ensures rest_text(r) == sp() + (if r[k] > 0 { seq!['+', ' '] } else { seq![] }) + term_text(k, r[k]) + rest_text(r.remove(k)), pol_text(r) == term_text(k, r[k]) + rest_text(r.remove(k)), r != p0(), r.len() > 0, r.remove(k).len() == r.len() - 1
{
    lemma_top(r, k);
}
/// t: the text so far, w: the next term, sg: its plus sign, u: the rest
pub proof fn lemma_print_cat(t: Seq<char>, sg: Seq<char>, w: Seq<char>, u: Seq<char>) requires solid(w)
    ensures (t + sp() + sg + w) + u == t + (sp() + sg + w + u), solid(t + sp() + sg + w), (t + sp() + sg + w + sp()).drop_last() == t + sp() + sg + w, (t + sp() + sg + w + sp()).len() > 0,
        (w + sp()).drop_last() == w, (w + sp()).len() > 0, t + sp() + Seq::<char>::empty() == t + sp(), Seq::<char>::empty() + w == w
{
    assert((t + sp() + sg + w) + u =~= t + (sp() + sg + w + u));
    lemma_solid_add(t + sp() + sg, w);
    assert((t + sp() + sg + w + sp()).drop_last() =~= t + sp() + sg + w);
    assert((w + sp()).drop_last() =~= w);
    assert(t + sp() + Seq::<char>::empty() =~= t + sp());
    assert(Seq::<char>::empty() + w =~= w);
}
pub proof fn lemma_print(st: Seq<char>, p: PM, r: PM, k: MV) requires printed(st, p, r), r.submap_of(p), r.contains_key(k), is_greatest(k, r)
    ensures ({ let w = term_text(k, r[k]); let s1 = if r[k] > 0 && r != p { st + seq!['+', ' '] } else { st }; printed(s1 + w + sp(), p, r.remove(k)) }), r.remove(k) != p, r != p0(), r.len() > 0, r.remove(k).len() == r.len() - 1
{
    lemma_rest(r, k);
    let r2 = r.remove(k);
    let w = term_text(k, r[k]);
    let u = rest_text(r2);
    lemma_solid_term(k, r[k]);
    assert(p.contains_key(k) && !r2.contains_key(k));
    let t = st.drop_last();
    let sg = if r[k] > 0 { seq!['+', ' '] } else { seq![] };
    lemma_print_cat(t, sg, w, u);
}
pub proof fn lemma_printed(st: Seq<char>, p: PM) requires printed(st, p, p0()) ensures p == p0() ==> st == Seq::<char>::empty(), p != p0() ==> trimmed(st) == pol_text(p)
{
    if p != p0() { let t = st.drop_last(); lemma_trim_sp(t); lemma_trim_solid(t); assert(rest_text(p0()) =~= seq![]); assert(t + rest_text(p0()) =~= t); }
}
