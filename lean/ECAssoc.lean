/-
Associativity of the chord-and-tangent law, stated with the definitions of
contracts/lib_30_ec.rs (integers, residues, choice of an inverse) and derived
from Mathlib's group law on Weierstrass curves.  This discharges `axiom_ec_assoc`.
-/
import Mathlib.AlgebraicGeometry.EllipticCurve.Affine.Point
import Mathlib.Data.ZMod.Basic
import Mathlib.Tactic

namespace ECAssoc

def divides (d n : ℤ) : Prop := ∃ k : ℤ, n = d * k
def isPrimeSpec (n : ℤ) : Prop := 2 ≤ n ∧ ∀ d : ℤ, 1 < d → d < n → ¬ divides d n
def cong (a b m : ℤ) : Prop := divides m (a - b)

inductive PT where
  | O : PT
  | A : ℤ → ℤ → PT

def cur (a b x : ℤ) : ℤ := x * x * x + a * x + b
def onc (a b p : ℤ) : PT → Prop
  | .O => True
  | .A x y => 0 ≤ x ∧ x < p ∧ 0 ≤ y ∧ y < p ∧ cong (y * y) (cur a b x) p
def isInv (d p v : ℤ) : Prop := 0 ≤ v ∧ v < p ∧ cong (d * v) 1 p
/-- `finv` is `choose|v| is_inv(d, p, v)` in the contracts: any function that returns such a `v`
whenever one exists.  The theorem below holds for every one of them. -/
def IsFinv (finv : ℤ → ℤ → ℤ) : Prop := ∀ d p v : ℤ, isInv d p v → isInv d p (finv d p)
def chord (p m x1 y1 x2 : ℤ) : PT :=
  .A ((m * m - x1 - x2) % p) ((m * (x1 - (m * m - x1 - x2)) - y1) % p)
def ecadd (finv : ℤ → ℤ → ℤ) (a p : ℤ) : PT → PT → PT
  | .O, t => t
  | s, .O => s
  | .A x1 y1, .A x2 y2 =>
    if x1 ≠ x2 then chord p ((y2 - y1) * finv (x2 - x1) p) x1 y1 x2
    else if y1 ≠ y2 ∨ y1 = 0 then .O
    else chord p ((3 * x1 * x1 + a) * finv (2 * y1) p) x1 y1 x1
def disc (a b : ℤ) : ℤ := 4 * (a * a * a) + 27 * (b * b)

theorem prime_of_spec {n : ℕ} (h : isPrimeSpec n) : n.Prime := by
  rw [Nat.prime_def_lt]
  refine ⟨by exact_mod_cast h.1, fun m hm hd => ?_⟩
  by_contra h1
  have h0 : m ≠ 0 := by
    rintro rfl
    have := Nat.eq_zero_of_zero_dvd hd
    have := h.1
    omega
  refine h.2 m (by omega) (by exact_mod_cast hm) ?_
  obtain ⟨k, hk⟩ := hd
  exact ⟨k, by exact_mod_cast hk⟩

section
variable {n : ℕ} [hp : Fact n.Prime] (a b : ℤ) {finv : ℤ → ℤ → ℤ} (hf : IsFinv finv)

def W : WeierstrassCurve.Affine (ZMod n) := ⟨0, 0, 0, (a : ZMod n), (b : ZMod n)⟩

theorem cong_iff (u v : ℤ) : cong u v n ↔ (u : ZMod n) = (v : ZMod n) := by
  rw [ZMod.intCast_eq_intCast_iff_dvd_sub, ← dvd_neg, neg_sub]
  rfl

/-- the representative of a residue class -/
def rep (x : ZMod n) : ℤ := (x.val : ℤ)
theorem rep_cast (x : ZMod n) : ((rep x : ℤ) : ZMod n) = x := by
  simp [rep]
theorem rep_bounds (x : ZMod n) : 0 ≤ rep x ∧ rep x < n :=
  ⟨Int.natCast_nonneg _, by unfold rep; exact_mod_cast ZMod.val_lt x⟩
theorem rep_inj {x y : ZMod n} (h : rep x = rep y) : x = y := by
  rw [← rep_cast x, h, rep_cast]
theorem rep_int (u : ℤ) : rep (u : ZMod n) = u % n := by
  unfold rep; exact ZMod.val_intCast u
theorem rep_of_range {u : ℤ} (h0 : 0 ≤ u) (h1 : u < n) : rep (u : ZMod n) = u := by
  rw [rep_int]; exact Int.emod_eq_of_lt h0 h1

include hf in
theorem finv_spec {d : ℤ} (hd : (d : ZMod n) ≠ 0) : ((finv d n : ℤ) : ZMod n) = (d : ZMod n)⁻¹ := by
  have hex : isInv d n (rep ((d : ZMod n)⁻¹)) := by
    refine ⟨(rep_bounds _).1, (rep_bounds _).2, ?_⟩
    rw [cong_iff]; push_cast; rw [rep_cast]; exact mul_inv_cancel₀ hd
  have h := hf _ _ _ hex
  have h2 := (cong_iff _ _).1 h.2.2
  push_cast at h2
  exact eq_inv_of_mul_eq_one_right h2

/-- a Mathlib point as a pair of representatives -/
def psi : (W (n := n) a b).Point → PT
  | .zero => .O
  | .some x y _ => .A (rep x) (rep y)

theorem psi_inj {P Q : (W (n := n) a b).Point} (h : psi a b P = psi a b Q) : P = Q := by
  cases P <;> cases Q <;> simp only [psi, PT.A.injEq, reduceCtorEq] at h
  · rfl
  · obtain ⟨h1, h2⟩ := h
    have := rep_inj h1; have := rep_inj h2; subst_vars; rfl

theorem eqn_iff (x y : ZMod n) : (W (n := n) a b).Equation x y ↔ y * y = x * x * x + a * x + b := by
  rw [WeierstrassCurve.Affine.equation_iff]; simp [W]; ring_nf

theorem delta : (W (n := n) a b).Δ = -16 * ((disc a b : ℤ) : ZMod n) := by
  simp [W, WeierstrassCurve.Δ, WeierstrassCurve.b₂, WeierstrassCurve.b₄, WeierstrassCurve.b₆, WeierstrassCurve.b₈, disc]; ring

theorem psi_surj (h3 : 3 < n) (hd : ¬ divides n (disc a b)) {s : PT} (hs : onc a b n s) : ∃ P : (W (n := n) a b).Point, psi a b P = s := by
  cases s with
  | O => exact ⟨.zero, rfl⟩
  | A x y =>
    obtain ⟨hx0, hx1, hy0, hy1, hc⟩ := hs
    have he : (W (n := n) a b).Equation (x : ZMod n) (y : ZMod n) := by
      rw [eqn_iff]; rw [cong_iff] at hc; unfold cur at hc; push_cast at hc; exact hc
    have hdd : ((disc a b : ℤ) : ZMod n) ≠ 0 := by
      intro h; apply hd; obtain ⟨k, hk⟩ := (ZMod.intCast_zmod_eq_zero_iff_dvd _ n).1 h; exact ⟨k, hk⟩
    have h2 : (2 : ZMod n) ≠ 0 := by
      intro h
      have h' : ((2 : ℕ) : ZMod n) = 0 := by exact_mod_cast h
      rw [ZMod.natCast_eq_zero_iff] at h'
      have := Nat.le_of_dvd (by norm_num) h'
      omega
    have hD : (W (n := n) a b).Δ ≠ 0 := by
      rw [delta]
      have h16 : (-16 : ZMod n) = -(2 ^ 4) := by norm_num
      rw [h16]
      exact mul_ne_zero (neg_ne_zero.2 (pow_ne_zero 4 h2)) hdd
    refine ⟨.some _ _ ((WeierstrassCurve.Affine.equation_iff_nonsingular_of_Δ_ne_zero hD).1 he), ?_⟩
    simp only [psi]
    rw [rep_of_range hx0 hx1, rep_of_range hy0 hy1]

theorem rep_cast_sub (x y : ZMod n) : ((rep x - rep y : ℤ) : ZMod n) = x - y := by push_cast; rw [rep_cast, rep_cast]

theorem two_ne (h3 : 3 < n) : (2 : ZMod n) ≠ 0 := by
  intro h
  have h' : ((2 : ℕ) : ZMod n) = 0 := by exact_mod_cast h
  rw [ZMod.natCast_eq_zero_iff] at h'
  have := Nat.le_of_dvd (by norm_num) h'
  omega

theorem chord_cast (m : ℤ) (x1 y1 x2 : ZMod n) :
    chord n m (rep x1) (rep y1) (rep x2)
      = .A (rep ((m : ZMod n) ^ 2 - x1 - x2)) (rep (-((m : ZMod n) * (((m : ZMod n) ^ 2 - x1 - x2) - x1) + y1))) := by
  unfold chord
  congr 1
  · rw [← rep_int]; push_cast; rw [rep_cast, rep_cast]; ring_nf
  · rw [← rep_int]; push_cast; rw [rep_cast, rep_cast, rep_cast]; ring_nf

include hf in
theorem psi_add (h3 : 3 < n) (P Q : (W (n := n) a b).Point) : psi a b (P + Q) = ecadd finv a n (psi a b P) (psi a b Q) := by
  cases P with
  | zero => rw [← WeierstrassCurve.Affine.Point.zero_def, zero_add]; cases Q <;> rfl
  | some x1 y1 hP =>
    cases Q with
    | zero => rw [← WeierstrassCurve.Affine.Point.zero_def, add_zero]; rfl
    | some x2 y2 hQ =>
      have e1 := (eqn_iff a b x1 y1).1 hP.1
      have e2 := (eqn_iff a b x2 y2).1 hQ.1
      have hneg : ∀ x y : ZMod n, (W (n := n) a b).negY x y = -y := by intro x y; simp [WeierstrassCurve.Affine.negY, W]
      by_cases hx : x1 = x2
      · subst hx
        by_cases hy : y1 = -y2
        · rw [WeierstrassCurve.Affine.Point.add_of_Y_eq rfl (by rw [hneg]; exact hy)]
          have hc : rep y1 ≠ rep y2 ∨ rep y1 = 0 := by
            by_cases h0 : y1 = 0
            · right; rw [h0]; simp [rep]
            · left; intro h; have h := rep_inj h
              rw [← h] at hy
              have : (2 : ZMod n) * y1 = 0 := by linear_combination hy
              rcases mul_eq_zero.1 this with h | h
              · exact two_ne h3 h
              · exact h0 h
          show PT.O = if rep x1 ≠ rep x1 then _ else if rep y1 ≠ rep y2 ∨ rep y1 = 0 then PT.O else _
          rw [if_neg (by simp), if_pos hc]
        · have hyy : y1 = y2 := by
            have : (y1 - y2) * (y1 + y2) = 0 := by linear_combination e1 - e2
            rcases mul_eq_zero.1 this with h | h
            · exact sub_eq_zero.1 h
            · exact absurd (eq_neg_of_add_eq_zero_left h) hy
          subst hyy
          have hy0 : y1 ≠ 0 := by rintro rfl; apply hy; simp
          have h2y : (2 : ZMod n) * y1 ≠ 0 := mul_ne_zero (two_ne h3) hy0
          rw [WeierstrassCurve.Affine.Point.add_of_Y_ne (by rw [hneg]; exact hy)]
          simp only [psi, ecadd, ne_eq, not_true_eq_false, if_false, false_or]
          have hr : rep y1 ≠ 0 := by
            intro h; apply hy0; rw [← rep_cast y1, h]; simp
          rw [if_neg hr, chord_cast]
          have hfi : ((finv (2 * rep y1) n : ℤ) : ZMod n) = (2 * y1)⁻¹ := by
            rw [finv_spec hf]
            · push_cast; rw [rep_cast]
            · push_cast; rw [rep_cast]; exact h2y
          have hsl : (W (n := n) a b).slope x1 x1 y1 y1 = (((3 * rep x1 * rep x1 + a) * finv (2 * rep y1) n : ℤ) : ZMod n) := by
            rw [WeierstrassCurve.Affine.slope_of_Y_ne rfl (by rw [hneg]; exact hy), hneg]
            push_cast; rw [hfi, rep_cast, ← div_eq_mul_inv]
            simp only [W]
            congr 1 <;> ring
          rw [hsl]
          generalize (((3 * rep x1 * rep x1 + a) * finv (2 * rep y1) n : ℤ) : ZMod n) = m
          simp only [WeierstrassCurve.Affine.addX, WeierstrassCurve.Affine.addY, WeierstrassCurve.Affine.negAddY, WeierstrassCurve.Affine.negY, W]
          congr 2 <;> ring
      · have hd : ((rep x2 - rep x1 : ℤ) : ZMod n) ≠ 0 := by rw [rep_cast_sub]; exact sub_ne_zero.2 (Ne.symm hx)
        rw [WeierstrassCurve.Affine.Point.add_of_X_ne hx]
        have hxr : rep x1 ≠ rep x2 := fun h => hx (rep_inj h)
        simp only [psi, ecadd]
        rw [if_pos hxr, chord_cast]
        have hsl : (W (n := n) a b).slope x1 x2 y1 y2 = (((rep y2 - rep y1) * finv (rep x2 - rep x1) n : ℤ) : ZMod n) := by
          rw [WeierstrassCurve.Affine.slope_of_X_ne hx]
          rw [Int.cast_mul, finv_spec hf hd, rep_cast_sub, rep_cast_sub, ← div_eq_mul_inv, ← neg_sub y1 y2, ← neg_sub x1 x2, neg_div_neg_eq]
        rw [hsl]
        generalize (((rep y2 - rep y1) * finv (rep x2 - rep x1) n : ℤ) : ZMod n) = m
        simp only [WeierstrassCurve.Affine.addX, WeierstrassCurve.Affine.addY, WeierstrassCurve.Affine.negAddY, WeierstrassCurve.Affine.negY, W]
        congr 2 <;> ring
end

/-- `axiom_ec_assoc` of contracts/lib_30_ec.rs -/
theorem ec_assoc (finv : ℤ → ℤ → ℤ) (hf : IsFinv finv) (a b p : ℤ) (s t u : PT) (hp : isPrimeSpec p) (h3 : 3 < p) (hd : ¬ divides p (disc a b))
    (hs : onc a b p s) (ht : onc a b p t) (hu : onc a b p u) :
    ecadd finv a p (ecadd finv a p s t) u = ecadd finv a p s (ecadd finv a p t u) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ p)
  have : Fact n.Prime := ⟨prime_of_spec hp⟩
  have h3' : 3 < n := by exact_mod_cast h3
  obtain ⟨P, rfl⟩ := psi_surj a b h3' hd hs
  obtain ⟨Q, rfl⟩ := psi_surj a b h3' hd ht
  obtain ⟨R, rfl⟩ := psi_surj a b h3' hd hu
  rw [← psi_add a b hf h3', ← psi_add a b hf h3', ← psi_add a b hf h3', ← psi_add a b hf h3', add_assoc]

end ECAssoc
#print axioms ECAssoc.ec_assoc
