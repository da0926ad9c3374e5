/- Machine-checked statements of the mathematical facts whose instances the engine
   assumes (engine/lemmas.py, prover.py, solverspec.py, specs/C09.py, specs/C11.py).
   Check with:  lean Lemmas.lean   (Lean 4.33 with Mathlib on its search path). -/
import Mathlib

open Finset

/-- Cauchy–Schwarz over a range (engine/lemmas.py: cauchy_schwarz) -/
theorem cauchy_schwarz (n : ℕ) (x y : ℕ → ℝ) :
    (∑ i ∈ range n, x i * y i) ^ 2 ≤ (∑ i ∈ range n, x i ^ 2) * ∑ i ∈ range n, y i ^ 2 :=
  sum_mul_sq_le_sq_mul_sq (range n) x y

theorem cauchy_schwarz_abs (n : ℕ) (x y : ℕ → ℝ) :
    |∑ i ∈ range n, x i * y i| ≤ √(∑ i ∈ range n, x i ^ 2) * √(∑ i ∈ range n, y i ^ 2) := by
  rw [← Real.sqrt_mul (sum_nonneg fun i _ => sq_nonneg _)]
  exact Real.abs_le_sqrt (cauchy_schwarz n x y)

/-- Gram lemma (solverspec.py): A = U Uᵀ, A z = 1, K ≥ 1 gives ∑ z > 0 -/
theorem gram (K m : ℕ) (hK : 0 < K) (U : Matrix (Fin K) (Fin m) ℝ) (z : Fin K → ℝ)
    (h : (U * U.transpose).mulVec z = fun _ => 1) : 0 < ∑ i, z i := by
  have e : ∑ i, z i = ∑ l, (U.transpose.mulVec z) l ^ 2 := by
    have h1 : ∑ i, z i = dotProduct z ((U * U.transpose).mulVec z) := by
      rw [h]; simp [dotProduct]
    rw [h1, ← Matrix.mulVec_mulVec, Matrix.dotProduct_mulVec]
    simp [dotProduct, Matrix.mulVec_transpose, pow_two]
  rw [e]
  apply lt_of_le_of_ne (sum_nonneg fun i _ => sq_nonneg _)
  intro h0
  have hz : U.transpose.mulVec z = 0 := by
    funext l
    have := (sum_eq_zero_iff_of_nonneg (fun i _ => sq_nonneg _)).1 h0.symm l (mem_univ l)
    simpa using this
  have : (U * U.transpose).mulVec z = 0 := by
    rw [← Matrix.mulVec_mulVec, hz, Matrix.mulVec_zero]
  rw [this] at h
  have := congrFun h ⟨0, hK⟩
  simp at this

/-- counting lemma (specs/C09.py): a permutation whose first q values satisfy c shows
    that at least q indices satisfy c -/
theorem counting (n q : ℕ) (c : ℕ → Prop) [DecidablePred c] (P : ℕ → ℕ)
    (hP : Set.InjOn P (range n : Set ℕ)) (hr : ∀ a < n, P a < n) (hq : q ≤ n)
    (hc : ∀ a < q, c (P a)) : q ≤ ((range n).filter c).card := by
  have : ((range q).image P) ⊆ (range n).filter c := by
    intro y hy
    obtain ⟨a, ha, rfl⟩ := mem_image.1 hy
    have ha := mem_range.1 ha
    exact mem_filter.2 ⟨mem_range.2 (hr a (by omega)), hc a ha⟩
  have hi : Set.InjOn P (range q : Set ℕ) :=
    hP.mono (by intro a ha; simp at *; omega)
  calc q = ((range q).image P).card := by rw [card_image_of_injOn hi, card_range]
    _ ≤ _ := card_le_card this

/-- C11: an upper triangular matrix with a zero on its diagonal has a non-zero kernel vector -/
theorem triangular_kernel (n : ℕ) (S : Matrix (Fin n) (Fin n) ℝ)
    (h : ∀ i j, j < i → S i j = 0) (k : Fin n) (hk : S k k = 0) :
    ∃ u, u ≠ 0 ∧ S.mulVec u = 0 := by
  have ht : S.BlockTriangular id := fun i j hij => h i j hij
  have hd : S.det = 0 := by
    rw [Matrix.det_of_isUpperTriangular ht]
    exact prod_eq_zero (mem_univ k) hk
  exact Matrix.exists_mulVec_eq_zero_iff.2 hd

/-- exp bounds used by the export of exp to z3 -/
theorem exp_bound (a : ℝ) : 1 + a ≤ Real.exp a := by
  have := Real.add_one_le_exp a; linarith

/-- C01, L0.5: with y ∈ [-1,1], cos(2/3 acos y) = 2c²-1 for some c ∈ [1/2,1] with 4c³-3c = y -/
theorem cos_third (y : ℝ) (h1 : -1 ≤ y) (h2 : y ≤ 1) :
    ∃ c, 1 / 2 ≤ c ∧ c ≤ 1 ∧ 4 * c ^ 3 - 3 * c = y ∧
      Real.cos (2 / 3 * Real.arccos y) = 2 * c ^ 2 - 1 := by
  refine ⟨Real.cos (Real.arccos y / 3), ?_, Real.cos_le_one _, ?_, ?_⟩
  · rw [← Real.cos_pi_div_three]
    apply Real.cos_le_cos_of_nonneg_of_le_pi
    · linarith [Real.arccos_nonneg y]
    · linarith [Real.pi_pos]
    · linarith [Real.arccos_le_pi y]
  · rw [← Real.cos_three_mul]
    rw [show 3 * (Real.arccos y / 3) = Real.arccos y by ring, Real.cos_arccos h1 h2]
  · rw [← Real.cos_two_mul]
    congr 1; ring

noncomputable section

def phi (x : ℝ) : ℝ := Real.log (1 + Real.exp x)
def sg (x : ℝ) : ℝ := Real.exp x / (1 + Real.exp x)

theorem phi_deriv (x : ℝ) : HasDerivAt phi (sg x) x := by
  have h : HasDerivAt (fun x => 1 + Real.exp x) (Real.exp x) x := (Real.hasDerivAt_exp x).const_add 1
  exact h.log (by positivity)

theorem sg_deriv (x : ℝ) : HasDerivAt sg (sg x * (1 - sg x)) x := by
  have h : HasDerivAt (fun x => 1 + Real.exp x) (Real.exp x) x := (Real.hasDerivAt_exp x).const_add 1
  have hp : (1 + Real.exp x) ≠ 0 := by positivity
  have h2 := (Real.hasDerivAt_exp x).div h hp
  have e : (Real.exp x * (1 + Real.exp x) - Real.exp x * Real.exp x) / (1 + Real.exp x) ^ 2
      = sg x * (1 - sg x) := by
    simp only [sg]; field_simp; try ring
  rw [← e]; exact h2

/-- C04: φ(b) ≤ φ(a) + s(a)(b-a) + (b-a)²/8 -/
theorem log1pexp_curv (a b : ℝ) : phi b ≤ phi a + sg a * (b - a) + (b - a) ^ 2 / 8 := by
  -- g(x) = φ(a) + s(a)(x-a) + (x-a)²/8 - φ(x) has a monotone derivative vanishing at a
  let g' : ℝ → ℝ := fun x => sg a + (x - a) / 4 - sg x
  have hg' : ∀ x, HasDerivAt g' (1 / 4 - sg x * (1 - sg x)) x := by
    intro x
    have h1 : HasDerivAt (fun x => sg a + (x - a) / 4) (1 / 4) x := by
      have := ((hasDerivAt_id x).sub_const a).div_const 4
      simpa using this.const_add (sg a)
    exact h1.sub (sg_deriv x)
  have hmono : Monotone g' := by
    apply monotone_of_hasDerivAt_nonneg hg'
    intro x
    show (0 : ℝ) ≤ 1 / 4 - sg x * (1 - sg x)
    nlinarith [sq_nonneg (sg x - 1 / 2)]
  let g : ℝ → ℝ := fun x => sg a * (x - a) + (x - a) ^ 2 / 8 - phi x
  have hg : ∀ x, HasDerivAt g (g' x) x := by
    intro x
    have h0 : HasDerivAt (fun x => x - a) 1 x := (hasDerivAt_id x).sub_const a
    have h1 := (h0.const_mul (sg a)).add ((h0.pow 2).div_const 8)
    have h2 := h1.sub (phi_deriv x)
    have e : sg a * 1 + (2 : ℕ) * (x - a) ^ (2 - 1) * 1 / 8 - sg x = g' x := by
      show _ = sg a + (x - a) / 4 - sg x
      norm_num; ring
    rw [← e]; exact h2
  have hconv : ConvexOn ℝ Set.univ g := by
    apply MonotoneOn.convexOn_of_deriv convex_univ
    · exact fun x _ => (hg x).continuousAt.continuousWithinAt
    · exact fun x _ => (hg x).differentiableAt.differentiableWithinAt
    · rw [interior_univ]
      intro x _ y _ hxy
      rw [(hg x).deriv, (hg y).deriv]; exact hmono hxy
  have hmin : g a ≤ g b := by
    have h0 : g' a = 0 := by simp [g']
    have : HasDerivAt g 0 a := by rw [← h0]; exact hg a
    rcases lt_trichotomy a b with hab | hab | hab
    · have hm := hconv.le_slope_of_hasDerivAt (Set.mem_univ a) (Set.mem_univ b) hab this
      rw [slope_def_field] at hm
      have : 0 ≤ g b - g a := by
        have hpos : 0 < b - a := by linarith
        rw [le_div_iff₀ hpos] at hm; linarith
      linarith
    · rw [hab]
    · have hm := hconv.slope_le_of_hasDerivAt (Set.mem_univ b) (Set.mem_univ a) hab this
      rw [slope_def_field] at hm
      have hpos : 0 < a - b := by linarith
      rw [div_le_iff₀ hpos] at hm; linarith
  have e1 : g a = - phi a := by simp [g]
  have e2 : g b = sg a * (b - a) + (b - a) ^ 2 / 8 - phi b := rfl
  linarith

end

#print axioms cauchy_schwarz
#print axioms cauchy_schwarz_abs
#print axioms gram
#print axioms counting
#print axioms triangular_kernel
#print axioms exp_bound
#print axioms cos_third
#print axioms log1pexp_curv
