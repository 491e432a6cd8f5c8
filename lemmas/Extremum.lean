import Mathlib.Tactic
import Mathlib.Analysis.Calculus.LocalExtr.Basic
import Mathlib.Analysis.Calculus.Deriv.Basic
import Mathlib.Topology.Order.Compact

/-- A differentiable function that stays below `B` at both ends of an interval and at every critical point of the
interval stays below `B` on the whole interval. Used by C07: the obligations on the code concern the ends and an arbitrary
critical point. -/
theorem bounded_of_critical (f : ℝ → ℝ) (hf : Differentiable ℝ f) (L B : ℝ) (hL : 0 < L)
    (h0 : f 0 ≤ B) (h1 : f L ≤ B) (hc : ∀ x, 0 < x → x < L → deriv f x = 0 → f x ≤ B) :
    ∀ x, 0 ≤ x → x ≤ L → f x ≤ B := by
  intro x hx0 hxL
  obtain ⟨m, hm, hmax⟩ := isCompact_Icc.exists_isMaxOn (Set.nonempty_Icc.mpr hL.le) hf.continuous.continuousOn
  have hxm : f x ≤ f m := hmax (Set.mem_Icc.mpr ⟨hx0, hxL⟩)
  refine hxm.trans ?_
  rcases eq_or_lt_of_le hm.1 with h | h
  · rw [← h]; exact h0
  rcases eq_or_lt_of_le hm.2 with h' | h'
  · rw [h']; exact h1
  have hloc : IsLocalMax f m := by
    refine hmax.isLocalMax ?_
    exact Icc_mem_nhds h h'
  exact hc m h h' hloc.deriv_eq_zero

/-- The shear polynomial `V1 + w1 x + (w2 - w1)/(2 L) x^2` of a segment has equal end intensities, two real roots or none. -/
theorem quadratic_forms (w1 w2 V1 L : ℝ) (hL : 0 < L) :
    w2 = w1 ∨
    (∃ α r1 g : ℝ, α ≠ 0 ∧ 0 ≤ g ∧ w1 = -α * (r1 + (r1 + g)) ∧ V1 = α * r1 * (r1 + g) ∧ w2 = w1 + 2 * L * α) ∨
    (∃ α p k : ℝ, α ≠ 0 ∧ 0 < k ∧ w1 = -2 * α * p ∧ V1 = α * (p ^ 2 + k) ∧ w2 = w1 + 2 * L * α) := by
  by_cases h : w2 = w1
  · exact Or.inl h
  right
  have hα : (w2 - w1) / (2 * L) ≠ 0 := div_ne_zero (sub_ne_zero.mpr h) (by positivity)
  obtain ⟨α, hαd⟩ : ∃ α, α = (w2 - w1) / (2 * L) := ⟨_, rfl⟩
  rw [← hαd] at hα
  have hw2 : w2 = w1 + 2 * L * α := by rw [hαd]; field_simp; ring
  obtain ⟨p, hp⟩ : ∃ p, p = -w1 / (2 * α) := ⟨_, rfl⟩
  have hw1 : w1 = -2 * α * p := by rw [hp]; field_simp
  obtain ⟨k, hk⟩ : ∃ k, k = V1 / α - p ^ 2 := ⟨_, rfl⟩
  have hV : V1 = α * (p ^ 2 + k) := by rw [hk]; field_simp; ring
  rcases le_or_gt k 0 with h0 | h0
  · left
    have hs := Real.mul_self_sqrt (show 0 ≤ -k by linarith)
    refine ⟨α, p - Real.sqrt (-k), 2 * Real.sqrt (-k), hα, by positivity, ?_, ?_, hw2⟩
    · rw [hw1]; ring
    · rw [hV]; linear_combination α * hs
  · right
    exact ⟨α, p, k, hα, h0, hw1, hV, hw2⟩
