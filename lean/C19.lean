import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Data.ZMod.Basic
import Mathlib.Tactic

/-! From the rounds of a memory experiment to the changes the decoder is given.

K: the checks of the decoded type; v t k: the value of check k when round t is measured; m t k = 1: that outcome is wrong;
D t: the errors on data qubits between round t and round t+1; hit e k = 1: error e anticommutes with check k. -/

namespace C19

variable {K F : Type*}

/-- a reported outcome changes from one round to the next by the faults in between and the two measurements' own mistakes -/
theorem changes (v m s : ℕ → K → ZMod 2) (D : ℕ → Finset F) (hit : F → K → ZMod 2)
    (hv : ∀ t k, v (t + 1) k = v t k + ∑ e ∈ D t, hit e k) (hs : ∀ t k, s t k = v t k + m t k) (t : ℕ) (k : K) :
    s (t + 1) k + s t k = (∑ e ∈ D t, hit e k) + m t k + m (t + 1) k := by
  rw [hs, hs, hv]
  have h2 : v t k + v t k = 0 := by generalize v t k = x; revert x; decide
  linear_combination h2

/-- the value read out is the prepared one changed by every fault that crosses the logical operator and every logical operator applied -/
theorem logical (l : ℕ → ZMod 2) (D : ℕ → Finset F) (cross : F → ZMod 2) (g : ℕ → ZMod 2)
    (hl : ∀ t, l (t + 1) = l t + (∑ e ∈ D t, cross e) + g t) (T : ℕ) :
    l T = l 0 + (∑ t ∈ Finset.range T, g t) + ∑ t ∈ Finset.range T, ∑ e ∈ D t, cross e := by
  induction T with
  | zero => simp
  | succ T ih => rw [hl, ih, Finset.sum_range_succ, Finset.sum_range_succ]; ring

/-- errors that commute with everything of the decoded type do nothing: those left are no more than the faults that occurred -/
theorem fewer (D : Finset F) (p : F → Prop) [DecidablePred p] (n : ℕ) (h : D.card ≤ n) : (D.filter p).card ≤ n :=
  (Finset.card_filter_le D p).trans h

end C19
#print axioms C19.changes
#print axioms C19.logical
#print axioms C19.fewer
