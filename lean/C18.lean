import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Data.ZMod.Basic
import Mathlib.Tactic

/-! A Pauli error that commutes with every check and anticommutes with a logical operator touches every row (column).

Q: the data qubits; row: their row (column for the other type); a q = 1 when the error's factor on q anticommutes with the factor a check of the
type has there; own R q: the check of plaquette row R that q belongs to. -/

namespace C18

variable {Q : Type*} [Fintype Q] [DecidableEq Q]

/-- one plaquette row: its checks partition the qubits of the rows R-1 and R, so the two rows have the same parity -/
theorem step (row : Q → ℕ) (own : Q → ℤ) (a : Q → ZMod 2) (R : ℕ)
    (hchk : ∀ l : ℤ, (∃ q, (row q = R ∨ row q = R + 1) ∧ own q = l) →
      (∑ q with (row q = R ∨ row q = R + 1) ∧ own q = l, a q) = 0) :
    (∑ q with row q = R, a q) = ∑ q with row q = R + 1, a q := by
  have hsplit : (∑ q with (row q = R ∨ row q = R + 1), a q) = (∑ q with row q = R, a q) + ∑ q with row q = R + 1, a q := by
    rw [Finset.filter_or, Finset.sum_union]
    rw [Finset.disjoint_filter]
    intro q _ h1 h2; omega
  have hzero : (∑ q with (row q = R ∨ row q = R + 1), a q) = 0 := by
    rw [← Finset.sum_fiberwise_of_maps_to (s := Finset.univ.filter fun q => row q = R ∨ row q = R + 1) (t := (Finset.univ.filter fun q => row q = R ∨ row q = R + 1).image own) (g := own)
      (fun q hq => Finset.mem_image_of_mem own hq)]
    apply Finset.sum_eq_zero
    intro l hl
    obtain ⟨q, hq, rfl⟩ := Finset.mem_image.mp hl
    rw [Finset.filter_filter]
    exact hchk (own q) ⟨q, (Finset.mem_filter.mp hq).2, rfl⟩
  have h := hsplit.symm.trans hzero
  generalize (∑ q with row q = R, a q) = x at h ⊢
  generalize (∑ q with row q = R + 1, a q) = y at h ⊢
  revert x y; decide

/-- the weight of such an error is at least the number of rows -/
theorem distance (h : ℕ) (row : Q → ℕ) (own : ℕ → Q → ℤ) (a : Q → ZMod 2)
    (hchk : ∀ R, R + 1 < h → ∀ l : ℤ, (∃ q, (row q = R ∨ row q = R + 1) ∧ own R q = l) →
      (∑ q with (row q = R ∨ row q = R + 1) ∧ own R q = l, a q) = 0)
    (hlog : (∑ q with row q = 0, a q) = 1) :
    h ≤ (Finset.univ.filter fun q => a q ≠ 0).card := by
  have all : ∀ r, r < h → (∑ q with row q = r, a q) = 1 := by
    intro r
    induction r with
    | zero => intro _; exact hlog
    | succ r ih => intro hr; rw [← step row (own r) a r (hchk r hr)]; exact ih (by omega)
  have hsub : Finset.range h ⊆ (Finset.univ.filter fun q => a q ≠ 0).image row := by
    intro r hr
    have := all r (Finset.mem_range.mp hr)
    have hne : (∑ q with row q = r, a q) ≠ 0 := by rw [this]; decide
    obtain ⟨q, hq, hqa⟩ := Finset.exists_ne_zero_of_sum_ne_zero hne
    exact Finset.mem_image.mpr ⟨q, by simpa using hqa, (Finset.mem_filter.mp hq).2⟩
  calc h = (Finset.range h).card := (Finset.card_range h).symm
    _ ≤ _ := Finset.card_le_card hsub
    _ ≤ _ := Finset.card_image_le

end C18
#print axioms C18.step
#print axioms C18.distance
