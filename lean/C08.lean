import Mathlib.Data.Nat.Basic
import Mathlib.Tactic

/-! A set that contains the root and is closed under adjacency contains every node, when every node but the root has an adjacent node of smaller potential. -/

namespace C08

/-- S: the positions of a round; adj: adjacency; V: the positions taken from the worklist when it is empty -/
theorem closure_of_potential {α : Type*} (S V : α → Prop) (adj : α → α → Prop) (r : α) (φ : α → ℕ)
    (hφ : ∀ x, S x → x ≠ r → ∃ y, S y ∧ adj y x ∧ φ y < φ x) (hr : V r) (hc : ∀ x y, V x → S y → adj x y → V y) :
    ∀ x, S x → V x := by
  have key : ∀ n x, φ x = n → S x → V x := by
    intro n
    induction n using Nat.strong_induction_on with
    | _ n ih =>
      intro x hn hx
      by_cases e : x = r
      · subst e; exact hr
      · obtain ⟨y, hy, ha, hlt⟩ := hφ x hx e
        exact hc y x (ih (φ y) (hn ▸ hlt) y rfl hy) hx ha
  exact fun x hx => key _ x rfl hx

/-- a worklist loop in which every iteration either adds a new element of a finite set to V, or takes one element off the worklist without
    adding any, comes to an end: the pair (elements left, length of the worklist) decreases lexicographically -/
theorem terminates : WellFounded (Prod.Lex (· < ·) (· < ·) : ℕ × ℕ → ℕ × ℕ → Prop) := by
  exact WellFounded.prod_lex wellFounded_lt wellFounded_lt

end C08
#print axioms C08.closure_of_potential
#print axioms C08.terminates
