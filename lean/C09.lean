import Mathlib.Combinatorics.SimpleGraph.Metric
import Mathlib.Algebra.BigOperators.Group.List.Basic
import Mathlib.Data.Finset.SymmDiff
import Mathlib.Tactic

set_option linter.unusedSectionVars false
/-! Minimum-weight matching corrects every set of fewer than h/2 edges.

V, G: the decoding graph.  lvl: its levels (row + 1/2 for type Z, column + 1/2 for type X): 0 = the virtual nodes crossed by the
readout line, h = the opposite virtual nodes, 1..h-1 = checks.  E: the edges of the faults.  M: the pairs of the matching. -/

namespace C09
open Classical

variable {V : Type*} [DecidableEq V] (G : SimpleGraph V)

/-- pairings of a finite set with their total cost -/
inductive Pairs {N : Type*} [DecidableEq N] (ok : N → N → Prop) (w : N → N → ℕ) : List (N × N) → Finset N → Prop
  | nil : Pairs ok w [] ∅
  | cons {M O a b} : Pairs ok w M O → a ∉ O → b ∉ O → a ≠ b → ok a b → Pairs ok w ((a, b) :: M) (insert a (insert b O))

def cost {N : Type*} (w : N → N → ℕ) (M : List (N × N)) : ℕ := (M.map fun p => w p.1 p.2).sum

theorem cost_cons {N : Type*} (w : N → N → ℕ) (a b : N) (M) : cost w ((a, b) :: M) = w a b + cost w M := by simp [cost]

/-- a member of the set can be taken out with its partner -/
theorem Pairs.take {N : Type*} [DecidableEq N] {w : N → N → ℕ} {ok : N → N → Prop} (hs : ∀ a b, w a b = w b a) :
    ∀ {M : List (N × N)} {O : Finset N}, Pairs ok w M O → ∀ u ∈ O, ∃ x ∈ O, x ≠ u ∧ ∃ M', Pairs ok w M' ((O.erase u).erase x) ∧ cost w M = w u x + cost w M'
  | _, _, .nil, u, hu => by simp at hu
  | _, _, .cons (M := M) (O := O) (a := a) (b := b) h ha hb hab hok, u, hu => by
    by_cases hua : u = a
    · subst hua
      refine ⟨b, by simp, fun e => hab e.symm, M, ?_, by rw [cost_cons]⟩
      have : ((insert u (insert b O)).erase u).erase b = O := by
        ext z; simp only [Finset.mem_erase, Finset.mem_insert]
        constructor
        · rintro ⟨h1, h2, h3 | h3 | h3⟩ <;> simp_all
        · intro hz; exact ⟨fun e => hb (e ▸ hz), fun e => ha (e ▸ hz), Or.inr (Or.inr hz)⟩
      rw [this]; exact h
    · by_cases hub : u = b
      · subst hub
        refine ⟨a, by simp, hab, M, ?_, by rw [cost_cons, hs]⟩
        have : ((insert a (insert u O)).erase u).erase a = O := by
          ext z; simp only [Finset.mem_erase, Finset.mem_insert]
          constructor
          · rintro ⟨h1, h2, h3 | h3 | h3⟩ <;> simp_all
          · intro hz; exact ⟨fun e => ha (e ▸ hz), fun e => hb (e ▸ hz), Or.inr (Or.inr hz)⟩
        rw [this]; exact h
      · have huO : u ∈ O := by simpa [hua, hub] using hu
        obtain ⟨x, hx, hxu, M', hM', hc⟩ := Pairs.take hs h u huO
        have hxa : x ≠ a := fun e => ha (e ▸ hx)
        have hxb : x ≠ b := fun e => hb (e ▸ hx)
        refine ⟨x, by simp [hx], hxu, (a, b) :: M', ?_, by rw [cost_cons, cost_cons, hc]; ring⟩
        have : ((insert a (insert b O)).erase u).erase x = insert a (insert b ((O.erase u).erase x)) := by
          ext z; simp only [Finset.mem_erase, Finset.mem_insert]
          constructor
          · rintro ⟨h1, h2, h3 | h3 | h3⟩ <;> simp_all
          · rintro (h3 | h3 | ⟨h1, h2, h3⟩)
            · subst h3; exact ⟨fun e => hxa e.symm, fun e => hua e.symm, Or.inl rfl⟩
            · subst h3; exact ⟨fun e => hxb e.symm, fun e => hub e.symm, Or.inr (Or.inl rfl)⟩
            · exact ⟨h1, h2, Or.inr (Or.inr h3)⟩
        rw [this]
        exact .cons hM' (by simp [ha]) (by simp [hb]) hab hok

/-- the ends of a list of edges with odd degree -/
noncomputable def odd : List (V × V) → Finset V
  | [] => ∅
  | (u, v) :: E => symmDiff (symmDiff {u} {v}) (odd E)

/-- (i) the odd vertices of E can be paired with total distance at most |E| -/
theorem pairing (hG : G.Connected) : ∀ E : List (V × V), (∀ e ∈ E, G.Adj e.1 e.2) → ∃ M, Pairs (fun _ _ => True) G.dist M (odd E) ∧ cost G.dist M ≤ E.length
  | [], _ => ⟨[], .nil, by simp [cost]⟩
  | (u, v) :: E, h => by
    have hs : ∀ a b, G.dist a b = G.dist b a := fun a b => SimpleGraph.dist_comm
    obtain ⟨M, hM, hc⟩ := pairing hG E fun e he => h e (List.mem_cons_of_mem _ he)
    have hadj : G.Adj u v := h (u, v) (List.mem_cons_self ..)
    have huv : u ≠ v := hadj.ne
    have d1 : G.dist u v = 1 := SimpleGraph.dist_eq_one_iff_adj.mpr hadj
    have tri : ∀ a b c, G.dist a c ≤ G.dist a b + G.dist b c := fun a b c => hG.dist_triangle
    have hodd : odd ((u, v) :: E) = symmDiff (symmDiff {u} {v}) (odd E) := rfl
    rw [hodd]
    by_cases hu : u ∈ odd E <;> by_cases hv : v ∈ odd E
    · -- both
      obtain ⟨x, hx, hxu, M1, hM1, hc1⟩ := Pairs.take hs hM u hu
      by_cases hxv : x = v
      · subst hxv
        refine ⟨M1, ?_, by simp only [List.length_cons]; omega⟩
        have : symmDiff (symmDiff {u} {x}) (odd E) = ((odd E).erase u).erase x := by
          ext z; simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_erase]
          by_cases h1 : z = u <;> by_cases h2 : z = x <;> simp_all
        rw [this]; exact hM1
      · have hv1 : v ∈ ((odd E).erase u).erase x := by simp [hv, Ne.symm huv, Ne.symm hxv]
        obtain ⟨y, hy, hyv, M2, hM2, hc2⟩ := Pairs.take hs hM1 v hv1
        simp only [Finset.mem_erase] at hy
        refine ⟨(x, y) :: M2, ?_, ?_⟩
        · have : symmDiff (symmDiff {u} {v}) (odd E) = insert x (insert y (((((odd E).erase u).erase x).erase v).erase y)) := by
            ext z; simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_erase, Finset.mem_insert]
            by_cases h1 : z = u <;> by_cases h2 : z = v <;> by_cases h3 : z = x <;> by_cases h4 : z = y <;> simp_all
          rw [this]
          refine .cons hM2 ?_ ?_ (fun e => hy.1 e.symm) trivial <;> simp
        · rw [cost_cons]; simp only [List.length_cons]
          have t1 := tri x u y; have t2 := tri u v y; rw [hs x u] at t1; omega
    · obtain ⟨x, hx, hxu, M1, hM1, hc1⟩ := Pairs.take hs hM u hu
      have hxv : x ≠ v := fun e => hv (e ▸ hx)
      refine ⟨(v, x) :: M1, ?_, ?_⟩
      · have : symmDiff (symmDiff {u} {v}) (odd E) = insert v (insert x (((odd E).erase u).erase x)) := by
          ext z; simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_erase, Finset.mem_insert]
          by_cases h1 : z = u <;> by_cases h2 : z = v <;> by_cases h3 : z = x <;> simp_all
        rw [this]
        refine .cons hM1 ?_ ?_ (Ne.symm hxv) trivial <;> simp [hv]
      · rw [cost_cons]; simp only [List.length_cons]
        have t1 := tri v u x; rw [hs v u] at t1; omega
    · obtain ⟨x, hx, hxv, M1, hM1, hc1⟩ := Pairs.take hs hM v hv
      have hxu : x ≠ u := fun e => hu (e ▸ hx)
      refine ⟨(u, x) :: M1, ?_, ?_⟩
      · have : symmDiff (symmDiff {u} {v}) (odd E) = insert u (insert x (((odd E).erase v).erase x)) := by
          ext z; simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_erase, Finset.mem_insert]
          by_cases h1 : z = u <;> by_cases h2 : z = v <;> by_cases h3 : z = x <;> simp_all
        rw [this]
        refine .cons hM1 ?_ ?_ (Ne.symm hxu) trivial <;> simp [hu]
      · rw [cost_cons]; simp only [List.length_cons]
        have t1 := tri u v x; omega
    · refine ⟨(u, v) :: M, ?_, ?_⟩
      · have : symmDiff (symmDiff {u} {v}) (odd E) = insert u (insert v (odd E)) := by
          ext z; simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_insert]
          by_cases h1 : z = u <;> by_cases h2 : z = v <;> simp_all
        rw [this]; exact .cons hM hu hv huv trivial
      · rw [cost_cons]; simp only [List.length_cons]; omega

theorem odd_append : ∀ A B : List (V × V), odd (A ++ B) = symmDiff (odd A) (odd B)
  | [], B => by
    show odd B = symmDiff (∅ : Finset V) (odd B)
    rw [← Finset.bot_eq_empty, bot_symmDiff]
  | (u, v) :: A, B => by
    show symmDiff (symmDiff {u} {v}) (odd (A ++ B)) = _
    rw [odd_append A B, ← symmDiff_assoc]; rfl

theorem card_symmDiff_mod (A B : Finset V) : (symmDiff A B).card % 2 = (A.card + B.card) % 2 := by
  have h1 : (symmDiff A B).card = (A \ B).card + (B \ A).card := by
    rw [symmDiff_def, Finset.sup_eq_union, Finset.card_union_of_disjoint]
    exact Finset.disjoint_left.mpr fun x h1 h2 => by simp_all
  have h2 := Finset.card_sdiff_add_card_inter A B
  have h3 := Finset.card_sdiff_add_card_inter B A
  rw [Finset.inter_comm B A] at h3
  omega

theorem card_odd_even : ∀ E : List (V × V), (odd E).card % 2 = 0
  | [] => by simp [odd]
  | (u, v) :: E => by
    show (symmDiff (symmDiff {u} {v}) (odd E)).card % 2 = 0
    rw [card_symmDiff_mod, Nat.add_mod, card_symmDiff_mod, card_odd_even E]; simp

/-- number of edges of E between levels ≤ k and levels > k -/
noncomputable def cut (lvl : V → ℕ) (k : ℕ) (E : List (V × V)) : ℕ :=
  (E.map fun e => if (lvl e.1 ≤ k) ↔ (lvl e.2 ≤ k) then 0 else 1).sum

theorem cut_parity (lvl : V → ℕ) (k : ℕ) : ∀ E : List (V × V), cut lvl k E % 2 = ((odd E).filter fun v => lvl v ≤ k).card % 2
  | [] => by simp [cut, odd]
  | (u, v) :: E => by
    have ih := cut_parity lvl k E
    have e1 : (odd ((u, v) :: E)).filter (fun v => lvl v ≤ k) =
        symmDiff (symmDiff (({u} : Finset V).filter fun v => lvl v ≤ k) (({v} : Finset V).filter fun v => lvl v ≤ k)) ((odd E).filter fun v => lvl v ≤ k) := by
      ext z
      show z ∈ Finset.filter _ (symmDiff (symmDiff {u} {v}) (odd E)) ↔ _
      simp only [Finset.mem_symmDiff, Finset.mem_filter, Finset.mem_singleton]; tauto
    have e2 : cut lvl k ((u, v) :: E) = (if (lvl u ≤ k) ↔ (lvl v ≤ k) then 0 else 1) + cut lvl k E := by simp [cut]
    rw [e1, card_symmDiff_mod, Nat.add_mod, card_symmDiff_mod, ← ih, e2]
    simp only [Finset.filter_singleton]
    by_cases h1 : lvl u ≤ k <;> by_cases h2 : lvl v ≤ k <;> simp [h1, h2]

theorem cut_append (lvl : V → ℕ) (k) (A B : List (V × V)) : cut lvl k (A ++ B) = cut lvl k A + cut lvl k B := by simp [cut]

/-- every edge lies in at most one cut -/
theorem cuts_le (lvl : V → ℕ) (h : ℕ) : ∀ E : List (V × V), (∀ e ∈ E, lvl e.1 ≤ lvl e.2 + 1 ∧ lvl e.2 ≤ lvl e.1 + 1) →
    ∑ k ∈ Finset.range h, cut lvl k E ≤ E.length
  | [], _ => by simp [cut]
  | (u, v) :: E, hE => by
    have ih := cuts_le lvl h E fun e he => hE e (List.mem_cons_of_mem _ he)
    have huv := hE (u, v) (List.mem_cons_self ..)
    simp only at huv
    have e2 : ∀ k, cut lvl k ((u, v) :: E) = (if (lvl u ≤ k) ↔ (lvl v ≤ k) then 0 else 1) + cut lvl k E := by intro k; simp [cut]
    simp only [e2, Finset.sum_add_distrib, List.length_cons]
    have : ∑ k ∈ Finset.range h, (if (lvl u ≤ k) ↔ (lvl v ≤ k) then 0 else 1) ≤ 1 := by
      calc ∑ k ∈ Finset.range h, (if (lvl u ≤ k) ↔ (lvl v ≤ k) then 0 else 1)
          ≤ ∑ k ∈ Finset.range h, (if k = min (lvl u) (lvl v) then 1 else 0) := by
            apply Finset.sum_le_sum
            intro k _
            by_cases hk : k = min (lvl u) (lvl v)
            · rw [if_pos hk]; split_ifs <;> omega
            · rw [if_neg hk]
              have : (lvl u ≤ k) ↔ (lvl v ≤ k) := by omega
              rw [if_pos this]
        _ ≤ 1 := by rw [Finset.sum_ite_eq']; split_ifs <;> omega
    omega

/-- (ii) edges without odd checks that cross the readout line an odd number of times reach from one side to the other -/
theorem crossing_long (lvl : V → ℕ) (h : ℕ) (F : List (V × V)) (hF : ∀ e ∈ F, lvl e.1 ≤ lvl e.2 + 1 ∧ lvl e.2 ≤ lvl e.1 + 1)
    (ho : ∀ v ∈ odd F, lvl v = 0 ∨ lvl v = h) (hc : cut lvl 0 F % 2 = 1) : h ≤ F.length := by
  refine le_trans ?_ (cuts_le lvl h F hF)
  have : ∀ k ∈ Finset.range h, 1 ≤ cut lvl k F := by
    intro k hk
    have hk := Finset.mem_range.mp hk
    have : cut lvl k F % 2 = 1 := by
      rw [cut_parity] at hc ⊢
      rw [← hc]
      congr 2
      ext v
      simp only [Finset.mem_filter]
      constructor
      · rintro ⟨h1, h2⟩; exact ⟨h1, by rcases ho v h1 with h3 | h3 <;> omega⟩
      · rintro ⟨h1, h2⟩; exact ⟨h1, by omega⟩
    omega
  calc h = ∑ k ∈ Finset.range h, 1 := by simp
    _ ≤ _ := Finset.sum_le_sum this

/-- (iii) a shortest path as a list of edges -/
theorem shortest (hG : G.Connected) (a b : V) : ∃ P : List (V × V), (∀ e ∈ P, G.Adj e.1 e.2) ∧ P.length = G.dist a b ∧ odd P = symmDiff {a} {b} := by
  obtain ⟨p, hp⟩ := hG.exists_walk_length_eq_dist a b
  rw [← hp]
  clear hp
  induction p with
  | nil => exact ⟨[], by simp, by simp, by simp [odd]⟩
  | @cons u v w hadj p ih =>
    obtain ⟨P, h1, h2, h3⟩ := ih
    refine ⟨(u, v) :: P, ?_, by simp [h2], ?_⟩
    · intro e he
      rcases List.mem_cons.mp he with rfl | he
      · exact hadj
      · exact h1 e he
    · show symmDiff (symmDiff {u} {v}) (odd P) = _
      rw [h3, symmDiff_assoc, symmDiff_symmDiff_cancel_left]

section Final
variable (lvl : V → ℕ) (h : ℕ) (virt : Finset V)

/-- weights of the error graph (negated): nodes are checks, virtual nodes and possibly one extra virtual node (none) -/
noncomputable def w : Option V → Option V → ℕ
  | some a, some b => if a ∈ virt ∧ b ∈ virt then 0 else G.dist a b
  | _, _ => 0

/-- the edges of the error graph: all pairs, but the extra virtual node is joined to virtual nodes only -/
def ok : Option V → Option V → Prop
  | some _, some _ => True
  | none, some b => b ∈ virt
  | some a, none => a ∈ virt
  | none, none => False

/-- what counts as a crossing of the readout line: a match, not between two virtual nodes, with an end on the line -/
def crossing : Option V → Option V → Prop
  | some a, some b => ¬ (a ∈ virt ∧ b ∈ virt) ∧ (lvl a = 0 ∨ lvl b = 0)
  | _, _ => False

noncomputable def crossings (M : List (Option V × Option V)) : ℕ := (M.map fun p => if crossing lvl virt p.1 p.2 then 1 else 0).sum

/-- checks with odd degree -/
noncomputable def hits (E : List (V × V)) : Finset V := (odd E).filter fun v => v ∉ virt

/-- nodes of the error graph -/
noncomputable def nodes (E : List (V × V)) : Finset (Option V) :=
  ((hits virt E) ∪ virt).image some ∪ (if (hits virt E).card % 2 = 1 then {none} else ∅)

theorem Pairs.append {N : Type*} [DecidableEq N] {w : N → N → ℕ} {ok : N → N → Prop} :
    ∀ {M1 M2 : List (N × N)} {A B : Finset N}, Pairs ok w M1 A → Pairs ok w M2 B → Disjoint A B → ∃ M, Pairs ok w M (A ∪ B) ∧ cost w M = cost w M1 + cost w M2
  | _, M2, _, B, .nil, h2, _ => ⟨M2, by simpa using h2, by simp [cost]⟩
  | _, M2, _, B, .cons (M := M1) (O := O) (a := a) (b := b) h1 ha hb hab hok, h2, hd => by
    simp only [Finset.disjoint_insert_left] at hd
    obtain ⟨M, hM, hc⟩ := Pairs.append h1 h2 hd.2.2
    refine ⟨(a, b) :: M, ?_, by rw [cost_cons, cost_cons, hc]; ring⟩
    rw [Finset.insert_union, Finset.insert_union]
    exact .cons hM (by simp [ha, hd.1]) (by simp [hb, hd.2.1]) hab hok

theorem Pairs.card {N : Type*} [DecidableEq N] {w : N → N → ℕ} {ok : N → N → Prop} : ∀ {M : List (N × N)} {A : Finset N}, Pairs ok w M A → A.card = 2 * M.length
  | _, _, .nil => by simp
  | _, _, .cons h1 ha hb hab _ => by
    rw [Finset.card_insert_of_notMem (by simp [ha, hab]), Finset.card_insert_of_notMem hb, h1.card]; simp; ring

theorem Pairs.lift {M : List (V × V)} {A : Finset V} (h1 : Pairs (fun _ _ => True) G.dist M A) :
    ∃ M', Pairs (ok virt) (w G virt) M' (A.image some) ∧ cost (w G virt) M' ≤ cost G.dist M := by
  induction h1 with
  | nil => exact ⟨[], by simpa using Pairs.nil, by simp [cost]⟩
  | @cons M A a b h1 ha hb hab _ ih =>
    obtain ⟨M', hM, hc⟩ := ih
    refine ⟨(some a, some b) :: M', ?_, ?_⟩
    · rw [Finset.image_insert, Finset.image_insert]
      exact Pairs.cons (a := some a) (b := some b) hM (by simp [ha]) (by simp [hb]) (by simp [hab]) trivial
    · rw [cost_cons, cost_cons]
      have : w G virt (some a) (some b) ≤ G.dist a b := by
        simp only [w]; split_ifs <;> omega
      omega

/-- an even number of virtual nodes, the extra one among them or not, can be paired at no cost -/
theorem free : ∀ n (S : Finset (Option V)), S.card = 2 * n → (∀ x ∈ S, ∀ a, x = some a → a ∈ virt) → ∃ M, Pairs (ok virt) (w G virt) M S ∧ cost (w G virt) M = 0
  | 0, S, hS, _ => ⟨[], by simp at hS; subst hS; exact .nil, by simp [cost]⟩
  | n + 1, S, hS, hv => by
    obtain ⟨x, hx⟩ : S.Nonempty := Finset.card_pos.mp (by omega)
    have h1 : (S.erase x).card = 2 * n + 1 := by rw [Finset.card_erase_of_mem hx]; omega
    obtain ⟨y, hy⟩ : (S.erase x).Nonempty := Finset.card_pos.mp (by omega)
    have h2 : ((S.erase x).erase y).card = 2 * n := by rw [Finset.card_erase_of_mem hy]; omega
    obtain ⟨M, hM, hc⟩ := free n _ h2 fun z hz => hv z (Finset.mem_of_mem_erase (Finset.mem_of_mem_erase hz))
    have hyS := Finset.mem_of_mem_erase hy
    have hxy : x ≠ y := fun e => by simp [e] at hy
    refine ⟨(x, y) :: M, ?_, ?_⟩
    · have : S = insert x (insert y ((S.erase x).erase y)) := by
        rw [Finset.insert_erase hy, Finset.insert_erase hx]
      rw [this]
      refine .cons hM (by simp) (by simp) hxy ?_
      match x, y, hx, hyS, hxy with
      | some a, some b, _, _, _ => trivial
      | none, some b, _, hy, _ => exact hv _ hy b rfl
      | some a, none, hx, _, _ => exact hv _ hx a rfl
      | none, none, _, _, hxy => exact absurd rfl hxy
    · rw [cost_cons, hc]
      match x, y, hx, hyS with
      | some a, some b, hx, hy => simp [w, hv _ hx a rfl, hv _ hy b rfl]
      | none, some b, _, _ => simp [w]
      | some a, none, _, _ => simp [w]
      | none, none, _, _ => simp [w]

/-- the faults give a perfect matching of the error graph that costs no more than their number -/
theorem fault_matching (hG : G.Connected) (hev : virt.card % 2 = 0) (E : List (V × V)) (hE : ∀ e ∈ E, G.Adj e.1 e.2) :
    ∃ M, Pairs (ok virt) (w G virt) M (nodes virt E) ∧ cost (w G virt) M ≤ E.length := by
  obtain ⟨M1, hM1, hc1⟩ := pairing G hG E hE
  obtain ⟨M2, hM2, hc2⟩ := Pairs.lift G virt hM1
  have hsub : (odd E).image some ⊆ nodes virt E := by
    intro x hx
    obtain ⟨a, ha, rfl⟩ := Finset.mem_image.mp hx
    refine Finset.mem_union_left _ (Finset.mem_image_of_mem _ ?_)
    by_cases hv : a ∈ virt <;> simp [hits, ha, hv]
  have hdisj : Disjoint (hits virt E) virt := Finset.disjoint_left.mpr fun x h1 h2 => by simp [hits] at h1; exact h1.2 h2
  have hnd : (nodes virt E).card % 2 = 0 := by
    have hn : Disjoint ((hits virt E ∪ virt).image some) (if (hits virt E).card % 2 = 1 then ({none} : Finset (Option V)) else ∅) := by
      refine Finset.disjoint_left.mpr fun x h1 h2 => ?_
      obtain ⟨a, _, rfl⟩ := Finset.mem_image.mp h1
      split_ifs at h2 <;> simp at h2
    unfold nodes
    rw [Finset.card_union_of_disjoint hn, Finset.card_image_of_injective _ (Option.some_injective V), Finset.card_union_of_disjoint hdisj]
    split_ifs <;> simp <;> omega
  have hrest : (nodes virt E \ (odd E).image some).card % 2 = 0 := by
    have h1 := Finset.card_sdiff_add_card_eq_card hsub
    have h2 : ((odd E).image some).card % 2 = 0 := by
      rw [Finset.card_image_of_injective _ (Option.some_injective V)]; exact card_odd_even E
    omega
  obtain ⟨n, hn⟩ : ∃ n, (nodes virt E \ (odd E).image some).card = 2 * n := ⟨_, (Nat.mul_div_cancel' (Nat.dvd_of_mod_eq_zero hrest)).symm⟩
  obtain ⟨M3, hM3, hc3⟩ := free G virt n _ hn (by
    intro x hx a hxa
    subst hxa
    simp only [nodes, Finset.mem_sdiff, Finset.mem_union, Finset.mem_image] at hx
    obtain ⟨h1 | h1, h2⟩ := hx
    · obtain ⟨b, hb, hba⟩ := h1
      cases hba
      rcases hb with hb | hb
      · exact absurd ⟨a, (Finset.mem_filter.mp hb).1, rfl⟩ h2
      · exact hb
    · split_ifs at h1 <;> simp at h1)
  obtain ⟨M, hM, hc⟩ := Pairs.append hM2 hM3 Finset.disjoint_sdiff
  refine ⟨M, ?_, by omega⟩
  rwa [Finset.union_sdiff_of_subset hsub] at hM

/-- the shortest paths of the pairs of a matching -/
theorem paths (hG : G.Connected) (hvirt : ∀ a, a ∈ virt ↔ lvl a = 0 ∨ lvl a = h) {M O}
    (hM : Pairs (ok virt) (w G virt) M O) :
    ∃ P : List (V × V), (∀ e ∈ P, G.Adj e.1 e.2) ∧ P.length = cost (w G virt) M ∧ (∀ a, a ∉ virt → (a ∈ odd P ↔ some a ∈ O)) ∧
      cut lvl 0 P % 2 = crossings lvl virt M % 2 := by
  induction hM with
  | nil => exact ⟨[], by simp, by simp [cost], by simp [odd], by simp [cut, crossings]⟩
  | @cons M O x y hM hx hy hxy hok ih =>
    obtain ⟨P, h1, h2, h3, h4⟩ := ih
    have hc : crossings lvl virt ((x, y) :: M) = (if crossing lvl virt x y then 1 else 0) + crossings lvl virt M := by simp [crossings]
    have same : (∀ a, a ∉ virt → (some a ∈ insert x (insert y O) ↔ some a ∈ O)) → w G virt x y = 0 → ¬ crossing lvl virt x y →
        ∃ P : List (V × V), (∀ e ∈ P, G.Adj e.1 e.2) ∧ P.length = cost (w G virt) ((x, y) :: M) ∧ (∀ a, a ∉ virt → (a ∈ odd P ↔ some a ∈ insert x (insert y O))) ∧
          cut lvl 0 P % 2 = crossings lvl virt ((x, y) :: M) % 2 := by
      intro e1 e2 e3
      exact ⟨P, h1, by rw [cost_cons, e2, h2]; simp, fun a ha => by rw [h3 a ha, e1 a ha], by rw [hc, h4, if_neg e3]; simp⟩
    match x, y, hx, hy, hxy, hok with
    | none, none, _, _, _, hok => exact absurd hok (by simp [ok])
    | none, some b, hx, hy, _, hok =>
      refine same ?_ (by simp [w]) (by simp [crossing])
      intro a ha; simp only [Finset.mem_insert]; constructor
      · rintro (h | h | h)
        · simp at h
        · cases h; exact absurd hok ha
        · exact h
      · intro h; exact Or.inr (Or.inr h)
    | some b, none, hx, hy, _, hok =>
      refine same ?_ (by simp [w]) (by simp [crossing])
      intro a ha; simp only [Finset.mem_insert]; constructor
      · rintro (h | h | h)
        · cases h; exact absurd hok ha
        · simp at h
        · exact h
      · intro h; exact Or.inr (Or.inr h)
    | some a, some b, hx, hy, hxy, _ =>
      by_cases hv : a ∈ virt ∧ b ∈ virt
      · refine same ?_ (by simp [w, hv]) (by simp [crossing, hv])
        intro c hc; simp only [Finset.mem_insert]; constructor
        · rintro (h | h | h)
          · cases h; exact absurd hv.1 hc
          · cases h; exact absurd hv.2 hc
          · exact h
        · intro h; exact Or.inr (Or.inr h)
      · obtain ⟨Q, q1, q2, q3⟩ := shortest G hG a b
        have hab : a ≠ b := fun e => hxy (by rw [e])
        refine ⟨Q ++ P, ?_, ?_, ?_, ?_⟩
        · intro e he
          rcases List.mem_append.mp he with he | he
          · exact q1 e he
          · exact h1 e he
        · rw [List.length_append, cost_cons, q2, h2]; simp [w, hv]
        · intro c hc
          rw [odd_append, q3]
          have := h3 c hc
          simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_insert, Option.some.injEq, this]
          by_cases e1 : c = a
          · subst e1; simp [hab, hx]
          · by_cases e2 : c = b
            · subst e2; simp [Ne.symm hab, hy]
            · simp [e1, e2]
        · have e : (symmDiff {a} {b} : Finset V) = {a, b} := by
            ext z; simp only [Finset.mem_symmDiff, Finset.mem_singleton, Finset.mem_insert]
            by_cases e1 : z = a <;> by_cases e2 : z = b <;> simp_all
          have hnot : ¬ (lvl a = 0 ∧ lvl b = 0) := fun ⟨e1, e2⟩ => hv ⟨(hvirt a).mpr (Or.inl e1), (hvirt b).mpr (Or.inl e2)⟩
          have key : ((odd Q).filter fun v => lvl v ≤ 0).card = if crossing lvl virt (some a) (some b) then 1 else 0 := by
            rw [q3, e]
            simp only [Finset.filter_insert, Finset.filter_singleton, crossing, Nat.le_zero]
            by_cases e1 : lvl a = 0 <;> by_cases e2 : lvl b = 0 <;> simp_all
          have hq := cut_parity lvl 0 Q
          rw [key] at hq
          rw [cut_append, hc]
          omega

/-- Let E be the edges of fewer than h/2 faults and M a matching of the error graph as max_weight_matching with max_cardinality returns it:
    as many pairs as possible and, among those, the smallest total distance.  Then the matches that cross the readout line have the parity
    of the faults that flip the readout. -/
theorem corrected (hG : G.Connected) (hl : ∀ a b, G.Adj a b → lvl a ≤ lvl b + 1) 
    (hvirt : ∀ a, a ∈ virt ↔ lvl a = 0 ∨ lvl a = h) (hev : virt.card % 2 = 0)
    (E : List (V × V)) (hE : ∀ e ∈ E, G.Adj e.1 e.2) (hlen : 2 * E.length < h)
    (M O) (hO : O ⊆ nodes virt E) (hM : Pairs (ok virt) (w G virt) M O)
    (hmax : ∀ M' O', O' ⊆ nodes virt E → Pairs (ok virt) (w G virt) M' O' → M'.length ≤ M.length)
    (hmin : ∀ M' O', O' ⊆ nodes virt E → Pairs (ok virt) (w G virt) M' O' → M'.length = M.length → cost (w G virt) M ≤ cost (w G virt) M') :
    crossings lvl virt M % 2 = cut lvl 0 E % 2 := by
  obtain ⟨M1, hM1, hc1⟩ := fault_matching G virt hG hev E hE
  have hlen1 := hmax M1 _ (Finset.Subset.refl _) hM1
  have hOeq : O = nodes virt E := Finset.eq_of_subset_of_card_le hO (by rw [hM1.card, hM.card]; omega)
  subst hOeq
  have hlen2 : M1.length = M.length := by have := hM1.card; have := hM.card; omega
  have hcM := hmin M1 _ (Finset.Subset.refl _) hM1 hlen2
  obtain ⟨P, p1, p2, p3, p4⟩ := paths G lvl h virt hG hvirt hM
  rw [← p4]
  by_contra hne
  have hodd : cut lvl 0 (E ++ P) % 2 = 1 := by rw [cut_append]; omega
  have := crossing_long lvl h (E ++ P) (by
    intro e he
    have hadj : G.Adj e.1 e.2 := by
      rcases List.mem_append.mp he with he | he
      · exact hE e he
      · exact p1 e he
    exact ⟨hl _ _ hadj, hl _ _ hadj.symm⟩) (by
    intro v hv
    rw [← hvirt]
    by_contra hvv
    rw [odd_append, Finset.mem_symmDiff, p3 v hvv] at hv
    have : some v ∈ nodes virt E ↔ v ∈ odd E := by
      simp only [nodes, hits, Finset.mem_union, Finset.mem_image, Finset.mem_filter]
      constructor
      · rintro (⟨a, h1, h2⟩ | h1)
        · cases h2
          rcases h1 with h1 | h1
          · exact h1.1
          · exact absurd h1 hvv
        · by_cases hq : (Finset.filter (fun v => v ∉ virt) (odd E)).card % 2 = 1 <;> simp [hq] at h1
      · intro h1; exact Or.inl ⟨v, Or.inl ⟨h1, hvv⟩, rfl⟩
    tauto) hodd
  rw [List.length_append] at this
  omega

/-- no check reports a change: nothing is to be corrected -/
theorem silent (hl : ∀ a b, G.Adj a b → lvl a ≤ lvl b + 1) (hvirt : ∀ a, a ∈ virt ↔ lvl a = 0 ∨ lvl a = h)
    (E : List (V × V)) (hE : ∀ e ∈ E, G.Adj e.1 e.2) (hlen : 2 * E.length < h) (h0 : hits virt E = ∅) : cut lvl 0 E % 2 = 0 := by
  by_contra hne
  have := crossing_long lvl h E (fun e he => ⟨hl _ _ (hE e he), hl _ _ (hE e he).symm⟩) (by
    intro v hv
    rw [← hvirt]
    by_contra hvv
    have : v ∈ hits virt E := by simp [hits, hv, hvv]
    rw [h0] at this; simp at this) (by omega)
  omega

end Final

/-- a graph in which every vertex but one has a neighbour of smaller potential is connected -/
theorem connected_of_potential (r : V) (φ : V → ℕ) (hφ : ∀ v, v ≠ r → ∃ u, G.Adj v u ∧ φ u < φ v) : G.Connected := by
  have key : ∀ n v, φ v = n → G.Reachable v r := by
    intro n
    induction n using Nat.strong_induction_on with
    | _ n ih =>
      intro v hv
      by_cases e : v = r
      · subst e; exact SimpleGraph.Reachable.refl _
      · obtain ⟨u, hu, hlt⟩ := hφ v e
        exact hu.reachable.trans (ih (φ u) (hv ▸ hlt) u rfl)
  have : Nonempty V := ⟨r⟩
  exact ⟨fun a b => (key _ a rfl).trans (key _ b rfl).symm⟩

end C09
#print axioms C09.corrected
#print axioms C09.silent
#print axioms C09.connected_of_potential
