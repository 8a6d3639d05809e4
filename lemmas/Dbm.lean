/-
Two facts about difference-bound matrices that the contracts of C03/C04/C10 use but that need an
induction over the number of clocks, which first-order solvers do not do:

* `extend`   : a valuation of some clocks satisfying a closed matrix restricted to them extends to one more clock
               (so forgetting or resetting a clock of a canonical zone loses exactly the information about that clock);
* `nonempty` : a closed matrix without negative diagonal entries has a valuation
               (so "no negative cycle on the diagonal of the canonical form" means "not empty").

A bound is `none` (no bound) or `some (c, s)`: "≤ c" if `s`, "< c" otherwise, as in the C++ code.
-/
import Mathlib.Data.Real.Basic
import Mathlib.Data.Finset.Max
import Mathlib.Data.Fintype.Basic
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.NormNum
import Mathlib.Tactic.Tauto

namespace Dbm

abbrev Bound := Option (ℝ × Bool)

def sat (d : ℝ) : Bound → Prop
  | none => True
  | some (c, true) => d ≤ c
  | some (c, false) => d < c

/-- `ble a b`: bound `a` is at least as tight as the bound `b` (the lexicographic order of the code) -/
def ble : Bound → Bound → Prop
  | _, none => True
  | none, some _ => False
  | some (c, s), some (d, t) => c < d ∨ (c = d ∧ (s = true → t = true))

def badd : Bound → Bound → Bound
  | some (c, s), some (d, t) => some (c + d, s && t)
  | _, _ => none

theorem sat_mono {d : ℝ} {a b : Bound} (h : ble a b) (hs : sat d a) : sat d b := by
  rcases b with _ | ⟨c', t⟩
  · trivial
  rcases a with _ | ⟨c, s⟩
  · exact absurd h (by simp [ble])
  cases s <;> cases t <;> simp only [ble, sat] at * <;> rcases h with h | ⟨h, h'⟩ <;> first | linarith | simp at h'

/-- finitely many lower and upper limits, pairwise compatible, have a common point -/
theorem between {ι : Type} [DecidableEq ι] (L U : Finset ι) (a : ι → ℝ) (s : ι → Bool) (b : ι → ℝ) (t : ι → Bool)
    (h : ∀ i ∈ L, ∀ j ∈ U, a i < b j ∨ (a i = b j ∧ s i = true ∧ t j = true)) :
    ∃ r : ℝ, (∀ i ∈ L, a i < r ∨ (a i = r ∧ s i = true)) ∧ (∀ j ∈ U, r < b j ∨ (r = b j ∧ t j = true)) := by
  rcases L.eq_empty_or_nonempty with hL | hL
  · rcases U.eq_empty_or_nonempty with hU | hU
    · exact ⟨0, by simp [hL], by simp [hU]⟩
    · obtain ⟨m, hm, hmin⟩ := U.exists_min_image b hU
      refine ⟨b m - 1, by simp [hL], fun j hj => Or.inl ?_⟩
      have := hmin j hj; linarith
  · obtain ⟨k, hk, hmax⟩ := L.exists_max_image a hL
    rcases U.eq_empty_or_nonempty with hU | hU
    · refine ⟨a k + 1, fun i hi => Or.inl ?_, by simp [hU]⟩
      have := hmax i hi; linarith
    · obtain ⟨m, hm, hmin⟩ := U.exists_min_image b hU
      rcases h k hk m hm with hlt | ⟨heq, hs, ht⟩
      · refine ⟨(a k + b m) / 2, fun i hi => Or.inl ?_, fun j hj => Or.inl ?_⟩
        · have := hmax i hi; linarith
        · have := hmin j hj; linarith
      · refine ⟨a k, fun i hi => ?_, fun j hj => ?_⟩
        · rcases lt_or_eq_of_le (hmax i hi) with h1 | h1
          · exact Or.inl h1
          · refine Or.inr ⟨h1, ?_⟩
            rcases h i hi m hm with h2 | ⟨_, h3, _⟩
            · exfalso; linarith
            · exact h3
        · rcases lt_or_eq_of_le (hmin j hj) with h1 | h1
          · exact Or.inl (by linarith)
          · refine Or.inr ⟨by linarith, ?_⟩
            rcases h k hk j hj with h2 | ⟨_, _, h3⟩
            · exfalso; linarith
            · exact h3

variable {n : ℕ}

def closed (m : Fin n → Fin n → Bound) : Prop := ∀ i j l, ble (m i j) (badd (m i l) (m l j))

def diagNonneg (m : Fin n → Fin n → Bound) : Prop := ∀ i, ble (some (0, true)) (m i i)

def inZone (v : Fin n → ℝ) (m : Fin n → Fin n → Bound) (S : Finset (Fin n)) : Prop :=
  ∀ i ∈ S, ∀ j ∈ S, sat (v i - v j) (m i j)

theorem extend (m : Fin n → Fin n → Bound) (hc : closed m) (hd : diagNonneg m) (S : Finset (Fin n)) (x : Fin n)
    (hx : x ∉ S) (v : Fin n → ℝ) (hv : inZone v m S) :
    ∃ r : ℝ, inZone (Function.update v x r) m (insert x S) := by
  classical
  -- r - v j ≤ m x j  (upper limits)      v i - r ≤ m i x  (lower limits)
  let L := S.filter (fun i => (m i x).isSome)
  let U := S.filter (fun j => (m x j).isSome)
  obtain ⟨r, hlow, hup⟩ := between L U (fun i => v i - ((m i x).getD (0, true)).1) (fun i => ((m i x).getD (0, true)).2)
    (fun j => v j + ((m x j).getD (0, true)).1) (fun j => ((m x j).getD (0, true)).2) (by
      intro i hi j hj
      obtain ⟨hiS, hi⟩ := Finset.mem_filter.mp hi
      obtain ⟨hjS, hj⟩ := Finset.mem_filter.mp hj
      have h1 := sat_mono (hc i j x) (hv i hiS j hjS)
      obtain ⟨⟨c, s⟩, hcs⟩ := Option.isSome_iff_exists.mp hi
      obtain ⟨⟨d, t⟩, hdt⟩ := Option.isSome_iff_exists.mp hj
      simp only [hcs, hdt, Option.getD_some]
      rw [hcs, hdt] at h1
      cases s <;> cases t <;> simp [badd, sat] at h1 ⊢
      · linarith
      · linarith
      · linarith
      · rcases lt_or_eq_of_le h1 with h2 | h2
        · left; linarith
        · right; linarith)
  refine ⟨r, ?_⟩
  intro i hi j hj
  rcases Finset.mem_insert.mp hi with rfl | hiS
  · rcases Finset.mem_insert.mp hj with rfl | hjS
    · have : sat (0 : ℝ) (m j j) := sat_mono (hd j) (by simp [sat])
      simpa using this
    · have hne : j ≠ i := fun h => hx (h ▸ hjS)
      rw [Function.update_self, Function.update_of_ne hne]
      rcases hm : m i j with _ | ⟨d, t⟩
      · trivial
      · have := hup j (Finset.mem_filter.mpr ⟨hjS, by simp [hm]⟩)
        simp only [hm, Option.getD_some] at this
        cases t <;> simp [sat] at this ⊢
        · linarith
        · rcases this with h | h <;> linarith
  · have hne : i ≠ x := fun h => hx (h ▸ hiS)
    rcases Finset.mem_insert.mp hj with rfl | hjS
    · rw [Function.update_self, Function.update_of_ne hne]
      rcases hm : m i j with _ | ⟨d, t⟩
      · trivial
      · have := hlow i (Finset.mem_filter.mpr ⟨hiS, by simp [hm]⟩)
        simp only [hm, Option.getD_some] at this
        cases t <;> simp [sat] at this ⊢
        · linarith
        · rcases this with h | h <;> linarith
    · have hne' : j ≠ x := fun h => hx (h ▸ hjS)
      rw [Function.update_of_ne hne, Function.update_of_ne hne']
      exact hv i hiS j hjS

/-- as `extend`, above a given limit `a` that is strictly compatible with the upper limits:
    every valuation of the elapsed zone is reached by a strictly positive delay from the zone (take x = the constant) -/
theorem extend_above (m : Fin n → Fin n → Bound) (hc : closed m) (hd : diagNonneg m) (S : Finset (Fin n)) (x : Fin n)
    (hx : x ∉ S) (v : Fin n → ℝ) (hv : inZone v m S) (a : ℝ)
    (ha : ∀ j ∈ S, ∀ c s, m x j = some (c, s) → a - v j < c) :
    ∃ r : ℝ, a < r ∧ inZone (Function.update v x r) m (insert x S) := by
  classical
  -- the points between a and the limits: move from a solution r0 of `extend` towards a
  obtain ⟨r0, h0⟩ := extend m hc hd S x hx v hv
  by_cases h : a < r0
  · exact ⟨r0, h, h0⟩
  · replace h := not_lt.mp h
    -- r0 ≤ a: all lower limits are met at a, and above it; upper limits are strict at a
    let U := S.filter (fun j => (m x j).isSome)
    obtain ⟨r, hr1, hr2⟩ := between ({none} : Finset (Option (Fin n))) (U.map Function.Embedding.some) (fun _ => a) (fun _ => false)
      (fun j => match j with | none => 0 | some j => v j + ((m x j).getD (0, true)).1) (fun _ => false) (by
        intro i _ j hj
        left
        obtain ⟨k, hk, rfl⟩ := Finset.mem_map.mp hj
        obtain ⟨hkS, hk⟩ := Finset.mem_filter.mp hk
        obtain ⟨⟨c, s⟩, hcs⟩ := Option.isSome_iff_exists.mp hk
        have := ha k hkS c s hcs
        simp only [Function.Embedding.some_apply, hcs, Option.getD_some]
        linarith)
    have har : a < r := by
      rcases hr1 none (by simp) with h | ⟨_, h⟩
      · exact h
      · simp at h
    refine ⟨r, har, ?_⟩
    intro i hi j hj
    have h00 := h0 i hi j hj
    rcases Finset.mem_insert.mp hi with rfl | hiS
    · rcases Finset.mem_insert.mp hj with rfl | hjS
      · simpa using h00
      · have hne : j ≠ i := fun h => hx (h ▸ hjS)
        rw [Function.update_self, Function.update_of_ne hne]
        rcases hm : m i j with _ | ⟨d, t⟩
        · trivial
        · have := hr2 (some j) (Finset.mem_map.mpr ⟨j, Finset.mem_filter.mpr ⟨hjS, by simp [hm]⟩, rfl⟩)
          simp only [hm, Option.getD_some] at this
          rcases this with h | ⟨_, h⟩
          · cases t <;> simp [sat] <;> linarith
          · simp at h
    · have hne : i ≠ x := fun h => hx (h ▸ hiS)
      rcases Finset.mem_insert.mp hj with rfl | hjS
      · rw [Function.update_self, Function.update_of_ne hne] at h00 ⊢
        rcases hm : m i j with _ | ⟨d, t⟩
        · trivial
        · rw [hm] at h00
          cases t <;> simp [sat] at h00 ⊢ <;> linarith
      · have hne' : j ≠ x := fun h => hx (h ▸ hjS)
        rw [Function.update_of_ne hne, Function.update_of_ne hne'] at h00 ⊢
        exact h00

theorem nonempty (m : Fin n → Fin n → Bound) (hc : closed m) (hd : diagNonneg m) :
    ∃ v : Fin n → ℝ, inZone v m Finset.univ := by
  classical
  suffices h : ∀ S : Finset (Fin n), ∃ v : Fin n → ℝ, inZone v m S from h Finset.univ
  intro S
  induction S using Finset.induction_on with
  | empty => exact ⟨fun _ => 0, by intro i hi; simp at hi⟩
  | insert x S hx ih =>
    obtain ⟨v, hv⟩ := ih
    obtain ⟨r, hr⟩ := extend m hc hd S x hx v hv
    exact ⟨_, hr⟩

end Dbm

#print axioms Dbm.extend
#print axioms Dbm.extend_above
#print axioms Dbm.nonempty
