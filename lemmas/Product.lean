import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring

/-!
The structural contract of `intersectionTA` (specs/product.py) implies language equality.

A timed automaton is given by its initial states, accepting states and transitions; a transition has a letter
(`none` is the unobservable letter 0), a guard (a set of clock valuations), a set of reset clocks and a target.
`Prod` restates what the contract proves about the product: its states are pairs, its transitions are exactly the joint ones
(same letter) and the one-sided unobservable ones, clocks are the disjoint sum, guards are concatenated (conjunction) and
resets are concatenated (union).
-/
namespace Product

structure TA (S C L : Type) where
  init : S → Prop
  acc : S → Prop
  edge : S → Option L → ((C → ℝ) → Prop) → (C → Prop) → S → Prop

open Classical in
noncomputable def after {C : Type} (v : C → ℝ) (d : ℝ) (r : C → Prop) : C → ℝ :=
  fun x => if r x then 0 else v x + d

def wait {C : Type} (v : C → ℝ) (d : ℝ) : C → ℝ := fun x => v x + d

/-- an accepting run with n steps from state s, valuation v at time `now` over the word -/
inductive Run {S C L : Type} (A : TA S C L) : ℕ → S → (C → ℝ) → ℝ → List (L × ℝ) → Prop
  | done {s v now} : A.acc s → Run A 0 s v now []
  | eps {n s v now w t g r s'} : now ≤ t → A.edge s none g r s' → g (wait v (t - now)) →
      Run A n s' (after v (t - now) r) t w → Run A (n + 1) s v now w
  | obs {n s v now w a t g r s'} : now ≤ t → A.edge s (some a) g r s' → g (wait v (t - now)) →
      Run A n s' (after v (t - now) r) t w → Run A (n + 1) s v now ((a, t) :: w)

def Accepts {S C L : Type} (A : TA S C L) (w : List (L × ℝ)) : Prop :=
  ∃ n s, A.init s ∧ Run A n s (fun _ => 0) 0 w

variable {S T C D L : Type}

inductive PEdge (A : TA S C L) (B : TA T D L) :
    S × T → Option L → ((C ⊕ D → ℝ) → Prop) → (C ⊕ D → Prop) → S × T → Prop
  | joint {s t l g r s' h q t'} : A.edge s l g r s' → B.edge t l h q t' →
      PEdge A B (s, t) l (fun v => g (v ∘ Sum.inl) ∧ h (v ∘ Sum.inr)) (Sum.elim r q) (s', t')
  | left {s t g r s'} : A.edge s none g r s' →
      PEdge A B (s, t) none (fun v => g (v ∘ Sum.inl)) (Sum.elim r fun _ => False) (s', t)
  | right {s t h q t'} : B.edge t none h q t' →
      PEdge A B (s, t) none (fun v => h (v ∘ Sum.inr)) (Sum.elim (fun _ => False) q) (s, t')

def Prod (A : TA S C L) (B : TA T D L) : TA (S × T) (C ⊕ D) L where
  init p := A.init p.1 ∧ B.init p.2
  acc p := A.acc p.1 ∧ B.acc p.2
  edge := PEdge A B

theorem wait_wait (v : C → ℝ) (a b c : ℝ) : wait (wait v (b - a)) (c - b) = wait v (c - a) := by
  funext x; simp only [wait]; ring

theorem after_wait (v : C → ℝ) (a b c : ℝ) (r : C → Prop) : after (wait v (b - a)) (c - b) r = after v (c - a) r := by
  funext x; simp only [after, wait]; split <;> ring

theorem after_none (v : C → ℝ) (d : ℝ) : after v d (fun _ => False) = wait v d := by
  funext x; simp [after, wait]

theorem after_inl (v : C ⊕ D → ℝ) (d : ℝ) (r : C → Prop) (q : D → Prop) :
    after v d (Sum.elim r q) ∘ Sum.inl = after (v ∘ Sum.inl) d r := by
  funext x; by_cases h : r x <;> simp [after, h]

theorem after_inr (v : C ⊕ D → ℝ) (d : ℝ) (r : C → Prop) (q : D → Prop) :
    after v d (Sum.elim r q) ∘ Sum.inr = after (v ∘ Sum.inr) d q := by
  funext x; by_cases h : q x <;> simp [after, h]

theorem wait_inl (v : C ⊕ D → ℝ) (d : ℝ) : wait v d ∘ Sum.inl = wait (v ∘ Sum.inl) d := rfl
theorem wait_inr (v : C ⊕ D → ℝ) (d : ℝ) : wait v d ∘ Sum.inr = wait (v ∘ Sum.inr) d := rfl

/-- waiting before the first step does not matter -/
theorem Run.earlier {A : TA S C L} {n s v now u w} (hu : now ≤ u) (h : Run A n s (wait v (u - now)) u w) :
    Run A n s v now w := by
  cases h with
  | done a => exact Run.done a
  | eps ht e g k =>
    rw [wait_wait] at g; rw [after_wait] at k
    exact Run.eps (le_trans hu ht) e g k
  | obs ht e g k =>
    rw [wait_wait] at g; rw [after_wait] at k
    exact Run.obs (le_trans hu ht) e g k

/-- the next event lies not before the current time -/
theorem Run.time {A : TA S C L} {n s v now a t w} (h : Run A n s v now ((a, t) :: w)) : now ≤ t := by
  generalize hw : (a, t) :: w = w' at h
  induction h with
  | done => cases hw
  | eps ht _ _ _ ih => exact le_trans ht (ih hw)
  | obs ht _ _ _ _ => cases hw; exact ht

theorem sound {A : TA S C L} {B : TA T D L} {n p v now w} (h : Run (Prod A B) n p v now w) :
    (∃ m, Run A m p.1 (v ∘ Sum.inl) now w) ∧ (∃ m, Run B m p.2 (v ∘ Sum.inr) now w) := by
  induction h with
  | done a => exact ⟨⟨0, Run.done a.1⟩, ⟨0, Run.done a.2⟩⟩
  | eps ht e g k ih =>
    obtain ⟨⟨m, hm⟩, ⟨l, hl⟩⟩ := ih
    cases e with
    | joint ea eb =>
      rw [after_inl] at hm; rw [after_inr] at hl
      exact ⟨⟨_, Run.eps ht ea g.1 hm⟩, ⟨_, Run.eps ht eb g.2 hl⟩⟩
    | left ea =>
      rw [after_inl] at hm; rw [after_inr, after_none] at hl
      exact ⟨⟨_, Run.eps ht ea g hm⟩, ⟨_, Run.earlier ht hl⟩⟩
    | right eb =>
      rw [after_inl, after_none] at hm; rw [after_inr] at hl
      exact ⟨⟨_, Run.earlier ht hm⟩, ⟨_, Run.eps ht eb g hl⟩⟩
  | obs ht e g k ih =>
    obtain ⟨⟨m, hm⟩, ⟨l, hl⟩⟩ := ih
    cases e with
    | joint ea eb =>
      rw [after_inl] at hm; rw [after_inr] at hl
      exact ⟨⟨_, Run.obs ht ea g.1 hm⟩, ⟨_, Run.obs ht eb g.2 hl⟩⟩

/-- the unobservable steps of both operands are taken in order of time -/
theorem complete {A : TA S C L} {B : TA T D L} : ∀ (k m n : ℕ) (s : S) (t : T) (v : C ⊕ D → ℝ) (now : ℝ) (w : List (L × ℝ)),
    m + n = k → Run A m s (v ∘ Sum.inl) now w → Run B n t (v ∘ Sum.inr) now w → ∃ l, Run (Prod A B) l (s, t) v now w := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
  intro m n s t v now w hk ha hb
  -- the left operand alone at time u, the right one not before u
  have left : ∀ {m' u g r s'}, m = m' + 1 → now ≤ u → A.edge s none g r s' → g (wait (v ∘ Sum.inl) (u - now)) →
      Run A m' s' (after (v ∘ Sum.inl) (u - now) r) u w → Run B n t (wait (v ∘ Sum.inr) (u - now)) u w →
      ∃ l, Run (Prod A B) l (s, t) v now w := by
    intro m' u g r s' hm hu e hg h1 h2
    obtain ⟨l, hl⟩ := ih (m' + n) (by omega) m' n s' t (after v (u - now) (Sum.elim r fun _ => False)) u w rfl
      (by rw [after_inl]; exact h1) (by rw [after_inr, after_none]; exact h2)
    exact ⟨l + 1, Run.eps (A := Prod A B) hu (PEdge.left e) hg hl⟩
  have right : ∀ {n' u g r t'}, n = n' + 1 → now ≤ u → B.edge t none g r t' → g (wait (v ∘ Sum.inr) (u - now)) →
      Run B n' t' (after (v ∘ Sum.inr) (u - now) r) u w → Run A m s (wait (v ∘ Sum.inl) (u - now)) u w →
      ∃ l, Run (Prod A B) l (s, t) v now w := by
    intro n' u g r t' hn hu e hg h1 h2
    obtain ⟨l, hl⟩ := ih (m + n') (by omega) m n' s t' (after v (u - now) (Sum.elim (fun _ => False) r)) u w rfl
      (by rw [after_inl, after_none]; exact h2) (by rw [after_inr]; exact h1)
    exact ⟨l + 1, Run.eps (A := Prod A B) hu (PEdge.right e) hg hl⟩
  cases ha with
  | done a =>
    cases hb with
    | done b => exact ⟨0, Run.done ⟨a, b⟩⟩
    | eps hu e hg h => exact right rfl hu e hg h (Run.done a)
  | eps hu e hg h =>
    cases hb with
    | done b => exact left rfl hu e hg h (Run.done b)
    | eps hu' e' hg' h' =>
      rename_i u _ _ _ _ u' _ _ _
      rcases le_total u u' with hle | hle
      · refine left rfl hu e hg h (Run.eps hle e' ?_ ?_)
        · rw [wait_wait]; exact hg'
        · rw [after_wait]; exact h'
      · refine right rfl hu' e' hg' h' (Run.eps hle e ?_ ?_)
        · rw [wait_wait]; exact hg
        · rw [after_wait]; exact h
    | obs hu' e' hg' h' =>
      refine left rfl hu e hg h (Run.obs h.time e' ?_ ?_)
      · rw [wait_wait]; exact hg'
      · rw [after_wait]; exact h'
  | obs hu e hg h =>
    cases hb with
    | eps hu' e' hg' h' =>
      refine right rfl hu' e' hg' h' (Run.obs h'.time e ?_ ?_)
      · rw [wait_wait]; exact hg
      · rw [after_wait]; exact h
    | obs hu' e' hg' h' =>
      rename_i m' w' a u g r s' n' g' r' t'
      obtain ⟨l, hl⟩ := ih (m' + n') (by omega) m' n' s' t' (after v (u - now) (Sum.elim r r')) u w' rfl
        (by rw [after_inl]; exact h) (by rw [after_inr]; exact h')
      exact ⟨l + 1, Run.obs (A := Prod A B) hu (PEdge.joint e e') ⟨hg, hg'⟩ hl⟩

/-- the product accepts exactly the intersection -/
theorem language (A : TA S C L) (B : TA T D L) (w : List (L × ℝ)) : Accepts (Prod A B) w ↔ Accepts A w ∧ Accepts B w := by
  constructor
  · rintro ⟨n, p, hi, h⟩
    obtain ⟨⟨m, hm⟩, ⟨l, hl⟩⟩ := sound h
    exact ⟨⟨m, p.1, hi.1, hm⟩, ⟨l, p.2, hi.2, hl⟩⟩
  · rintro ⟨⟨m, s, hs, ha⟩, ⟨n, t, ht, hb⟩⟩
    obtain ⟨l, hl⟩ := complete (m + n) m n s t (fun _ => 0) 0 w rfl ha hb
    exact ⟨l, (s, t), ⟨hs, ht⟩, hl⟩

end Product

#print axioms Product.language
