/-
What the obligations proved for the graph operations of the zone automaton add up to.
`step x y`: there is a transition from x to y.
-/
import Mathlib.Logic.Relation
import Mathlib.Tactic

namespace Graph

variable {S : Type*} (step : S → S → Prop) (init acc : S → Prop)

/-- a set that contains the start, is closed under transitions and lies within every such set is the set of reachable states -/
theorem least_closed (V : S → Prop)
    (h0 : ∀ x, init x → V x) (hc : ∀ x y, V x → step x y → V y)
    (hl : ∀ C : S → Prop, (∀ x, init x → C x) → (∀ x y, C x → step x y → C y) → ∀ x, V x → C x) :
    ∀ x, V x ↔ ∃ i, init i ∧ Relation.ReflTransGen step i x := by
  intro x
  constructor
  · intro hx
    refine hl (fun x => ∃ i, init i ∧ Relation.ReflTransGen step i x) ?_ ?_ x hx
    · exact fun i hi => ⟨i, hi, Relation.ReflTransGen.refl⟩
    · rintro a b ⟨i, hi, ha⟩ hab
      exact ⟨i, hi, ha.tail hab⟩
  · rintro ⟨i, hi, hx⟩
    induction hx with
    | refl => exact h0 _ hi
    | tail _ hab ih => exact hc _ _ ih hab

/-- removeDeadStates: the set R the kept states are selected by is exactly the set of the states that are
    reachable and from which an accepting state is reachable -/
theorem live (V R : S → Prop)
    (h0 : ∀ x, init x → V x) (hc : ∀ x y, V x → step x y → V y)
    (ha : ∀ x, V x → acc x → R x) (hb : ∀ x y, V x → step x y → R y → R x)
    (hl : ∀ C : S → Prop, (∀ x, init x → C x) → (∀ x y, C x → step x y → C y) → ∀ x, R x → C x)
    (hm : ∀ B : S → Prop, (∀ x, acc x → B x) → (∀ x y, step x y → B y → B x) → ∀ x, R x → B x) :
    ∀ x, R x ↔ (∃ i, init i ∧ Relation.ReflTransGen step i x) ∧ ∃ f, acc f ∧ Relation.ReflTransGen step x f := by
  intro x
  constructor
  · intro hx
    constructor
    · refine hl (fun x => ∃ i, init i ∧ Relation.ReflTransGen step i x) ?_ ?_ x hx
      · exact fun i hi => ⟨i, hi, Relation.ReflTransGen.refl⟩
      · rintro a b ⟨i, hi, h⟩ hab
        exact ⟨i, hi, h.tail hab⟩
    · refine hm (fun x => ∃ f, acc f ∧ Relation.ReflTransGen step x f) ?_ ?_ x hx
      · exact fun i hi => ⟨i, hi, Relation.ReflTransGen.refl⟩
      · rintro a b hab ⟨f, hf, h⟩
        exact ⟨f, hf, Relation.ReflTransGen.head hab h⟩
  · rintro ⟨⟨i, hi, hix⟩, f, hf, hxf⟩
    have hV : V x := by
      clear hxf hf
      induction hix with
      | refl => exact h0 _ hi
      | tail _ hab ih => exact hc _ _ ih hab
    have key : ∀ y, Relation.ReflTransGen step y f → V y → R y := by
      intro y hy
      induction hy using Relation.ReflTransGen.head_induction_on with
      | refl => exact fun hv => ha _ hv hf
      | head hab _ ih => exact fun hv => hb _ _ hv hab (ih (hc _ _ hv hab))
    exact key x hxf hV

/-- empty(): a closed set that contains the start and no accepting state shows that none is reachable;
    and if every closed set that contains the start has an accepting state, one is reachable -/
theorem empty_true (V : S → Prop)
    (h0 : ∀ x, init x → V x) (hc : ∀ x y, V x → step x y → V y) (hn : ∀ x, V x → ¬ acc x) :
    ¬ ∃ i f, init i ∧ acc f ∧ Relation.ReflTransGen step i f := by
  rintro ⟨i, f, hi, hf, h⟩
  have : V f := by
    clear hf
    induction h with
    | refl => exact h0 _ hi
    | tail _ hab ih => exact hc _ _ ih hab
  exact hn _ this hf

theorem empty_false
    (hl : ∀ C : S → Prop, (∀ x, init x → C x) → (∀ x y, C x → step x y → C y) → ∃ x, C x ∧ acc x) :
    ∃ i f, init i ∧ acc f ∧ Relation.ReflTransGen step i f := by
  obtain ⟨f, ⟨i, hi, h⟩, hf⟩ := hl (fun x => ∃ i, init i ∧ Relation.ReflTransGen step i x)
    (fun i hi => ⟨i, hi, Relation.ReflTransGen.refl⟩)
    (by rintro a b ⟨i, hi, h⟩ hab; exact ⟨i, hi, h.tail hab⟩)
  exact ⟨i, f, hi, hf, h⟩

/-- ta2za: if every initial configuration is represented by an initial state of the graph, and every move of a
    represented configuration leads, with the same letter, to one represented by a successor, then every run
    of the automaton is the label of a path of the graph between states that represent its ends -/
theorem simulates {C A : Type*} (move : C → A → C → Prop) (edge : S → A → S → Prop) (cinit : C → Prop) (rep : S → C → Prop)
    (h0 : ∀ c, cinit c → ∃ s, init s ∧ rep s c)
    (hs : ∀ s c a c', rep s c → move c a c' → ∃ s', edge s a s' ∧ rep s' c')
    (run : ℕ → C) (w : ℕ → A) (n : ℕ) (hi : cinit (run 0)) (hm : ∀ k, k < n → move (run k) (w k) (run (k + 1))) :
    ∃ path : ℕ → S, init (path 0) ∧ (∀ k, k < n → edge (path k) (w k) (path (k + 1))) ∧ ∀ k, k ≤ n → rep (path k) (run k) := by
  induction n with
  | zero =>
    obtain ⟨s, hs0, hr⟩ := h0 _ hi
    refine ⟨fun _ => s, hs0, by intro k hk; omega, ?_⟩
    intro k hk
    have : k = 0 := by omega
    subst this
    exact hr
  | succ n ih =>
    obtain ⟨path, hp0, hpe, hpr⟩ := ih (fun k hk => hm k (by omega))
    obtain ⟨s', he, hr⟩ := hs _ _ _ _ (hpr n le_rfl) (hm n (by omega))
    refine ⟨fun k => if k ≤ n then path k else s', by simpa using hp0, ?_, ?_⟩
    · intro k hk
      by_cases hkn : k + 1 ≤ n
      · have : k ≤ n := by omega
        simpa [hkn, this] using hpe k (by omega)
      · have : k = n := by omega
        subst this
        simpa using he
    · intro k hk
      by_cases hkn : k ≤ n
      · simpa [hkn] using hpr k hkn
      · have : k = n + 1 := by omega
        subst this
        simpa using hr

end Graph

#print axioms Graph.least_closed
#print axioms Graph.live
#print axioms Graph.empty_true
#print axioms Graph.empty_false
#print axioms Graph.simulates
