/-
The axioms of vc/theory.py about the spec functions of hash tries, proved for an explicit model:
trees as an inductive type, the spec functions as recursive definitions over it.  The generator gives z3
the statements marked [axiom: ...] below; nothing else about trees is assumed there.
  E element type, K equality classes (keys), cls the class of an element, idx k d the 3-bit hash group of
  class k at depth d (hidx (HS k d)); all arbitrary.
-/
import Mathlib.Data.List.Perm.Subperm
import Mathlib.Data.List.Nodup
import Mathlib.Algebra.BigOperators.Group.List.Basic
import Mathlib.Data.Multiset.AddSub
import Mathlib.Data.Multiset.Basic
import Mathlib.Algebra.Group.Int.Defs

set_option linter.unusedSectionVars false
set_option linter.unusedTactic false
set_option linter.unreachableTactic false
set_option linter.unusedVariables false
set_option linter.unusedSimpArgs false

namespace Trie
open Classical

variable {E K : Type} [Inhabited E] (cls : E → K) (idx : K → Int → Fin 8)

inductive Node (E : Type) where
  | nil : Node E
  | l1 (x : E) : Node E
  | l2 (a b : E) : Node E
  | tw (a : List E) (cap : Nat) : Node E
  | br (mask : Fin 16 → Bool) (ch : Fin 8 → Node E) : Node E

open Node

def kind : Node E → Nat
  | nil => 0 | l1 _ => 1 | l2 _ _ => 2 | tw _ _ => 3 | br _ _ => 4

/-- the elements in iteration order -/
def toList : Node E → List E
  | nil => [] | l1 x => [x] | l2 a b => [a, b] | tw a _ => a
  | br _ c => toList (c 0) ++ toList (c 1) ++ toList (c 2) ++ toList (c 3) ++ toList (c 4) ++ toList (c 5) ++ toList (c 6) ++ toList (c 7)

def CNT : Node E → Nat
  | nil => 0 | l1 _ => 1 | l2 _ _ => 2 | tw a _ => a.length
  | br _ c => CNT (c 0) + CNT (c 1) + CNT (c 2) + CNT (c 3) + CNT (c 4) + CNT (c 5) + CNT (c 6) + CNT (c 7)

def HAS : Node E → K → Prop
  | nil, _ => False
  | l1 x, k => k = cls x
  | l2 a b, k => k = cls a ∨ k = cls b
  | tw a _, k => ∃ e ∈ a, cls e = k
  | br _ c, k => ∃ j, HAS (c j) k

/-- first element of a list with class k -/
noncomputable def find (l : List E) (k : K) : E := (l.find? (fun e => decide (cls e = k))).getD default
noncomputable def pos (l : List E) (k : K) : Nat := l.findIdx (fun e => decide (cls e = k))

noncomputable def VAL (n : Node E) (k : K) : E := find cls (toList n) k
noncomputable def epos (n : Node E) (k : K) : Nat := pos cls (toList n) k
noncomputable def elem (n : Node E) (j : Nat) : E := (toList n)[j]?.getD default

def DIST (a : List E) : Prop := (a.map cls).Nodup
def MSK : Node E → Prop
  | br m c => (∀ j : Fin 8, m (j.castLE (by omega)) = true ↔ c j ≠ nil) ∧ ∀ j : Fin 16, 8 ≤ j.val → m j = false
  | _ => True

def WF : Node E → Int → Prop
  | nil, _ => False
  | l1 _, _ => True
  | l2 a b, _ => cls a ≠ cls b
  | tw a _, d => d ≥ 22 ∧ a.length ≥ 3 ∧ DIST cls a
  | br m c, d => ((0 ≤ d ∧ d ≤ 21) ∧ (∀ j k, HAS cls (c j) k → idx k d = j) ∧ (∀ j, c j = nil ∨ WF (c j) (d+1)))
      ∧ MSK (br m c) ∧ CNT (br m c) ≥ 3

def RT : Node E → Int → Prop
  | nil, _ => False
  | l1 _, _ => True
  | l2 a b, _ => cls a ≠ cls b
  | tw a _, _ => DIST cls a
  | br _ c, d => (0 ≤ d ∧ d ≤ 21) ∧ (∀ j k, HAS cls (c j) k → idx k d = j) ∧ (∀ j, c j = nil ∨ WF cls idx (c j) (d+1))

/-! ### basic facts -/

theorem fin8 (P : Fin 8 → Prop) : (∃ j, P j) ↔ P 0 ∨ P 1 ∨ P 2 ∨ P 3 ∨ P 4 ∨ P 5 ∨ P 6 ∨ P 7 := by
  constructor
  · rintro ⟨j, h⟩
    match j, h with
    | 0, h | 1, h | 2, h | 3, h | 4, h | 5, h | 6, h | 7, h => simp [h]
  · rintro (h|h|h|h|h|h|h|h) <;> exact ⟨_, h⟩

theorem CNT_length (n : Node E) : CNT n = (toList n).length := by
  induction n with
  | br m c ih => simp [CNT, toList, ih]; omega
  | _ => simp [CNT, toList]

theorem HAS_mem (n : Node E) (k : K) : HAS cls n k ↔ ∃ e ∈ toList n, cls e = k := by
  induction n with
  | br m c ih =>
    simp only [HAS, ih, toList, List.mem_append, fin8]
    constructor
    · rintro (⟨e,h,r⟩|⟨e,h,r⟩|⟨e,h,r⟩|⟨e,h,r⟩|⟨e,h,r⟩|⟨e,h,r⟩|⟨e,h,r⟩|⟨e,h,r⟩) <;> exact ⟨e, by simp [h], r⟩
    · rintro ⟨e, h, r⟩
      rcases h with ((((((h|h)|h)|h)|h)|h)|h)|h
      · exact Or.inl ⟨e,h,r⟩
      · exact Or.inr (Or.inl ⟨e,h,r⟩)
      · exact Or.inr (Or.inr (Or.inl ⟨e,h,r⟩))
      · exact Or.inr (Or.inr (Or.inr (Or.inl ⟨e,h,r⟩)))
      · exact Or.inr (Or.inr (Or.inr (Or.inr (Or.inl ⟨e,h,r⟩))))
      · exact Or.inr (Or.inr (Or.inr (Or.inr (Or.inr (Or.inl ⟨e,h,r⟩)))))
      · exact Or.inr (Or.inr (Or.inr (Or.inr (Or.inr (Or.inr (Or.inl ⟨e,h,r⟩))))))
      · exact Or.inr (Or.inr (Or.inr (Or.inr (Or.inr (Or.inr (Or.inr ⟨e,h,r⟩))))))
  | nil => simp [HAS, toList]
  | l1 x => simp [HAS, toList, eq_comm]
  | l2 a b => simp [HAS, toList, eq_comm]
  | tw a c => simp [HAS, toList]

theorem find_spec (l : List E) (k : K) (h : ∃ e ∈ l, cls e = k) : find cls l k ∈ l ∧ cls (find cls l k) = k := by
  unfold find
  cases hf : l.find? (fun e => decide (cls e = k)) with
  | none =>
    rw [List.find?_eq_none] at hf
    obtain ⟨e, he, hk⟩ := h
    exact absurd (hf e he) (by simp [hk])
  | some e =>
    have h1 := List.mem_of_find?_eq_some hf
    have h2 := List.find?_some hf
    simp at h2
    exact ⟨h1, h2⟩

theorem pos_spec (l : List E) (k : K) (h : ∃ e ∈ l, cls e = k) :
    pos cls l k < l.length ∧ l[pos cls l k]?.getD default = find cls l k := by
  induction l with
  | nil => simp at h
  | cons x t ih =>
    by_cases hx : cls x = k
    · simp [pos, find, List.findIdx_cons, hx]
    · have : ∃ e ∈ t, cls e = k := by
        obtain ⟨e, he, hk⟩ := h
        rcases List.mem_cons.1 he with rfl | he
        · exact absurd hk hx
        · exact ⟨e, he, hk⟩
      have := ih this
      simp [pos, find, List.findIdx_cons, hx] at this ⊢
      exact this

theorem dist_pos (l : List E) (h : DIST cls l) (j : Nat) (hj : j < l.length) : pos cls l (cls l[j]) = j := by
  induction l generalizing j with
  | nil => simp at hj
  | cons x t ih =>
    simp [DIST] at h
    cases j with
    | zero => simp [pos, List.findIdx_cons]
    | succ j =>
      simp at hj
      have hne : ¬ cls x = cls t[j] := fun he => h.1 t[j] (List.getElem_mem hj) he.symm
      have := ih (by simpa [DIST] using h.2) j hj
      simp only [pos] at this
      simp [pos, List.findIdx_cons, hne, this]

theorem dist_inj (l : List E) (h : DIST cls l) {a b : E} (ha : a ∈ l) (hb : b ∈ l) (hc : cls a = cls b) : a = b := by
  induction l with
  | nil => simp at ha
  | cons x t ih =>
    simp [DIST] at h
    rcases List.mem_cons.1 ha with e1 | h1 <;> rcases List.mem_cons.1 hb with e2 | h2
    · exact e1.trans e2.symm
    · exact absurd (e1 ▸ hc.symm) (h.1 b h2)
    · exact absurd (e2 ▸ hc) (h.1 a h1)
    · exact ih (by simpa [DIST] using h.2) h1 h2

/-- distinct children route to distinct groups, so their elements have different classes -/
theorem WF_RT (n : Node E) (d : Int) (h : WF cls idx n d) : RT cls idx n d := by
  cases n with
  | br m c => exact h.1
  | nil => exact h
  | l1 x => trivial
  | l2 a b => exact h
  | tw a c => exact h.2.2

theorem app_dist (a b : List E) : DIST cls a → DIST cls b → (∀ x ∈ a, ∀ y ∈ b, cls x ≠ cls y) → DIST cls (a ++ b) := by
  intro ha hb hd
  simp only [DIST, List.map_append]
  refine List.Nodup.append ha hb ?_
  intro k hka hkb
  obtain ⟨x, hx, rfl⟩ := List.mem_map.1 hka
  obtain ⟨y, hy, hxy⟩ := List.mem_map.1 hkb
  exact hd x hx y hy hxy.symm

theorem RT_dist (n : Node E) (d : Int) (h : RT cls idx n d) : DIST cls (toList n) := by
  induction n generalizing d with
  | nil => simp [RT] at h
  | l1 x => simp [toList, DIST]
  | l2 a b => simpa [toList, DIST, RT] using h
  | tw a c => simpa [toList, RT] using h
  | br m c ih =>
    obtain ⟨_, hr, hw⟩ := h
    have hc : ∀ j, DIST cls (toList (c j)) := by
      intro j
      rcases hw j with h | h
      · simp [h, toList, DIST]
      · exact ih j _ (WF_RT cls idx _ _ h)
    have hd : ∀ i j : Fin 8, i ≠ j → ∀ x ∈ toList (c i), ∀ y ∈ toList (c j), cls x ≠ cls y := by
      intro i j hij x hx y hy he
      have h1 := hr i (cls x) ((HAS_mem cls _ _).2 ⟨x, hx, rfl⟩)
      have h2 := hr j (cls x) ((HAS_mem cls _ _).2 ⟨y, hy, he.symm⟩)
      exact hij (h1.symm.trans h2)
    simp only [toList]
    repeat' apply app_dist
    all_goals first
      | exact hc _
      | (intro x hx y hy
         simp only [List.mem_append] at hx
         rcases hx with ((((((hx|hx)|hx)|hx)|hx)|hx)|hx) <;> exact hd _ _ (by decide) x hx y hy)
      | (intro x hx y hy
         simp only [List.mem_append] at hx
         rcases hx with (((((hx|hx)|hx)|hx)|hx)|hx) <;> exact hd _ _ (by decide) x hx y hy)
      | (intro x hx y hy
         simp only [List.mem_append] at hx
         rcases hx with ((((hx|hx)|hx)|hx)|hx) <;> exact hd _ _ (by decide) x hx y hy)
      | (intro x hx y hy
         simp only [List.mem_append] at hx
         rcases hx with (((hx|hx)|hx)|hx) <;> exact hd _ _ (by decide) x hx y hy)
      | (intro x hx y hy
         simp only [List.mem_append] at hx
         rcases hx with ((hx|hx)|hx) <;> exact hd _ _ (by decide) x hx y hy)
      | (intro x hx y hy
         simp only [List.mem_append] at hx
         rcases hx with (hx|hx) <;> exact hd _ _ (by decide) x hx y hy)
      | (intro x hx y hy; exact hd _ _ (by decide) x hx y hy)

/-! ### the axioms -/

/-- [axiom: V1] the stored element of a key has that key -/
theorem V1 (n : Node E) (k : K) (h : HAS cls n k) : cls (VAL cls n k) = k :=
  (find_spec cls _ k ((HAS_mem cls n k).1 h)).2

/-- [axiom: V2] -/
theorem V2 (n : Node E) (k : K) (h : HAS cls n k) : CNT n ≥ 1 := by
  obtain ⟨e, he, _⟩ := (HAS_mem cls n k).1 h
  rw [CNT_length]; exact List.length_pos_of_mem he

theorem CNT_HAS (n : Node E) (h : CNT n ≥ 1) : ∃ k, HAS cls n k := by
  rw [CNT_length] at h
  obtain ⟨e, he⟩ := List.exists_mem_of_length_pos h
  exact ⟨cls e, (HAS_mem cls n _).2 ⟨e, he, rfl⟩⟩

/-- [axiom: what WF gives] -/
theorem WF_gives (n : Node E) (d : Int) (h : WF cls idx n d) :
    RT cls idx n d ∧ MSK n ∧ n ≠ nil ∧ CNT n ≥ 1 ∧ kind n ≥ 1 ∧ kind n ≤ 4 ∧
    (kind n = 1 ↔ CNT n = 1) ∧ (kind n = 2 ↔ CNT n = 2) ∧ (∃ k, HAS cls n k) ∧
    (kind n = 3 → d ≥ 22) ∧ (kind n = 4 → 0 ≤ d ∧ d ≤ 21) := by
  have hne : CNT n ≥ 1 := by
    cases n <;> simp_all [WF, CNT] <;> omega
  refine ⟨WF_RT cls idx n d h, ?_, ?_, hne, ?_, ?_, ?_, ?_, CNT_HAS cls n hne, ?_, ?_⟩ <;>
    cases n <;> simp_all [WF, CNT, kind, MSK] <;> omega

/-- [axiom: leaves are well formed at every depth] -/
theorem WF_leaf (n : Node E) (d d2 : Int) (h : WF cls idx n d) (hk : kind n ≤ 2) : WF cls idx n d2 := by
  cases n <;> simp_all [WF, kind]

/-- [axiom: nil] -/
theorem nil_facts (d : Int) (k : K) : kind (nil : Node E) = 0 ∧ CNT (nil : Node E) = 0 ∧ ¬ HAS cls (nil : Node E) k ∧
    ¬ WF cls idx (nil : Node E) d ∧ ¬ RT cls idx (nil : Node E) d := by simp [kind, CNT, HAS, WF, RT]
theorem kind_nil (n : Node E) : kind n = 0 ↔ n = nil := by cases n <;> simp [kind]

/-- [axiom: positions] -/
theorem elem_epos (n : Node E) (d : Int) (j : Nat) (h : RT cls idx n d) (hj : j < CNT n) :
    HAS cls n (cls (elem n j)) ∧ VAL cls n (cls (elem n j)) = elem n j ∧ epos cls n (cls (elem n j)) = j := by
  rw [CNT_length] at hj
  have he : elem n j = (toList n)[j] := by simp [elem, hj]
  have hm : elem n j ∈ toList n := he ▸ List.getElem_mem hj
  have hD := RT_dist cls idx n d h
  have hh : ∃ e ∈ toList n, cls e = cls (elem n j) := ⟨_, hm, rfl⟩
  refine ⟨(HAS_mem cls n _).2 hh, ?_, ?_⟩
  · have := find_spec cls _ _ hh
    exact dist_inj cls _ hD this.1 hm this.2
  · rw [he]; exact dist_pos cls _ hD j hj

/-- [axiom: positions of keys] -/
theorem epos_elem (n : Node E) (k : K) (h : HAS cls n k) :
    epos cls n k < CNT n ∧ elem n (epos cls n k) = VAL cls n k := by
  rw [CNT_length]; exact pos_spec cls _ k ((HAS_mem cls n k).1 h)

/-- [axiom: unfolding a leaf of one] -/
theorem unfold_l1 (x : E) (k : K) : CNT (l1 x) = 1 ∧ (HAS cls (l1 x) k ↔ k = cls x) ∧
    (HAS cls (l1 x) k → VAL cls (l1 x) k = x) ∧ elem (l1 x) 0 = x := by
  simp [CNT, HAS, VAL, toList, find, elem]; rintro rfl; simp

/-- [axiom: unfolding a leaf of two] -/
theorem unfold_l2 (a b : E) (k : K) : CNT (l2 a b) = 2 ∧ (HAS cls (l2 a b) k ↔ k = cls a ∨ k = cls b) ∧
    (HAS cls (l2 a b) k → VAL cls (l2 a b) k = if k = cls a then a else b) ∧ elem (l2 a b) 0 = a ∧ elem (l2 a b) 1 = b := by
  refine ⟨rfl, Iff.rfl, ?_, rfl, rfl⟩
  intro h
  by_cases hk : k = cls a
  · subst hk; simp [VAL, toList, find]
  · rcases h with h | h
    · exact absurd h hk
    · have : ¬ cls a = cls b := fun e => hk (h.trans e.symm)
      simp [VAL, toList, find, h, this, Ne.symm this]

/-- [axiom: unfolding a bucket; INARR, apos are membership in and position of a key in the list] -/
theorem unfold_tw (a : List E) (c : Nat) (k : K) : CNT (tw a c) = a.length ∧ (HAS cls (tw a c) k ↔ ∃ e ∈ a, cls e = k) ∧
    (HAS cls (tw a c) k → VAL cls (tw a c) k = a[pos cls a k]?.getD default) ∧ (∀ i, elem (tw a c) i = a[i]?.getD default) := by
  refine ⟨rfl, Iff.rfl, ?_, fun _ => rfl⟩
  intro h
  exact (pos_spec cls a k h).2.symm

/-- [axiom: arrays] -/
theorem arr1 (a : List E) (k : K) (h : ∃ e ∈ a, cls e = k) :
    pos cls a k < a.length ∧ cls (a[pos cls a k]?.getD default) = k := by
  have := pos_spec cls a k h
  exact ⟨this.1, this.2 ▸ (find_spec cls a k h).2⟩
theorem arr3 (a : List E) : DIST cls a ∨ ∃ i j : Nat, ∃ hi : i < j, ∃ hj : j < a.length, cls (a[i]'(by omega)) = cls a[j] := by
  by_cases h : DIST cls a
  · exact Or.inl h
  · right
    have h2 : ¬ (a.map cls).Nodup := h
    rw [List.nodup_iff_pairwise_ne, List.pairwise_iff_getElem] at h2
    push Not at h2
    obtain ⟨i, j, hi, hj, hij, he⟩ := h2
    simp at hi hj he
    exact ⟨i, j, hij, hj, he⟩

def sumTo (c : Fin 8 → Node E) : Nat → Nat
  | 0 => 0
  | j+1 => sumTo c j + (if h : j < 8 then CNT (c ⟨j, h⟩) else 0)

/-- [axiom: unfolding a branch: count, and offsets of the children's elements] -/
theorem unfold_br_elem (m : Fin 16 → Bool) (c : Fin 8 → Node E) (j : Fin 8) (i : Nat) (hi : i < CNT (c j)) :
    elem (br m c) (sumTo c j + i) = elem (c j) i := by
  rw [CNT_length] at hi
  simp only [elem, toList]
  congr 1
  match j, hi with
  | 0, hi => simp [sumTo]; simp [List.getElem?_append, hi]; try (intros; omega)
  | 1, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))
  | 2, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))
  | 3, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))
  | 4, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))
  | 5, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))
  | 6, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))
  | 7, hi => simp [sumTo, CNT_length]; (simp [List.getElem?_append]; try ((repeat' split) <;> first | omega | (congr 1; omega) | rfl))

theorem br_child (m : Fin 16 → Bool) (c : Fin 8 → Node E) (j : Fin 8) (k : K) (h : HAS cls (c j) k) : HAS cls (br m c) k := ⟨j, h⟩

theorem child_mem (m : Fin 16 → Bool) (c : Fin 8 → Node E) (j : Fin 8) (e : E) (h : e ∈ toList (c j)) : e ∈ toList (br m c) := by
  match j, h with
  | 0, h | 1, h | 2, h | 3, h | 4, h | 5, h | 6, h | 7, h => simp [toList, h]

/-- [axiom: routing] -/
theorem unfold_br (m : Fin 16 → Bool) (c : Fin 8 → Node E) (d : Int) (k : K) (h : RT cls idx (br m c) d) :
    (HAS cls (br m c) k ↔ HAS cls (c (idx k d)) k) ∧ (HAS cls (br m c) k → VAL cls (br m c) k = VAL cls (c (idx k d)) k) := by
  have hh : HAS cls (br m c) k → HAS cls (c (idx k d)) k := by
    rintro ⟨j, hj⟩
    have := h.2.1 j k hj
    exact this ▸ hj
  refine ⟨⟨hh, fun h => ⟨_, h⟩⟩, fun hk => ?_⟩
  have h1 := find_spec cls _ k ((HAS_mem cls _ k).1 hk)
  have h2 := find_spec cls _ k ((HAS_mem cls _ k).1 (hh hk))
  exact dist_inj cls _ (RT_dist cls idx _ d h) h1.1 (child_mem m c _ _ h2.1) (h1.2.trans h2.2.symm)

/-- [axiom: RT of a branch, both directions; WF of a branch] are the definitions of RT and WF above -/
theorem WF_br (m : Fin 16 → Bool) (c : Fin 8 → Node E) (d : Int) :
    WF cls idx (br m c) d ↔ RT cls idx (br m c) d ∧ MSK (br m c) ∧ CNT (br m c) ≥ 3 := Iff.rfl

/-! ### CARD -/
def ok (n : Node E) : Prop := n = nil ∨ ∃ d, RT cls idx n d
theorem ok_dist (n : Node E) (h : ok cls idx n) : DIST cls (toList n) := by
  rcases h with rfl | ⟨d, h⟩
  · simp [toList, DIST]
  · exact RT_dist cls idx n d h

theorem HAS_map (n : Node E) (k : K) : HAS cls n k ↔ k ∈ (toList n).map cls := by
  rw [HAS_mem]; simp

/-- [axiom: CARD] CNT is monotone in the key set, strictly -/
theorem CARD (x y : Node E) (hx : ok cls idx x) (hy : ok cls idx y) (h : ∀ k, HAS cls x k → HAS cls y k) :
    CNT x ≤ CNT y ∧ (CNT x = CNT y → ∀ k, HAS cls y k → HAS cls x k) := by
  have dx : ((toList x).map cls).Nodup := ok_dist cls idx x hx
  have hs : (toList x).map cls ⊆ (toList y).map cls := by
    intro k hk; exact (HAS_map cls y k).1 (h k ((HAS_map cls x k).2 hk))
  have sp := List.Nodup.subperm dx hs
  have hl := sp.length_le
  simp only [List.length_map] at hl
  rw [CNT_length, CNT_length]
  refine ⟨hl, fun he k hk => ?_⟩
  have hp := sp.perm_of_length_le (by simp [he])
  rw [HAS_map] at hk ⊢
  exact hp.symm.mem_iff.1 hk

/-! ### weighted sums -/
section sums
variable (w : E → Int)
def WSUM (n : Node E) : Int := ((toList n).map w).sum

theorem mem_iff (n : Node E) (h : ok cls idx n) (e : E) : e ∈ toList n ↔ HAS cls n (cls e) ∧ VAL cls n (cls e) = e := by
  have hd := ok_dist cls idx n h
  constructor
  · intro he
    have hh : ∃ e' ∈ toList n, cls e' = cls e := ⟨e, he, rfl⟩
    have := find_spec cls _ _ hh
    exact ⟨(HAS_mem cls n _).2 hh, dist_inj cls _ hd this.1 he this.2⟩
  · rintro ⟨h1, h2⟩
    have := find_spec cls _ _ ((HAS_mem cls n _).1 h1)
    rw [← h2]; exact this.1

theorem ok_nodup (n : Node E) (h : ok cls idx n) : (toList n).Nodup := List.Nodup.of_map cls (ok_dist cls idx n h)

/-- [axiom: FOLD-PERM] equal content, equal elements up to order; so any fold by a commutative, associative
step (sums of weights, xor of hashes, the multiset handed to a lawful reducer) is equal -/
theorem perm (x y : Node E) (hx : ok cls idx x) (hy : ok cls idx y)
    (h : ∀ k, (HAS cls x k ↔ HAS cls y k) ∧ (HAS cls x k → VAL cls x k = VAL cls y k)) : (toList x).Perm (toList y) := by
  rw [List.perm_ext_iff_of_nodup (ok_nodup cls idx x hx) (ok_nodup cls idx y hy)]
  intro e
  rw [mem_iff cls idx x hx, mem_iff cls idx y hy]
  have := h (cls e)
  constructor
  · rintro ⟨h1, h2⟩; exact ⟨this.1.1 h1, (this.2 h1).symm.trans h2⟩
  · rintro ⟨h1, h2⟩; exact ⟨this.1.2 h1, (this.2 (this.1.2 h1)).trans h2⟩

/-- equal key sets, and a function of the class alone: the lists of images are permutations -/
theorem perm_class (x y : Node E) (hx : ok cls idx x) (hy : ok cls idx y) (h : ∀ k, HAS cls x k ↔ HAS cls y k) :
    ((toList x).map cls).Perm ((toList y).map cls) := by
  rw [List.perm_ext_iff_of_nodup (ok_dist cls idx x hx) (ok_dist cls idx y hy)]
  intro k
  rw [← HAS_map, ← HAS_map]; exact h k

/-- FOLD-PERM for xor-like folds of a function of the class (C10) -/
theorem fold_eq {M : Type} [AddCommMonoid M] (f : K → M) (x y : Node E) (hx : ok cls idx x) (hy : ok cls idx y)
    (h : ∀ k, HAS cls x k ↔ HAS cls y k) :
    ((toList x).map (fun e => f (cls e))).sum = ((toList y).map (fun e => f (cls e))).sum := by
  have := (perm_class cls idx x y hx hy h).map f
  simpa [List.map_map, Function.comp_def] using this.sum_eq

/-- the elements other than those of class k0 -/
noncomputable def rest (n : Node E) (k0 : K) : List E := (toList n).filter (fun e => decide (cls e ≠ k0))

theorem split (n : Node E) (hn : ok cls idx n) (k0 : K) :
    (toList n).Perm ((if HAS cls n k0 then [VAL cls n k0] else []) ++ rest cls n k0) := by
  have hd := ok_nodup cls idx n hn
  have hr : (rest cls n k0).Nodup := hd.filter _
  by_cases hh : HAS cls n k0
  · simp only [hh, if_true]
    have hv := V1 cls n k0 hh
    have hm : VAL cls n k0 ∈ toList n := (mem_iff cls idx n hn _).2 ⟨hv.symm ▸ hh, by rw [hv]⟩
    change (toList n).Perm (VAL cls n k0 :: rest cls n k0)
    rw [List.perm_ext_iff_of_nodup hd (List.nodup_cons.2 ⟨by simp [rest, hv], hr⟩)]
    intro e
    simp only [rest, List.mem_cons, List.mem_filter, decide_eq_true_eq]
    constructor
    · intro he
      by_cases hc : cls e = k0
      · left; exact dist_inj cls _ (ok_dist cls idx n hn) he hm (hc.trans hv.symm)
      · right; exact ⟨he, hc⟩
    · rintro (rfl | ⟨h, _⟩)
      · exact hm
      · exact h
  · simp only [hh, if_false, List.nil_append, rest]
    rw [List.filter_eq_self.2]
    intro e he
    simp only [decide_eq_true_eq, ne_eq]
    rintro rfl
    exact hh ((HAS_mem cls n _).2 ⟨e, he, rfl⟩)

theorem WSUM_split (n : Node E) (hn : ok cls idx n) (k0 : K) :
    WSUM w n = (if HAS cls n k0 then w (VAL cls n k0) else 0) + ((rest cls n k0).map w).sum := by
  have := ((split cls idx n hn k0).map w).sum_eq
  rw [WSUM, this]
  by_cases hh : HAS cls n k0 <;> simp [hh]

/-- [axiom: point update] r has the elements of n except at k0 -/
theorem point_update (r n : Node E) (hr : ok cls idx r) (hn : ok cls idx n) (k0 : K)
    (h : ∀ k, k ≠ k0 → (HAS cls r k ↔ HAS cls n k) ∧ (HAS cls r k → VAL cls r k = VAL cls n k)) :
    WSUM w r = WSUM w n - (if HAS cls n k0 then w (VAL cls n k0) else 0) + (if HAS cls r k0 then w (VAL cls r k0) else 0) := by
  rw [WSUM_split cls idx w n hn k0, WSUM_split cls idx w r hr k0]
  have hp : (rest cls r k0).Perm (rest cls n k0) := by
    unfold rest
    rw [List.perm_ext_iff_of_nodup ((ok_nodup cls idx r hr).filter _) ((ok_nodup cls idx n hn).filter _)]
    intro e
    simp only [List.mem_filter, decide_eq_true_eq, mem_iff cls idx r hr, mem_iff cls idx n hn]
    constructor <;> rintro ⟨⟨h1, h2⟩, h3⟩
    · have := h _ h3; exact ⟨⟨this.1.1 h1, (this.2 h1).symm.trans h2⟩, h3⟩
    · have := h _ h3; exact ⟨⟨this.1.2 h1, (this.2 (this.1.2 h1)).trans h2⟩, h3⟩
  rw [(hp.map w).sum_eq]; omega

/-- [axiom: weights that are not negative] -/
theorem WSUM_pos (hw : ∀ e, 0 ≤ w e) (n : Node E) (k : K) : 0 ≤ WSUM w n ∧ (HAS cls n k → w (VAL cls n k) ≤ WSUM w n) := by
  have gen : ∀ l : List E, 0 ≤ (l.map w).sum ∧ ∀ e ∈ l, w e ≤ (l.map w).sum := by
    intro l
    induction l with
    | nil => simp
    | cons x t ih =>
      simp only [List.map_cons, List.sum_cons, List.mem_cons]
      have := hw x
      refine ⟨by omega, ?_⟩
      rintro e (rfl | he)
      · omega
      · have := ih.2 e he; omega
  refine ⟨(gen _).1, fun h => (gen _).2 _ (find_spec cls _ k ((HAS_mem cls n k).1 h)).1⟩
end sums

/-! ### reductions: a reducer r is lawful if it depends on its arguments up to order and reducing reductions
of parts reduces the whole.  MSUM is the multiset of the elements of a node, W e = {e}, R m the reduction of m. -/
section reduce
variable (r : List E → E)
structure Lawful : Prop where
  perm : ∀ a b : List E, a.Perm b → r a = r b
  flat : ∀ ls : List (List E), (∀ l ∈ ls, l ≠ []) → r (ls.map r) = r ls.flatten

def MSUM (n : Node E) : Multiset E := (toList n : Multiset E)
noncomputable def R (m : Multiset E) : E := r m.toList

theorem R_coe (h : Lawful r) (l : List E) : R r (l : Multiset E) = r l := by
  apply h.perm
  have : ((↑l : Multiset E).toList : Multiset E) = (l : Multiset E) := Multiset.coe_toList _
  exact Multiset.coe_eq_coe.1 this

/-- [axiom: MSUM of a branch] -/
theorem MSUM_br (m : Fin 16 → Bool) (c : Fin 8 → Node E) : MSUM (br m c) = MSUM (c 0) + MSUM (c 1) + MSUM (c 2) + MSUM (c 3) + MSUM (c 4) + MSUM (c 5) + MSUM (c 6) + MSUM (c 7) := by
  simp [MSUM, toList]

/-- [axiom: the reduction law of a branch] reducing the reductions of some non-empty parts reduces them all -/
theorem reduce_parts (h : Lawful r) (ns : List (Node E)) (hn : ∀ n ∈ ns, toList n ≠ []) :
    R r ((ns.map (fun n => R r (MSUM n)) : List E) : Multiset E) = R r ((ns.map toList).flatten : List E) := by
  rw [R_coe r h, R_coe r h, ← h.flat]
  · congr 1
    simp only [List.map_map]
    apply List.map_congr_left
    intro n _
    exact R_coe r h _
  · intro l hl
    obtain ⟨n, hn', rfl⟩ := List.mem_map.1 hl
    exact hn n hn'

/-- the children that are there -/
noncomputable def parts (c : Fin 8 → Node E) : List (Node E) :=
  [c 0, c 1, c 2, c 3, c 4, c 5, c 6, c 7].filter (fun n => decide (n ≠ nil))

theorem flat_parts (ns : List (Node E)) :
    ((ns.filter (fun n => decide (n ≠ nil))).map toList).flatten = (ns.map toList).flatten := by
  induction ns with
  | nil => rfl
  | cons x t ih =>
    by_cases h : x = nil
    · subst h; simp [toList] at ih ⊢; exact ih
    · simp [h] at ih ⊢; exact ih

/-- [axiom: the reduction law of a branch] as the generator states it -/
theorem reduce_br (h : Lawful r) (m : Fin 16 → Bool) (c : Fin 8 → Node E) (hc : ∀ j, c j = nil ∨ CNT (c j) ≥ 1) :
    R r (((parts c).map (fun n => R r (MSUM n)) : List E) : Multiset E) = R r (MSUM (br m c)) := by
  rw [reduce_parts r h]
  · congr 1
    simp [parts, flat_parts, MSUM, toList]
    have := flat_parts [c 0, c 1, c 2, c 3, c 4, c 5, c 6, c 7]
    simp [toList] at this
    rw [this]
  · intro n hn
    have : n ≠ nil ∧ ∃ j, n = c j := by
      simp [parts] at hn
      refine ⟨hn.2, ?_⟩
      rcases hn.1 with h | h | h | h | h | h | h | h <;> exact ⟨_, h⟩
    obtain ⟨h1, j, rfl⟩ := this
    rcases hc j with h | h
    · exact absurd h h1
    · rw [CNT_length] at h
      exact List.ne_nil_of_length_pos h

end reduce

end Trie

#print axioms Trie.CARD
#print axioms Trie.point_update
#print axioms Trie.reduce_br
#print axioms Trie.elem_epos
#print axioms Trie.fold_eq
