/-
Facts about 64-bit words used as axioms by the generator: population counts (vc/externs.py popcount_int,
vc/intiter.py), lowest bits (vc/low.py bitfacts), Gray codes (vc/specs9.py) and the enumeration of an IntSet (vc/specs6.py).
-/
import Mathlib.Data.List.Nodup
import Mathlib.Data.Fintype.Card
import Mathlib.Data.Fintype.EquivFin
import Mathlib.Algebra.BigOperators.Group.List.Basic

set_option linter.unusedVariables false
namespace Words

/-- POPCOUNT -/
def pop (x : BitVec 64) : Nat := (List.range 64).countP (fun i => x.getLsbD i)

theorem cnt_or_and (p q : Nat → Bool) (l : List Nat) :
    l.countP (fun i => p i || q i) + l.countP (fun i => p i && q i) = l.countP p + l.countP q := by
  induction l with
  | nil => rfl
  | cons x t ih =>
    simp only [List.countP_cons]
    cases p x <;> cases q x <;> simp <;> omega

theorem cnt_xor (p q : Nat → Bool) (l : List Nat) :
    l.countP (fun i => p i ^^ q i) + 2 * l.countP (fun i => p i && q i) = l.countP p + l.countP q := by
  induction l with
  | nil => rfl
  | cons x t ih =>
    simp only [List.countP_cons]
    cases p x <;> cases q x <;> simp <;> omega

theorem cnt_diff (p q : Nat → Bool) (l : List Nat) :
    l.countP (fun i => p i && !q i) + l.countP (fun i => p i && q i) = l.countP p := by
  induction l with
  | nil => rfl
  | cons x t ih =>
    simp only [List.countP_cons]
    cases p x <;> cases q x <;> simp <;> omega

/-- [axiom] -/
theorem pop_le (x : BitVec 64) : pop x ≤ 64 := by
  have := List.countP_le_length (p := fun i => x.getLsbD i) (l := List.range 64)
  simpa [pop] using this
/-- [axiom] -/
theorem pop_zero (x : BitVec 64) : pop x = 0 ↔ x = 0 := by
  simp only [pop, List.countP_eq_zero, List.mem_range]
  constructor
  · intro h
    apply BitVec.eq_of_getLsbD_eq
    intro i hi
    simpa using h i hi
  · rintro rfl; simp
/-- [axiom] -/
theorem pop_or (a b : BitVec 64) : pop (a ||| b) + pop (a &&& b) = pop a + pop b := by
  simpa [pop] using cnt_or_and (fun i => a.getLsbD i) (fun i => b.getLsbD i) (List.range 64)
/-- [axiom] -/
theorem pop_xor (a b : BitVec 64) : pop (a ^^^ b) + 2 * pop (a &&& b) = pop a + pop b := by
  simpa [pop] using cnt_xor (fun i => a.getLsbD i) (fun i => b.getLsbD i) (List.range 64)
/-- [axiom] -/
theorem pop_andnot (a b : BitVec 64) : pop (a &&& ~~~b) + pop (a &&& b) = pop a := by
  have := cnt_diff (fun i => a.getLsbD i) (fun i => b.getLsbD i) (List.range 64)
  rw [← show pop a = List.countP (fun i => a.getLsbD i) (List.range 64) from rfl] at this
  rw [← this]
  congr 1
  · apply List.countP_congr
    intro i hi
    simp at hi
    simp [hi]
  · simp [pop]

theorem cnt_one (p : Nat → Bool) (t : Nat) (ht : p t = true) (l : List Nat) (hn : l.Nodup) (hm : t ∈ l) :
    l.countP (fun i => p i && !(i == t)) + 1 = l.countP p := by
  have h := cnt_diff p (fun i => i == t) l
  have : l.countP (fun i => p i && (i == t)) = l.count t := by
    rw [List.count]
    apply List.countP_congr
    intro i hi
    by_cases e : i = t
    · subst e; simp [ht]
    · simp [e]
  rw [this, List.count_eq_one_of_mem hn hm] at h
  exact h

/-- lowest set bit, and the bits of the predecessor -/
theorem low_nat (n : Nat) (hn : 0 < n) : ∃ t, n.testBit t = true ∧ (∀ i, i < t → n.testBit i = false) ∧
    ∀ i, (n-1).testBit i = (decide (i < t) || (decide (t < i) && n.testBit i)) := by
  induction n using Nat.strongRecOn with
  | ind n ih =>
    by_cases hb : n % 2 = 1
    · refine ⟨0, by simp [Nat.testBit_zero, hb], by simp, ?_⟩
      intro i
      cases i with
      | zero => simp [Nat.testBit_zero]; omega
      | succ i =>
        rw [Nat.testBit_succ, Nat.testBit_succ]
        have : (n-1)/2 = n/2 := by omega
        simp [this]
    · obtain ⟨t, h1, h2, h3⟩ := ih (n/2) (by omega) (by omega)
      refine ⟨t+1, by rw [Nat.testBit_succ]; exact h1, ?_, ?_⟩
      · intro i hi
        cases i with
        | zero => simp [Nat.testBit_zero]; omega
        | succ i => rw [Nat.testBit_succ]; exact h2 i (by omega)
      · intro i
        cases i with
        | zero => simp [Nat.testBit_zero]; omega
        | succ i =>
          rw [Nat.testBit_succ, Nat.testBit_succ]
          have : (n-1)/2 = n/2 - 1 := by omega
          rw [this, h3 i]
          simp

/-- [axiom: LOW, BIT] -/
theorem low (x : BitVec 64) (hx : x ≠ 0) : ∃ t, t < 64 ∧ x.getLsbD t = true ∧ (∀ i, i < t → x.getLsbD i = false) ∧
    ∀ i, (x - 1).getLsbD i = (decide (i < t) || (decide (t < i) && x.getLsbD i)) := by
  have h0 : 0 < x.toNat := by
    rcases Nat.eq_zero_or_pos x.toNat with h | h
    · exact absurd (BitVec.eq_of_toNat_eq (by simpa using h)) hx
    · exact h
  obtain ⟨t, h1, h2, h3⟩ := low_nat x.toNat h0
  have ht : t < 64 := by
    apply Decidable.byContradiction
    intro h
    have := BitVec.getLsbD_of_ge x t (by omega)
    rw [BitVec.getLsbD] at this
    rw [h1] at this; exact absurd this (by decide)
  have hs : (x - 1).toNat = x.toNat - 1 := by
    have := x.isLt
    rw [BitVec.toNat_sub]; simp; omega
  refine ⟨t, ht, h1, h2, fun i => ?_⟩
  rw [BitVec.getLsbD, hs]; exact h3 i

/-- [axiom: clearing the lowest bit] -/
theorem pop_clear (x : BitVec 64) (hx : x ≠ 0) : pop (x &&& (x - 1)) + 1 = pop x := by
  obtain ⟨t, ht, h1, h2, h3⟩ := low x hx
  have := cnt_one (fun i => x.getLsbD i) t h1 (List.range 64) List.nodup_range (by simpa using ht)
  rw [pop, pop, ← this]
  congr 1
  apply List.countP_congr
  intro i hi
  simp only [BitVec.getLsbD_and, h3 i]
  by_cases a : i < t
  · simp [a, h2 i a]
  · by_cases b : t < i
    · have : i ≠ t := by omega
      simp [a, b, this]
    · have : i = t := by omega
      subst this; simp

/-- [axiom: 1 << c] -/
theorem pop_one (c : Nat) (hc : c < 64) : pop (1#64 <<< c) = 1 := by
  have h1 : (1#64 <<< c) ≠ 0 := by
    intro h
    have := congrArg (fun v => BitVec.getLsbD v c) h
    simp [hc] at this
  have h2 : (1#64 <<< c) &&& ((1#64 <<< c) - 1) = 0 := by
    apply BitVec.eq_of_getLsbD_eq
    intro i hi
    obtain ⟨t, ht, a, b, e⟩ := low _ h1
    have tc : t = c := by
      simp [ht] at a
      omega
    rw [BitVec.getLsbD_and, e i]
    subst tc
    simp [hi]
    omega
  have := pop_clear _ h1
  rw [h2, (pop_zero 0).2 rfl] at this
  omega

/-- NB m t: m without its t lowest bits -/
def NB (m : BitVec 64) : Nat → BitVec 64
  | 0 => m
  | t+1 => NB m t &&& (NB m t - 1)
/-- [axiom: NB] -/
theorem NB_facts (m : BitVec 64) (t : Nat) (ht : t ≤ pop m) : pop (NB m t) = pop m - t ∧ NB m t &&& ~~~m = 0 := by
  induction t with
  | zero =>
    refine ⟨by simp [NB], ?_⟩
    apply BitVec.eq_of_getLsbD_eq; intro i hi; simp [NB]
  | succ t ih =>
    obtain ⟨a, b⟩ := ih (by omega)
    have hne : NB m t ≠ 0 := by
      intro h
      rw [h, (pop_zero 0).2 rfl] at a
      omega
    have := pop_clear _ hne
    refine ⟨by simp only [NB]; omega, ?_⟩
    have e : NB m (t+1) &&& ~~~m = (NB m t &&& ~~~m) &&& (NB m t - 1) := by
      simp only [NB]
      rw [BitVec.and_assoc, BitVec.and_comm (NB m t - 1), ← BitVec.and_assoc]
    rw [e, b]
    simp

/-! ### Gray codes -/
def gray (x : BitVec 64) : BitVec 64 := x ^^^ (x >>> 1)
theorem gray_bit (x : BitVec 64) (b : Nat) : (gray x).getLsbD b = (x.getLsbD b ^^ x.getLsbD (b+1)) := by
  simp [gray, Nat.add_comm]

/-- [axiom: different words have different Gray codes] -/
theorem gray_inj (x y : BitVec 64) (h : gray x = gray y) : x = y := by
  apply BitVec.eq_of_getLsbD_eq
  have key : ∀ k i, i + k = 64 → x.getLsbD i = y.getLsbD i := by
    intro k
    induction k with
    | zero => intro i hi; rw [BitVec.getLsbD_of_ge x i (by omega), BitVec.getLsbD_of_ge y i (by omega)]
    | succ k ih =>
      intro i hi
      have h1 := ih (i+1) (by omega)
      have h2 := congrArg (fun v => BitVec.getLsbD v i) h
      simp only [gray_bit, h1] at h2
      cases hx : x.getLsbD i <;> cases hy : y.getLsbD i <;> simp_all
  intro i hi
  exact key (64 - i) i (by omega)

/-- [axiom: a word is below 2^n exactly when its bits are below n] -/
theorem below (x : BitVec 64) (n : Nat) (hn : n ≤ 63) : x.toNat < 2^n ↔ ∀ b, n ≤ b → x.getLsbD b = false := by
  constructor
  · intro h b hb
    rw [BitVec.getLsbD]
    exact Nat.testBit_lt_two_pow (Nat.lt_of_lt_of_le h (Nat.pow_le_pow_right (by omega) hb))
  · intro h
    apply Nat.lt_pow_two_of_testBit
    intro i hi
    exact h i hi

theorem gray_below (x : BitVec 64) (n : Nat) (hn : n ≤ 63) (h : x.toNat < 2^n) : (gray x).toNat < 2^n := by
  rw [below _ _ hn] at h ⊢
  intro b hb
  rw [gray_bit, h b hb, h (b+1) (by omega)]; rfl

theorem word_of (n : Nat) (hn : n ≤ 63) (P : Nat → Bool) : ∃ w : BitVec 64, ∀ b, w.getLsbD b = (decide (b < n) && P b) := by
  induction n with
  | zero => exact ⟨0, by intro b; simp⟩
  | succ n ih =>
    obtain ⟨w, hw⟩ := ih (by omega)
    refine ⟨if P n then w ||| (1#64 <<< n) else w, ?_⟩
    intro b
    by_cases e : b = n
    · subst e
      have h64 : b < 64 := by omega
      have hwb := hw b
      cases hp : P b
      · rw [hp] at hwb; simpa using hwb
      · simp [h64]
    · have e2 : (decide (b < n+1)) = decide (b < n) := by
        by_cases q : b < n
        · simp [q]; omega
        · simp [q]; omega
      rw [e2, ← hw b]
      cases hp : P n
      · simp
      · simp
        intro _ h2 h3
        omega

/-- [axiom: any choice among n positions is the Gray code of a word below 2^n] -/
theorem gray_surj (n : Nat) (hn : n ≤ 63) (P : Nat → Bool) :
    ∃ g : BitVec 64, g.toNat < 2^n ∧ ∀ b, b < n → (g.getLsbD b ^^ g.getLsbD (b+1)) = P b := by
  have hinj : Function.Injective (fun g : Fin (2^n) => (⟨(gray (BitVec.ofNat 64 g.val)).toNat, by
      apply gray_below _ _ hn
      have : g.val < 2^64 := Nat.lt_trans g.isLt (Nat.pow_lt_pow_right (by omega) (by omega))
      rw [BitVec.toNat_ofNat, Nat.mod_eq_of_lt this]; exact g.isLt⟩ : Fin (2^n))) := by
    intro a b h
    simp only [Fin.mk.injEq] at h
    have h2 := gray_inj _ _ (BitVec.eq_of_toNat_eq h)
    have ha : a.val < 2^64 := Nat.lt_trans a.isLt (Nat.pow_lt_pow_right (by omega) (by omega))
    have hb : b.val < 2^64 := Nat.lt_trans b.isLt (Nat.pow_lt_pow_right (by omega) (by omega))
    have h3 := congrArg BitVec.toNat h2
    rw [BitVec.toNat_ofNat, BitVec.toNat_ofNat, Nat.mod_eq_of_lt ha, Nat.mod_eq_of_lt hb] at h3
    exact Fin.ext h3
  have hsurj := Finite.injective_iff_surjective.1 hinj
  obtain ⟨w, hwb⟩ := word_of n hn P
  have hw : w.toNat < 2^n := by
    rw [below _ _ hn]; intro b hb
    rw [hwb]; have : ¬ b < n := by omega
    simp [this]
  obtain ⟨g, hg⟩ := hsurj ⟨w.toNat, hw⟩
  simp only [Fin.mk.injEq] at hg
  have hg2 : gray (BitVec.ofNat 64 g.val) = w := BitVec.eq_of_toNat_eq hg
  refine ⟨BitVec.ofNat 64 g.val, ?_, ?_⟩
  · have : g.val < 2^64 := Nat.lt_trans g.isLt (Nat.pow_lt_pow_right (by omega) (by omega))
    rw [BitVec.toNat_ofNat, Nat.mod_eq_of_lt this]; exact g.isLt
  · intro b hb
    rw [← gray_bit, hg2, hwb]; simp [hb]

/-! ### enumeration of an IntSet: cells (key, mask) with distinct keys; the members of cell (k, m) are k*64+b for the bits b of m -/
def bits (m : BitVec 64) : List Nat := (List.range 64).filter (fun i => m.getLsbD i)
def members (cells : List (Int × BitVec 64)) : List Int :=
  cells.flatMap (fun c => (bits c.2).map (fun b : Nat => c.1 * 64 + (b : Int)))

theorem bits_len (m : BitVec 64) : (bits m).length = pop m := by
  simp [bits, pop, List.countP_eq_length_filter]

/-- [axiom: the number of members is the sum of the population counts] -/
theorem members_len (cells : List (Int × BitVec 64)) : (members cells).length = (cells.map (fun c => pop c.2)).sum := by
  induction cells with
  | nil => rfl
  | cons c t ih =>
    have e : members (c :: t) = (bits c.2).map (fun b : Nat => c.1 * 64 + (b : Int)) ++ members t := by simp [members]
    rw [e, List.length_append, List.length_map, bits_len, ih, List.map_cons, List.sum_cons]

/-- [axiom: they are the members] -/
theorem members_mem (cells : List (Int × BitVec 64)) (i : Int) :
    i ∈ members cells ↔ ∃ c ∈ cells, c.1 = i / 64 ∧ c.2.getLsbD (i % 64).toNat = true := by
  simp only [members, List.mem_flatMap, List.mem_map, bits, List.mem_filter, List.mem_range]
  constructor
  · intro ⟨c, hc, b, hbm, hi⟩
    obtain ⟨hb, hm⟩ := hbm
    subst hi
    refine ⟨c, hc, by omega, ?_⟩
    have : ((c.1 * 64 + (b : Int)) % 64).toNat = b := by omega
    rw [this]; exact hm
  · rintro ⟨c, hc, h1, h2⟩
    exact ⟨c, hc, (i % 64).toNat, ⟨by omega, h2⟩, by omega⟩

/-- [axiom: each once] -/
theorem members_nodup (cells : List (Int × BitVec 64)) (h : (cells.map Prod.fst).Nodup) : (members cells).Nodup := by
  induction cells with
  | nil => simp [members]
  | cons c t ih =>
    simp only [List.map_cons, List.nodup_cons] at h
    have e : members (c :: t) = (bits c.2).map (fun b : Nat => c.1 * 64 + (b : Int)) ++ members t := by simp [members]
    rw [e, List.nodup_append]
    refine ⟨?_, ih h.2, ?_⟩
    · apply List.Nodup.map
      · intro a b hab; simp at hab; omega
      · exact List.Nodup.filter _ List.nodup_range
    · intro x hx y hy hxy
      subst hxy
      simp only [List.mem_map, bits, List.mem_filter, List.mem_range] at hx
      obtain ⟨b, hbb, hx2⟩ := hx
      have hb := hbb.1
      obtain ⟨c2, hc2, h3, _⟩ := (members_mem t _).1 hy
      apply h.1
      rw [List.mem_map]
      exact ⟨c2, hc2, by omega⟩

/-- [axiom: position] the t-th member of cell number q is at the number of members in the cells before q, plus t -/
theorem members_at (cells : List (Int × BitVec 64)) (q t : Nat) (hq : q < cells.length) (ht : t < pop (cells[q]).2) :
    (members cells)[((cells.take q).map (fun c => pop c.2)).sum + t]? = some ((cells[q]).1 * 64 + (((bits (cells[q]).2)[t]'(by rw [bits_len]; exact ht) : Nat) : Int)) := by
  induction cells generalizing q with
  | nil => simp at hq
  | cons c l ih =>
    have e : members (c :: l) = (bits c.2).map (fun b : Nat => c.1 * 64 + (b : Int)) ++ members l := by simp [members]
    cases q with
    | zero =>
      simp only [List.getElem_cons_zero] at ht ⊢
      simp only [List.take_zero, List.map_nil, List.sum_nil, Nat.zero_add, e]
      rw [List.getElem?_append_left (by simp [bits_len, ht])]
      simp [bits_len, ht]
    | succ q =>
      simp only [List.getElem_cons_succ] at ht ⊢
      simp only [List.length_cons, Nat.add_lt_add_iff_right] at hq
      rw [e, List.getElem?_append_right (by simp [bits_len]; omega)]
      rw [← ih q hq ht]
      congr 1
      simp [bits_len]; omega

end Words
#print axioms Words.gray_surj
#print axioms Words.pop_clear
#print axioms Words.members_at
