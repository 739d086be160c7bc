-- requires:
theorem dcnt_succ (v c : ℤ) (n : ℕ) : DCNT v c ((n : ℤ) + 1) = DCNT v c n + (if SCHAR v n = c then 1 else 0) := by
  have e : ((n : ℤ) + 1).toNat = n + 1 := by omega
  simp only [DCNT, e, Int.toNat_natCast, Finset.range_add_one, Finset.filter_insert]
  by_cases h : SCHAR v n = c
  · simp [h]
  · simp [h]
theorem dcnt_mono (v c : ℤ) (m n : ℕ) (h : m ≤ n) : DCNT v c m ≤ DCNT v c n := by
  induction n, h using Nat.le_induction with
  | base => exact le_refl _
  | succ k _ ih =>
    have := dcnt_succ v c k
    push_cast
    rw [this]
    split_ifs <;> omega
theorem dcnt_zero (v c : ℤ) : DCNT v c 0 = 0 := by simp [DCNT]
theorem dcnt_nonneg (v c i : ℤ) : 0 ≤ DCNT v c i := by unfold DCNT; omega
theorem dcnt_le (v c : ℤ) (n : ℕ) : DCNT v c n ≤ n := by
  have := Finset.card_filter_le (Finset.range n) (fun j : ℕ => SCHAR v j = c)
  simp only [Finset.card_range] at this
  unfold DCNT; simp only [Int.toNat_natCast]; exact_mod_cast this
theorem fst_eq (v c k : ℤ) (m : ℕ) (hm : (m : ℤ) ≤ SLEN v + 1) (h1 : ∀ j : ℕ, j < m → DCNT v c j < k) (h2 : ∀ j : ℕ, m ≤ j → (j : ℤ) ≤ SLEN v → k ≤ DCNT v c j) : FST v c k = m := by
  have : (Finset.range (SLEN v + 1).toNat).filter (fun i : ℕ => DCNT v c i < k) = Finset.range m := by
    ext j; simp only [Finset.mem_filter, Finset.mem_range]
    constructor
    · rintro ⟨a, b⟩
      by_contra hc
      have := h2 j (by omega) (by omega)
      omega
    · intro a; exact ⟨by omega, h1 j a⟩
  unfold FST; rw [this]; simp
theorem split_count : S_split_count := by
  intro v c i hi
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hi
  exact ⟨dcnt_zero v c, dcnt_nonneg v c _, dcnt_le v c n, dcnt_succ v c n⟩
theorem split_start : S_split_start := by
  intro v c hs
  have := fst_eq v c 0 0 (by push_cast; omega) (by intro j hj; omega) (by intro j _ _; exact dcnt_nonneg v c j)
  exact_mod_cast this
theorem split_at : S_split_at := by
  intro v c i hi hl hc
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hi
  have hs := dcnt_succ v c n
  simp only [hc, if_true] at hs
  have := fst_eq v c (DCNT v c n + 1) (n + 1) (by push_cast; omega)
    (by intro j hj; have := dcnt_mono v c j n (by omega); omega)
    (by intro j hj _; have := dcnt_mono v c (n + 1) j hj; push_cast at this; omega)
  rw [this]; push_cast; ring
theorem split_end : S_split_end := by
  intro v c hs
  obtain ⟨n, hn⟩ := Int.eq_ofNat_of_zero_le hs
  have := fst_eq v c (DCNT v c (SLEN v) + 1) (n + 1) (by push_cast; omega)
    (by intro j hj; rw [hn]; have := dcnt_mono v c j n (by omega); omega)
    (by intro j hj h; omega)
  rw [this, hn]; push_cast; ring
theorem split_bound : S_split_bound := by
  intro v c i hi hl
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hi
  refine ⟨by unfold FST; omega, ?_⟩
  have : (Finset.range (SLEN v + 1).toNat).filter (fun j : ℕ => DCNT v c j < DCNT v c n) ⊆ Finset.range n := by
    intro j; simp only [Finset.mem_filter, Finset.mem_range]
    rintro ⟨a, b⟩
    by_contra hcc
    have := dcnt_mono v c n j (by omega)
    omega
  have h2 := Finset.card_le_card this
  simp only [Finset.card_range] at h2
  unfold FST; exact_mod_cast h2
theorem dcnt_none (v c : ℤ) (m n : ℕ) (hmn : m ≤ n) : (∀ t : ℤ, (m : ℤ) ≤ t ∧ t < n → SCHAR v t ≠ c) → DCNT v c n = DCNT v c m := by
  induction n, hmn using Nat.le_induction with
  | base => intro _; rfl
  | succ k hk ih =>
    intro h
    have h0 := ih (by intro t ht; exact h t (by push_cast; omega))
    have h1 := dcnt_succ v c k
    have h2 : SCHAR v k ≠ c := h k (by push_cast; omega)
    push_cast
    rw [h1, h0, if_neg h2]; ring
theorem split_none : S_split_none := by
  intro v c a b ha hab h
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le ha
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans ha hab)
  exact dcnt_none v c m n (by exact_mod_cast hab) (by intro t ht; exact h t ht)
