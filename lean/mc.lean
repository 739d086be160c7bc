theorem succ_toNat (k : ℤ) (h : k ≥ 0) : (k + 1).toNat = k.toNat + 1 := by omega

theorem it_zero : S_it_zero := by
  intro s0 s1 m1 m2 tm; simp [IT0, IT1, ITn]
theorem it_step : S_it_step := by
  intro s0 s1 m1 m2 tm k hk; simp [IT0, IT1, succ_toNat k hk, ITn]
theorem draw_def : S_draw_def := by
  intro s0 s1 m1 m2 tm k; rfl
theorem es_zero : S_es_zero := by
  intro s0 s1 m1 m2 tm beta; simp [ES]
theorem es_step : S_es_step := by
  intro s0 s1 m1 m2 tm beta k hk
  have : ((k.toNat : ℕ) : ℤ) = k := Int.toNat_of_nonneg hk
  simp only [ES, succ_toNat k hk, Finset.sum_range_succ, this]; ring

theorem ES_nonneg (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (hb : 0 ≤ beta)
    (hd : ∀ j : ℤ, j ≥ 0 → 0 < DRAW s0 s1 m1 m2 tm j ∧ DRAW s0 s1 m1 m2 tm j ≤ 1) (i : ℕ) :
    0 ≤ -(beta * Real.log (DRAW s0 s1 m1 m2 tm i)) := by
  have := hd i (by omega)
  have h2 := Real.log_nonpos this.1.le this.2
  nlinarith
theorem es_pos : S_es_pos := by
  intro s0 s1 m1 m2 tm beta k hb hd i hi
  exact Finset.sum_nonneg (fun j _ => ES_nonneg s0 s1 m1 m2 tm beta hb hd j)
theorem ES_mono (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (hb : 0 ≤ beta)
    (hd : ∀ j : ℤ, j ≥ 0 → 0 < DRAW s0 s1 m1 m2 tm j ∧ DRAW s0 s1 m1 m2 tm j ≤ 1) (i j : ℤ) (h : i ≤ j) :
    ES s0 s1 m1 m2 tm beta i ≤ ES s0 s1 m1 m2 tm beta j := by
  apply Finset.sum_le_sum_of_subset_of_nonneg
  · exact Finset.range_mono (by omega)
  · intro t _ _; exact ES_nonneg s0 s1 m1 m2 tm beta hb hd t

theorem cross_def : S_cross_def := by
  intro A n b bn B Bn; simp only [CROSSF]
theorem cross_congr (A A' : ℤ → ℝ) (n : ℤ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn : ℤ) (h : ∀ i, 0 ≤ i → i < n → A i = A' i) :
    CROSSF A n b bn B Bn ↔ CROSSF A' n b bn B Bn := by
  have e1 : (∃ i : ℤ, 0 ≤ i ∧ i < n ∧ i < Bn ∧ A i > B i) ↔ (∃ i : ℤ, 0 ≤ i ∧ i < n ∧ i < Bn ∧ A' i > B i) :=
    exists_congr fun i => by
      constructor <;> rintro ⟨h1, h2, h3, h4⟩ <;> exact ⟨h1, h2, h3, by simpa [h i h1 h2] using h4⟩
  have e2 : (∃ i : ℤ, 0 ≤ i ∧ i < n ∧ i < bn ∧ A i < b i) ↔ (∃ i : ℤ, 0 ≤ i ∧ i < n ∧ i < bn ∧ A' i < b i) :=
    exists_congr fun i => by
      constructor <;> rintro ⟨h1, h2, h3, h4⟩ <;> exact ⟨h1, h2, h3, by simpa [h i h1 h2] using h4⟩
  simp only [CROSSF, e1, e2]
theorem ecx_def : S_ecx_def := by
  intro s0 s1 m1 m2 tm A n b bn B Bn hn hA
  exact cross_congr _ _ _ _ _ _ _ (fun i h1 h2 => hA i ⟨h1, h2⟩)

theorem pcx_end : S_pcx_end := by
  intro s0 s1 m1 m2 tm beta A k b bn B Bn hb hd hk hbn hBn hA hl he
  have mono := ES_mono s0 s1 m1 m2 tm beta hb hd
  have le1 : ∀ i, 0 ≤ i → i < k → ES s0 s1 m1 m2 tm beta (i + 1) ≤ 1 := by
    intro i h0 h1
    rcases hl with h | h
    · omega
    · exact (mono (i + 1) k (by omega)).trans h
  have lt : ∀ i, ES s0 s1 m1 m2 tm beta (i + 1) ≤ 1 → i < k := by
    intro i h
    by_contra hc
    have := mono (k + 1) (i + 1) (by omega)
    linarith
  rw [cross_congr A (fun i => ES s0 s1 m1 m2 tm beta (i + 1)) k b bn B Bn (fun i h1 h2 => hA i ⟨h1, h2⟩)]
  simp only [CROSSF, PCX]
  constructor
  · rintro (h | h | ⟨i, h0, h1, h2, h3⟩ | ⟨i, h0, h1, h2, h3⟩)
    · exact Or.inl ⟨k, hk, h, he⟩
    · exact Or.inr (Or.inl ⟨h.1, le1 bn hbn h.2⟩)
    · exact Or.inr (Or.inr (Or.inl ⟨i, h0, h2, le1 i h0 h1, h3⟩))
    · exact Or.inr (Or.inr (Or.inr ⟨i, h0, h2, le1 i h0 h1, h3⟩))
  · rintro (⟨i, h0, h1, h2⟩ | ⟨h1, h2⟩ | ⟨i, h0, h1, h2, h3⟩ | ⟨i, h0, h1, h2, h3⟩)
    · left
      by_contra hc
      have := le1 i h0 (by omega)
      linarith
    · exact Or.inr (Or.inl ⟨h1, lt bn h2⟩)
    · exact Or.inr (Or.inr (Or.inl ⟨i, h0, lt i h2, h1, h3⟩))
    · exact Or.inr (Or.inr (Or.inr ⟨i, h0, lt i h2, h1, h3⟩))

theorem pcx_full : S_pcx_full := by
  intro s0 s1 m1 m2 tm beta A b bn B Bn hb hd h0 hBn hA he
  have mono := ES_mono s0 s1 m1 m2 tm beta hb hd
  have le1 : ∀ i, i < Bn → ES s0 s1 m1 m2 tm beta (i + 1) ≤ 1 := fun i h1 => (mono (i + 1) (Bn + 1) (by omega)).trans he
  rw [cross_congr A (fun i => ES s0 s1 m1 m2 tm beta (i + 1)) Bn b bn B Bn (fun i h1 h2 => hA i ⟨h1, h2⟩)]
  simp only [CROSSF, PCX]
  constructor
  · rintro (h | h | ⟨i, g0, g1, g2, g3⟩ | ⟨i, g0, g1, g2, g3⟩)
    · omega
    · omega
    · exact Or.inr (Or.inr (Or.inl ⟨i, g0, g2, le1 i g1, g3⟩))
    · omega
  · rintro (⟨i, g0, g1, g2⟩ | ⟨h1, h2⟩ | ⟨i, g0, g1, g2, g3⟩ | ⟨i, g0, g1, g2, g3⟩)
    · have := le1 i g1; linarith
    · omega
    · exact Or.inr (Or.inr (Or.inl ⟨i, g0, g1, g1, g3⟩))
    · omega
theorem pcx_over : S_pcx_over := by
  intro s0 s1 m1 m2 tm beta b bn B Bn h1 h2
  exact Or.inr (Or.inl ⟨h1, h2⟩)

theorem pn_def : S_pn_def := by
  classical
  intro s0 s1 m1 m2 tm beta m k hb hd hk hkm hl he
  have mono := ES_mono s0 s1 m1 m2 tm beta hb hd
  have no : ∀ j : ℕ, (j : ℤ) < k → ¬ ES s0 s1 m1 m2 tm beta (j + 1) > 1 := by
    intro j hj h
    rcases hl with h' | h'
    · omega
    · have := mono (j + 1) k (by omega); linarith
  unfold PN
  split_ifs with h
  · have hs := Nat.find_spec h
    have hmin : (Nat.find h : ℤ) = k := by
      rcases he with e | e
      · exact absurd hs.2 (no _ (by omega))
      · have hlt : k < m ∨ k = m := by omega
        rcases hlt with hlt | heq
        · have h1 : Nat.find h ≤ k.toNat := Nat.find_min' h ⟨by omega, by rw [Int.toNat_of_nonneg hk]; exact e⟩
          have h2 : ¬ ((Nat.find h : ℤ) < k) := fun hc => no _ hc hs.2
          omega
        · exact absurd hs.2 (no _ (by omega))
    rw [hmin]
  · rcases he with e | e
    · rw [e]
    · have hlt : k < m ∨ k = m := by omega
      rcases hlt with hlt | heq
      · exact absurd ⟨k.toNat, by omega, by rw [Int.toNat_of_nonneg hk]; exact e⟩ h
      · rw [heq]

theorem pcx_impossible : S_pcx_impossible := by
  intro s0 s1 m1 m2 tm beta b bn B Bn hb hd h1 h2
  by_cases h : ES s0 s1 m1 m2 tm beta (bn + 1) ≤ 1
  · exact Or.inr (Or.inl ⟨h1, h⟩)
  · exact Or.inl ⟨bn, h1.le, h2, not_le.mp h⟩
theorem ecx_impossible : S_ecx_impossible := by
  intro s0 s1 m1 m2 tm n b bn B Bn h
  rcases h with h | h
  · exact Or.inl h
  · exact Or.inr (Or.inl ⟨h.1, h.2⟩)

theorem rit_zero : S_rit_zero := by
  intro s0 s1 m1 m2 tm st; simp [RIT0, RIT1, RITn]
theorem rit_step : S_rit_step := by
  intro s0 s1 m1 m2 tm st k hk; simp [RIT0, RIT1, succ_toNat k hk, RITn]
theorem pit_zero : S_pit_zero := by
  intro s0 s1 m1 m2 tm beta m; simp [PIT0, PIT1, PITn]
theorem pit_step : S_pit_step := by
  intro s0 s1 m1 m2 tm beta m k hk; simp [PIT0, PIT1, succ_toNat k hk, PITn]
theorem ecnt_zero : S_ecnt_zero := by
  intro s0 s1 m1 m2 tm n b bn B Bn; simp [ECNT]
theorem ecnt_step : S_ecnt_step := by
  intro s0 s1 m1 m2 tm n b bn B Bn k hk
  have : ((k.toNat : ℕ) : ℤ) = k := Int.toNat_of_nonneg hk
  simp only [ECNT, succ_toNat k hk, Finset.sum_range_succ, this]
theorem pcnt_zero : S_pcnt_zero := by
  intro s0 s1 m1 m2 tm beta m b bn B Bn; simp [PCNT]
theorem pcnt_step : S_pcnt_step := by
  intro s0 s1 m1 m2 tm beta m b bn B Bn k hk
  have : ((k.toNat : ℕ) : ℤ) = k := Int.toNat_of_nonneg hk
  simp only [PCNT, succ_toNat k hk, Finset.sum_range_succ, this]
theorem ind_range (p : ℕ → Prop) [DecidablePred p] (k : ℕ) : 0 ≤ ∑ j ∈ Finset.range k, (if p j then (1 : ℤ) else 0) ∧ ∑ j ∈ Finset.range k, (if p j then (1 : ℤ) else 0) ≤ k := by
  constructor
  · exact Finset.sum_nonneg (fun j _ => by split_ifs <;> omega)
  · calc ∑ j ∈ Finset.range k, (if p j then (1 : ℤ) else 0) ≤ ∑ j ∈ Finset.range k, (1 : ℤ) := Finset.sum_le_sum (fun j _ => by split_ifs <;> omega)
      _ = k := by simp
theorem ecnt_range : S_ecnt_range := by
  intro s0 s1 m1 m2 tm n b bn B Bn k hk
  have h := ind_range (fun j => ECX (RIT0 s0 s1 m1 m2 tm (n + 1) j) (RIT1 s0 s1 m1 m2 tm (n + 1) j) m1 m2 tm n b bn B Bn) k.toNat
  rw [Int.toNat_of_nonneg hk] at h
  exact h
theorem pcnt_range : S_pcnt_range := by
  intro s0 s1 m1 m2 tm beta m b bn B Bn k hk
  have h := ind_range (fun j => PCX (PIT0 s0 s1 m1 m2 tm beta m j) (PIT1 s0 s1 m1 m2 tm beta m j) m1 m2 tm beta b bn B Bn) k.toNat
  rw [Int.toNat_of_nonneg hk] at h
  exact h
theorem ecnt_impossible : S_ecnt_impossible := by
  intro s0 s1 m1 m2 tm n b bn B Bn k hk h
  have e : ∀ j : ℕ, ECX (RIT0 s0 s1 m1 m2 tm (n + 1) j) (RIT1 s0 s1 m1 m2 tm (n + 1) j) m1 m2 tm n b bn B Bn := fun j => ecx_impossible _ _ m1 m2 tm n b bn B Bn h
  simp only [ECNT, e, if_true, Finset.sum_const, Finset.card_range, nsmul_eq_mul, mul_one]
  exact Int.toNat_of_nonneg hk
theorem pcnt_impossible : S_pcnt_impossible := by
  intro s0 s1 m1 m2 tm beta m b bn B Bn k hk hb hd h1 h2
  have e : ∀ j : ℕ, PCX (PIT0 s0 s1 m1 m2 tm beta m j) (PIT1 s0 s1 m1 m2 tm beta m j) m1 m2 tm beta b bn B Bn :=
    fun j => pcx_impossible _ _ m1 m2 tm beta b bn B Bn hb (hd _ _) h1 h2
  simp only [PCNT, e, if_true, Finset.sum_const, Finset.card_range, nsmul_eq_mul, mul_one]
  exact Int.toNat_of_nonneg hk
