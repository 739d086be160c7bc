-- requires: rw
theorem Pm_le (b B : ℤ → ℝ) (n : ℕ) (hb : ∀ i : ℕ, i < n → 0 ≤ b i) : ∀ k : ℕ, k ≤ n → ∀ x, 0 ≤ x → Pm b B k x ≤ x ^ k / (k.factorial : ℝ) := by
  intro k
  induction k with
  | zero => intro _ x _; simp [Pm]
  | succ k ih =>
    intro hk x hx
    simp only [Pm]
    have h1 : ∫ u in Set.Icc (b k) (min x (B k)), Pm b B k u ≤ ∫ u in Set.Icc (b k) (min x (B k)), u ^ k / (k.factorial : ℝ) := by
      apply setIntegral_mono_on ((Pm_mono b B k).monotoneOn _ |>.integrableOn_isCompact isCompact_Icc) _ measurableSet_Icc
      · intro u hu; exact ih (by omega) u ((hb k (by omega)).trans hu.1)
      · exact (by fun_prop : Continuous fun u : ℝ => u ^ k / (k.factorial : ℝ)).continuousOn.integrableOn_compact isCompact_Icc
    have h2 : ∫ u in Set.Icc (b k) (min x (B k)), u ^ k / (k.factorial : ℝ) ≤ ∫ u in Set.Icc 0 x, u ^ k / (k.factorial : ℝ) := by
      apply setIntegral_mono_set
      · exact (by fun_prop : Continuous fun u : ℝ => u ^ k / (k.factorial : ℝ)).continuousOn.integrableOn_compact isCompact_Icc
      · rw [Filter.EventuallyLE, ae_restrict_iff' measurableSet_Icc]
        exact Filter.Eventually.of_forall (fun u hu => by have := hu.1; positivity)
      · exact (Set.Icc_subset_Icc (hb k (by omega)) (min_le_left _ _)).eventuallyLE
    have h3 : ∫ u in Set.Icc 0 x, u ^ k / (k.factorial : ℝ) = x ^ (k + 1) / ((k + 1).factorial : ℝ) := by
      rw [integral_Icc_eq_integral_Ioc, ← intervalIntegral.integral_of_le hx, intervalIntegral.integral_div, integral_pow, Nat.factorial_succ]
      push_cast
      have : ((k : ℝ) + 1) ≠ 0 := by positivity
      have : (k.factorial : ℝ) ≠ 0 := by positivity
      field_simp
      simp
    linarith

theorem Pm_anti (b B c C : ℤ → ℝ) (n : ℕ) (h : ∀ i : ℕ, i < n → b i ≤ c i ∧ C i ≤ B i) : ∀ k : ℕ, k ≤ n → ∀ x, Pm c C k x ≤ Pm b B k x := by
  intro k
  induction k with
  | zero => intro _ x; simp [Pm]
  | succ k ih =>
    intro hk x
    simp only [Pm]
    obtain ⟨h1, h2⟩ := h k (by omega)
    have i1 := fun y z => ((Pm_mono b B k).monotoneOn _ |>.integrableOn_isCompact (isCompact_Icc (a := y) (b := z)) (μ := volume))
    have i2 := fun y z => ((Pm_mono c C k).monotoneOn _ |>.integrableOn_isCompact (isCompact_Icc (a := y) (b := z)) (μ := volume))
    calc ∫ u in Set.Icc (c k) (min x (C k)), Pm c C k u ≤ ∫ u in Set.Icc (c k) (min x (C k)), Pm b B k u :=
          setIntegral_mono (i2 _ _) (i1 _ _) (fun u => ih (by omega) u)
      _ ≤ ∫ u in Set.Icc (b k) (min x (B k)), Pm b B k u := by
          apply setIntegral_mono_set (i1 _ _)
          · exact Filter.Eventually.of_forall (fun u => Pm_nonneg b B k u)
          · exact (Set.Icc_subset_Icc h1 (min_le_min_left _ h2)).eventuallyLE

theorem ncp_range : S_ncp_range := by
  intro b B n hn hb
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  unfold NCP
  rw [Int.toNat_natCast]
  refine ⟨mul_nonneg (by positivity) (Pm_nonneg _ _ _ _), ?_⟩
  have := Pm_le b B k (fun i hi => hb i ⟨by omega, by omega⟩) k le_rfl 1 zero_le_one
  have hf : (0 : ℝ) < k.factorial := by positivity
  calc (k.factorial : ℝ) * Pm b B k 1 ≤ k.factorial * (1 ^ k / (k.factorial : ℝ)) := mul_le_mul_of_nonneg_left this hf.le
    _ = 1 := by field_simp; simp

theorem ncp_mono : S_ncp_mono := by
  intro b B c C n hn h
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  unfold NCP
  rw [Int.toNat_natCast]
  exact mul_le_mul_of_nonneg_left (Pm_anti b B c C k (fun i hi => h i ⟨by omega, by omega⟩) k le_rfl 1) (by positivity)
