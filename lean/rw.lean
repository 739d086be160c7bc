theorem Pm_nonneg (b B : ℤ → ℝ) (k : ℕ) (x : ℝ) : 0 ≤ Pm b B k x := by
  induction k generalizing x with
  | zero => simp [Pm]
  | succ k ih => simp only [Pm]; exact setIntegral_nonneg measurableSet_Icc (fun u _ => ih u)

theorem Pm_mono (b B : ℤ → ℝ) (k : ℕ) : Monotone (Pm b B k) := by
  induction k with
  | zero => intro x y _; simp [Pm]
  | succ k ih =>
    intro x y hxy
    simp only [Pm]
    apply setIntegral_mono_set
    · exact (ih.monotoneOn _).integrableOn_isCompact isCompact_Icc
    · exact Filter.Eventually.of_forall (fun u => Pm_nonneg b B k u)
    · exact (Set.Icc_subset_Icc le_rfl (min_le_min_right _ hxy)).eventuallyLE

theorem Pm_step_const (b B : ℤ → ℝ) (k : ℕ) (t s : ℝ) (hts : t ≤ s) (h : B k ≤ t) : Pm b B (k+1) s = Pm b B (k+1) t := by
  simp only [Pm]; rw [min_eq_right h, min_eq_right (h.trans hts)]

theorem Pm_step_int (b B : ℤ → ℝ) (k : ℕ) (t s : ℝ) (hts : t ≤ s) (hB : s ≤ B k) (hb : b k ≤ t) :
    Pm b B (k+1) s = Pm b B (k+1) t + ∫ u in t..s, Pm b B k u := by
  have hi : ∀ x y, IntervalIntegrable (Pm b B k) volume x y := fun x y => (Pm_mono b B k).intervalIntegrable
  simp only [Pm]
  rw [min_eq_left hB, min_eq_left (hts.trans hB), integral_Icc_eq_integral_Ioc, integral_Icc_eq_integral_Ioc,
    ← intervalIntegral.integral_of_le hb, ← intervalIntegral.integral_of_le (hb.trans hts)]
  exact (intervalIntegral.integral_add_adjacent_intervals (hi _ _) (hi _ _)).symm

/-- p_m(s) = Σ_{l ≤ m-a} (s-t)^l / l! p_{m-l}(t) -/
theorem Pm_taylor (b B : ℤ → ℝ) (a d : ℕ) (t : ℝ) (ha : ∀ i : ℕ, i < a → B i ≤ t) (hb : ∀ i : ℕ, i < a + d → b i ≤ t) :
    ∀ s, t ≤ s → (∀ i : ℕ, a ≤ i → i < a + d → s ≤ B i) →
    Pm b B (a + d) s = ∑ l ∈ Finset.range (d + 1), (s - t) ^ l / (l.factorial : ℝ) * Pm b B (a + d - l) t := by
  induction d with
  | zero =>
    intro s hs _
    simp
    cases a with
    | zero => simp [Pm]
    | succ a => exact Pm_step_const b B a t s hs (ha a (by omega))
  | succ d ih =>
    intro s hs hB
    have ih' := ih (fun i hi => hb i (by omega))
    rw [show a + (d + 1) = (a + d) + 1 by ring, Pm_step_int b B (a + d) t s hs (hB (a+d) (by omega) (by omega)) (hb _ (by omega))]
    have h1 : ∫ u in t..s, Pm b B (a + d) u = ∫ u in t..s, ∑ l ∈ Finset.range (d + 1), (u - t) ^ l / (l.factorial : ℝ) * Pm b B (a + d - l) t := by
      apply intervalIntegral.integral_congr
      intro u hu
      rw [Set.uIcc_of_le hs] at hu
      exact ih' u hu.1 (fun i h1 h2 => hu.2.trans (hB i h1 (by omega)))
    rw [h1, intervalIntegral.integral_finset_sum]
    · rw [Finset.sum_range_succ' _ (d + 1)]
      simp only [pow_zero, Nat.factorial_zero, Nat.cast_one, div_one, one_mul, Nat.sub_zero]
      rw [add_comm]
      congr 1
      apply Finset.sum_congr rfl
      intro l hl
      have hld : l ≤ d := by have := Finset.mem_range.mp hl; omega
      rw [show a + d + 1 - (l + 1) = a + d - l by omega]
      rw [intervalIntegral.integral_mul_const]
      congr 1
      have : ∫ u in t..s, (u - t) ^ l / (l.factorial : ℝ) = (∫ u in t..s, (u - t) ^ l) / (l.factorial : ℝ) := by
        rw [intervalIntegral.integral_div]
      rw [this, intervalIntegral.integral_comp_sub_right (fun x => x ^ l) t, integral_pow, Nat.factorial_succ]
      have : (l.factorial : ℝ) ≠ 0 := by exact_mod_cast l.factorial_ne_zero
      have : ((l : ℝ) + 1) ≠ 0 := by positivity
      push_cast
      simp
      field_simp
    · intro l _
      apply Continuous.intervalIntegrable
      fun_prop

theorem rw_start : S_rw_start := by
  intro b B lam; simp [RW, Pm]

theorem rw_same : S_rw_same := by
  intro b B lam t s m hm h
  unfold RW
  rcases mul_eq_zero.mp h with h | h
  · subst h
    rcases Nat.eq_zero_or_pos m.toNat with h0 | h0
    · rw [h0]; simp [Pm]
    · simp [h0.ne']
  · have : s = t := by linarith
    rw [this]

theorem rw_step : S_rw_step := by
  intro b B lam n t s a m ha ham hmn hts hl hBa hBs hb
  obtain ⟨a', rfl⟩ := Int.eq_ofNat_of_zero_le ha
  obtain ⟨d, rfl⟩ := Int.le.dest ham
  have hT := Pm_taylor b B a' d t (fun i hi => hBa i ⟨by omega, by omega⟩) (fun i hi => hb i ⟨by omega, by omega⟩) s hts
    (fun i h1 h2 => hBs i ⟨by omega, by omega⟩)
  have e1 : ((a' : ℤ) + (d : ℤ)).toNat = a' + d := by omega
  have e2 : (((a' : ℤ) + (d : ℤ) - (a' : ℤ)) + 1).toNat = d + 1 := by omega
  unfold RW
  rw [e1, e2, hT, Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro l hl'
  have hld : l ≤ d := by have := Finset.mem_range.mp hl'; omega
  have e3 : ((a' : ℤ) + (d : ℤ) + (-1 : ℤ) * (l : ℤ)).toNat = a' + d - l := by omega
  rw [e3]
  unfold pois
  have e4 : Real.exp (-(lam * s)) = Real.exp (-(lam * (s + -1 * t))) * Real.exp (-(lam * t)) := by
    rw [← Real.exp_add]; congr 1; ring
  have e5 : lam ^ (a' + d) = lam ^ l * lam ^ (a' + d - l) := by rw [← pow_add]; congr 1; omega
  rw [e4, e5]
  simp only [Int.toNat_natCast]
  rw [mul_pow]
  have : (l.factorial : ℝ) ≠ 0 := by exact_mod_cast l.factorial_ne_zero
  field_simp
  ring

theorem rw_zero : S_rw_zero := by
  intro b B lam s m hm h
  have e1 : (m + 1).toNat = m.toNat + 1 := by omega
  unfold RW
  rw [e1]
  rcases h with h | h
  · simp [h]
  · have e2 : ((m.toNat : ℕ) : ℤ) = m := by omega
    simp only [Pm]
    rw [e2]
    have : ∫ u in Set.Icc (b m) (min s (B m)), Pm b B m.toNat u = 0 := by
      apply setIntegral_measure_zero
      rw [Real.volume_Icc]
      apply ENNReal.ofReal_of_nonpos
      have := min_le_left s (B m)
      linarith
    rw [this]; simp

theorem rw_final : S_rw_final := by
  intro b B n hn
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  unfold RW NCP pois
  simp
  have h1 : (m.factorial : ℝ) ≠ 0 := by exact_mod_cast m.factorial_ne_zero
  have h2 : ((m : ℝ)) ^ m ≠ 0 := by
    rcases Nat.eq_zero_or_pos m with h | h
    · subst h; simp
    · have : (m : ℝ) ≠ 0 := by exact_mod_cast h.ne'
      positivity
  have h3 := (Real.exp_pos (-(m:ℝ))).ne'
  field_simp

theorem Pm_zero_of (b B : ℤ → ℝ) (i : ℕ) (h : B i ≤ b i) (d : ℕ) : ∀ x, Pm b B (i + 1 + d) x = 0 := by
  induction d with
  | zero =>
    intro x
    simp only [Pm]
    apply setIntegral_measure_zero
    rw [Real.volume_Icc]
    apply ENNReal.ofReal_of_nonpos
    have := min_le_right x (B i)
    linarith
  | succ d ih => intro x; rw [show i + 1 + (d + 1) = (i + 1 + d) + 1 by ring]; simp only [Pm]; simp [ih]

theorem ncp_incompatible : S_ncp_incompatible := by
  intro b B n i ⟨⟨h0, h1⟩, h2⟩
  obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  unfold NCP
  have : n.toNat = j + 1 + (n.toNat - j - 1) := by omega
  rw [this, Pm_zero_of b B j h2]; simp

theorem Pm_ext (b B c C : ℤ → ℝ) (n : ℕ) (h : ∀ i : ℕ, i < n → b i = c i ∧ B i = C i) : ∀ x, Pm b B n x = Pm c C n x := by
  induction n with
  | zero => intro x; simp [Pm]
  | succ n ih =>
    intro x
    simp only [Pm]
    rw [(h n (by omega)).1, (h n (by omega)).2]
    have := ih (fun i hi => h i (by omega))
    simp [this]

theorem ncp_ext : S_ncp_ext := by
  intro b B c C n h
  unfold NCP
  rw [Pm_ext b B c C n.toNat (fun i hi => h i ⟨by omega, by omega⟩)]
