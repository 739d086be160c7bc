theorem pois_def : S_pois_def := by
  intro l k hk hl
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  have hG : lgam (((n : ℤ) : ℝ) + 1) = Real.log (n.factorial : ℝ) := by
    unfold lgam
    have : (((n : ℤ) : ℝ) + 1) = (n : ℝ) + 1 := by push_cast; ring
    rw [this, Real.Gamma_nat_eq_factorial, abs_of_nonneg (by positivity)]
  have hf : (0 : ℝ) < (n.factorial : ℝ) := by exact_mod_cast n.factorial_pos
  rw [hG]
  unfold pois
  split_ifs with h1 h2
  · have h0 : n = 0 := by exact_mod_cast h2
    subst h0; simp [h1]
  · have h0 : n ≠ 0 := by intro h; apply h2; simp [h]
    subst h1; simp [h0]
  · have hp : 0 < l := lt_of_le_of_ne hl (Ne.symm h1)
    rw [Real.exp_sub, Real.exp_add, Real.exp_log hf]
    have : Real.exp ((((n : ℤ) : ℤ) : ℝ) * Real.log l) = l ^ n := by
      rw [mul_comm, Real.exp_mul, Real.exp_log hp]
      exact_mod_cast Real.rpow_natCast l n
    rw [this]; simp

theorem pois_pos : S_pois_pos := by
  intro l k hk hl
  unfold pois; have := Nat.factorial_pos k.toNat; positivity

theorem pois_nonneg : S_pois_nonneg := by
  intro l k hk hl
  unfold pois; have := Nat.factorial_pos k.toNat
  have hl' : 0 ≤ l := hl
  positivity

theorem pois_nn_pos : S_pois_nn_pos := by
  intro n hn
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  unfold pois
  have := Nat.factorial_pos m
  rcases Nat.eq_zero_or_pos m with h | h
  · subst h; simp
  · have : (0:ℝ) < (((m : ℤ) : ℤ) : ℝ) := by exact_mod_cast h
    positivity

theorem mono : S_mono := by
  intro a n h i j ⟨h0, h1, h2⟩
  obtain ⟨d, rfl⟩ := Int.le.dest h1
  induction d with
  | zero => simp
  | succ d ih =>
    have h3 := ih (by push_cast at *; omega) (by push_cast at *; omega)
    have h4 := h (i + d) ⟨by omega, by push_cast at *; omega⟩
    refine le_trans h3 (le_trans h4 (le_of_eq ?_))
    congr 1; push_cast; ring
