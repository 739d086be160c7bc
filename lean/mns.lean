-- requires: rw
theorem poly_def : S_poly_def := by
  intro m a d x hd
  unfold POLY ipow
  simp

theorem pow2_add : S_pow2_add := by
  intro i j
  unfold pow2
  rw [zpow_add₀ (by norm_num)]

theorem pow2_pos : S_pow2_pos := by
  intro i; unfold pow2; positivity

theorem mns_start : S_mns_start := by
  intro m a b h x
  unfold POLY QM
  simp [Qn, h]

theorem POLY_succ (m a : ℤ → ℝ) (d : ℕ) (x : ℝ) :
    POLY m a ((d : ℤ) + 1) x = m 0 + ∑ k ∈ Finset.range (d + 1), m ((k : ℤ) + 1) * (x + a ((k : ℤ) + 1)) ^ (k + 1) := by
  unfold POLY
  rw [show ((d : ℤ) + 1 + 1).toNat = (d + 1) + 1 by omega, Finset.sum_range_succ', add_comm]
  simp

theorem POLY_nat (m a : ℤ → ℝ) (d : ℕ) (x : ℝ) : POLY m a (d : ℤ) x = ∑ k ∈ Finset.range (d + 1), m (k : ℤ) * (x + a (k : ℤ)) ^ k := by
  unfold POLY; rw [show ((d : ℤ) + 1).toNat = d + 1 by omega]

theorem POLY_integral (m a : ℤ → ℝ) (d : ℕ) (m1 a1 : ℤ → ℝ) (h0 : m1 0 = 0) (h1 : ∀ k : ℕ, k < d + 1 → m1 ((k : ℤ) + 1) * ((k : ℝ) + 1) = m k)
    (h2 : ∀ k : ℕ, 1 ≤ k → k < d + 1 → a1 ((k : ℤ) + 1) = a k) (u v : ℝ) :
    ∫ y in u..v, POLY m a (d : ℤ) y = POLY m1 a1 ((d : ℤ) + 1) v - POLY m1 a1 ((d : ℤ) + 1) u := by
  rw [POLY_succ, POLY_succ]
  simp only [POLY_nat]
  rw [intervalIntegral.integral_finset_sum]
  · rw [h0, zero_add, zero_add, ← Finset.sum_sub_distrib]
    apply Finset.sum_congr rfl
    intro k hk
    have hk' : k < d + 1 := Finset.mem_range.mp hk
    rw [intervalIntegral.integral_const_mul, ← h1 k hk']
    rcases Nat.eq_zero_or_pos k with hz | hz
    · subst hz; simp; ring
    · rw [h2 k hz hk', intervalIntegral.integral_comp_add_right (fun y => y ^ k), integral_pow]
      have : ((k : ℝ) + 1) ≠ 0 := by positivity
      field_simp
  · intro k _
    apply Continuous.intervalIntegrable
    fun_prop

theorem mns_step : S_mns_step := by
  intro b m a m1 a1 m2 a2 d E P hd hq h0 h1 h2 h3 h4 h5 x
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hd
  have hi := POLY_integral m a n m1 a1 h0 (fun k hk => by
    have := h1 ((k : ℤ) + 1) ⟨by omega, by omega⟩
    rw [this]
    have hk : ((k : ℝ) + 1) ≠ 0 := by positivity
    push_cast
    rw [add_sub_cancel_right]
    field_simp) (fun k hk1 hk2 => by
    have := h2 ((k : ℤ) + 1) ⟨by omega, by omega⟩
    simpa using this) (b n) x
  have hE : POLY m2 a2 ((n : ℤ) + 1) x = P * (POLY m1 a1 ((n : ℤ) + 1) x - POLY m1 a1 ((n : ℤ) + 1) (b n)) := by
    rw [POLY_succ m2, h3, mul_sub, POLY_succ m1 a1 n x, h0, zero_add, Finset.mul_sum]
    have : ∑ k ∈ Finset.range (n + 1), m2 ((k : ℤ) + 1) * (x + a2 ((k : ℤ) + 1)) ^ (k + 1) = ∑ k ∈ Finset.range (n + 1), P * (m1 ((k : ℤ) + 1) * (x + a1 ((k : ℤ) + 1)) ^ (k + 1)) := by
      apply Finset.sum_congr rfl
      intro k hk
      have hk' := Finset.mem_range.mp hk
      rw [h4 ((k : ℤ) + 1) ⟨by omega, by omega⟩, h5 ((k : ℤ) + 1) ⟨by omega, by omega⟩]
      ring
    rw [this]; ring
  rw [hE, ← hi]
  have : ∀ y, POLY m a (n : ℤ) y = E * Qn b n y := fun y => by have := hq y; unfold QM at this; simpa using this
  simp only [this]
  rw [intervalIntegral.integral_const_mul]
  unfold QM
  rw [show ((n : ℤ) + 1).toNat = n + 1 by omega]
  simp only [Qn]
  ring

theorem Qn_Pm (b : ℤ → ℝ) (n : ℕ) (hm : ∀ i j : ℕ, i ≤ j → j < n → b i ≤ b j) :
    ∀ k : ℕ, k ≤ n → ∀ x, x ≤ 1 → (∀ i : ℕ, i < k → b i ≤ x) → Qn b k x = Pm b (fun _ => 1) k x := by
  intro k
  induction k with
  | zero => intro _ x _ _; simp [Qn, Pm]
  | succ k ih =>
    intro hk x hx hb
    simp only [Qn, Pm]
    rw [min_eq_left hx, integral_Icc_eq_integral_Ioc, intervalIntegral.integral_of_le (hb k (by omega))]
    apply setIntegral_congr_fun measurableSet_Ioc
    intro u hu
    exact ih (by omega) u (hu.2.trans hx) (fun i hi => (hm i k (by omega) (by omega)).trans hu.1.le)

theorem mns_final : S_mns_final := by
  intro b n e r hn hm h1 hr
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  have hQ : QM b (k : ℤ) 1 = Pm b (fun _ => 1) k 1 := by
    unfold QM
    rw [Int.toNat_natCast]
    apply Qn_Pm b k (fun i j hij hj => hm i j ⟨by omega, by omega, by omega⟩) k le_rfl 1 le_rfl
    intro i hi
    exact h1 i ⟨by omega, by omega⟩
  have hN : NCP b (fun _ => 1) (k : ℤ) = (k.factorial : ℝ) * QM b (k : ℤ) 1 := by unfold NCP; rw [hQ]; simp
  have hp : 0 < pow2 e := pow2_pos e
  have hnn : 0 ≤ QM b (k : ℤ) 1 := by rw [hQ]; exact Pm_nonneg _ _ _ _
  refine ⟨fun h => ?_, fun h => ?_⟩
  · have : QM b (k : ℤ) 1 = 0 := by
      rw [hr] at h
      by_contra hne
      have : 0 < QM b (k : ℤ) 1 := lt_of_le_of_ne hnn (Ne.symm hne)
      nlinarith [mul_pos hp this]
    rw [hN, this, mul_zero]
  · have hq : 0 < QM b (k : ℤ) 1 := by
      rw [hr] at h
      rcases hnn.lt_or_eq with h' | h'
      · exact h'
      · rw [← h', mul_zero] at h; exact absurd h (lt_irrefl _)
    rw [hN, Real.exp_sub, Real.exp_add, Real.exp_log h, hr]
    have hg : Real.exp (lgam (((k : ℤ) + 1 : ℤ) : ℝ)) = (k.factorial : ℝ) := by
      unfold lgam
      push_cast
      rw [Real.Gamma_nat_eq_factorial, abs_of_pos (by positivity), Real.exp_log (by positivity)]
    rw [hg]
    have he : Real.exp ((e : ℝ) * Real.log 2) = pow2 e := by
      unfold pow2
      rw [mul_comm, Real.exp_mul, Real.exp_log (by norm_num), Real.rpow_intCast]
    rw [he]
    field_simp

theorem pow2_zero : S_pow2_zero := by
  unfold S_pow2_zero pow2; simp
