-- requires: rw
/-- Chapman–Kolmogorov for the Poisson probabilities, and associativity of convolution, via power series -/
theorem pois_mk (x : ℝ) : (PowerSeries.mk fun k => pois x (k : ℤ)) = PowerSeries.C (R := ℝ) (Real.exp (-x)) * PowerSeries.rescale x (PowerSeries.exp ℝ) := by
  ext k
  simp only [PowerSeries.coeff_mk, PowerSeries.coeff_C_mul, PowerSeries.coeff_rescale, PowerSeries.coeff_exp, pois, Int.toNat_natCast]
  simp
  ring

theorem pois_mul (x y : ℝ) : (PowerSeries.mk fun k => pois x (k : ℤ)) * (PowerSeries.mk fun k => pois y (k : ℤ)) = PowerSeries.mk fun k => pois (x + y) (k : ℤ) := by
  rw [pois_mk, pois_mk, pois_mk]
  rw [mul_mul_mul_comm, PowerSeries.exp_mul_exp_eq_exp_add, ← map_mul, ← Real.exp_add]
  congr 3; ring

theorem DW_coeff (b B : ℤ → ℝ) (lam : ℝ) (a : ℤ) (t s : ℝ) (N : ℕ) :
    DW b B lam a t s (a + N) = PowerSeries.coeff N ((PowerSeries.mk fun u : ℕ => RW b B lam t (a + u)) * (PowerSeries.mk fun k : ℕ => pois (lam * (s - t)) (k : ℤ))) := by
  rw [PowerSeries.coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk]
  unfold DW
  rw [show (a + (N : ℤ) - a + 1).toNat = N + 1 by omega]
  apply Finset.sum_congr rfl
  intro u hu
  have : u ≤ N := by have := Finset.mem_range.mp hu; omega
  simp only [PowerSeries.coeff_mk]
  congr 2
  push_cast [this]; ring

theorem dw_start : S_dw_start := by
  intro b B lam a t s j ha haj
  obtain ⟨N, rfl⟩ := Int.le.dest haj
  unfold DW
  rw [show (a + (N : ℤ) - a + 1).toNat = N + 1 by omega, ← Finset.sum_range_reflect]
  apply Finset.sum_congr rfl
  intro u hu
  have hu' : u ≤ N := by have := Finset.mem_range.mp hu; omega
  have e1 : ((N + 1 - 1 - u : ℕ) : ℤ) = N - u := by push_cast [hu']; omega
  rw [e1, mul_comm]
  congr 2 <;> ring_nf

theorem dw_final : S_dw_final := by
  intro b B lam n a t s j ha haj hjn hts hBa hBs hb hl
  rw [← dw_start b B lam a t s j ha haj]
  exact rw_step b B lam n t s a j ha haj hjn hts hl hBa hBs hb

theorem dw_step : S_dw_step := by
  intro b B lam n a t u s j ha haj hjn htu hBa hBu hb hl hus
  obtain ⟨N, rfl⟩ := Int.le.dest haj
  have hF : ∀ l : ℕ, l ≤ N → RW b B lam u (a + l) = PowerSeries.coeff l ((PowerSeries.mk fun v : ℕ => RW b B lam t (a + v)) * (PowerSeries.mk fun k : ℕ => pois (lam * (u - t)) (k : ℤ))) := by
    intro l hlN
    rw [← DW_coeff]
    exact (dw_final b B lam n a t u (a + l) ha (by omega) (by omega) htu hBa hBu (fun i hi => hb i ⟨hi.1, by omega⟩) hl).symm
  have key : DW b B lam a u s (a + N) = DW b B lam a t s (a + N) := by
    have e0 : lam * (s - t) = lam * (u - t) + lam * (s - u) := by ring
    rw [DW_coeff b B lam a t s, e0, ← pois_mul, ← mul_assoc, DW_coeff b B lam a u s, PowerSeries.coeff_mul, PowerSeries.coeff_mul]
    apply Finset.sum_congr rfl
    intro p hp
    have : p.1 ≤ N := by have := (Finset.HasAntidiagonal.mem_antidiagonal.mp hp); omega
    congr 1
    rw [PowerSeries.coeff_mk]
    exact hF p.1 this
  have split : DW b B lam a u s (a + N) = RW b B lam u a * pois (lam * (s - u)) N + DW b B lam (a + 1) u s (a + N) := by
    unfold DW
    rw [show (a + (N : ℤ) - a + 1).toNat = N + 1 by omega, show (a + (N : ℤ) - (a + 1) + 1).toNat = N by omega, Finset.sum_range_succ']
    rw [add_comm]
    congr 1
    · simp
    · apply Finset.sum_congr rfl
      intro v _
      push_cast
      congr 2 <;> ring
  have := split.symm.trans key
  have e : lam * (s + (-1) * u) = lam * (s - u) := by ring
  have e2 : (a + (N:ℤ) - a) = N := by ring
  simp only [e, e2] at *
  ring_nf at this ⊢
  linarith

theorem ncp_zero : S_ncp_zero := by
  intro b B; simp [NCP, Pm]
