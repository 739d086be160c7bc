theorem w_cos_sin (n k t : ℕ) : Complex.exp (-(2 * Real.pi * (k * t) / n * Complex.I)) =
    ((Real.cos (2 * Real.pi * k * t / n) : ℝ) : ℂ) - ((Real.sin (2 * Real.pi * k * t / n) : ℝ) : ℂ) * Complex.I := by
  rw [← neg_mul, Complex.exp_mul_I]
  rw [Complex.cos_neg, Complex.sin_neg]
  push_cast
  have : (2 * (Real.pi : ℂ) * (k * t) / n) = 2 * Real.pi * k * t / n := by ring
  rw [this]; ring
theorem w_cos_sin' (n k t : ℕ) : Complex.exp ((2 * Real.pi * (k * t) / n * Complex.I)) =
    ((Real.cos (2 * Real.pi * k * t / n) : ℝ) : ℂ) + ((Real.sin (2 * Real.pi * k * t / n) : ℝ) : ℂ) * Complex.I := by
  rw [Complex.exp_mul_I]
  push_cast
  have : (2 * (Real.pi : ℂ) * (k * t) / n) = 2 * Real.pi * k * t / n := by ring
  rw [this]

/-- complex transform of a real sequence -/
def cF (A : ℤ → ℝ) (n k : ℕ) : ℂ := ∑ t ∈ Finset.range n, (A t : ℂ) * Complex.exp (-(2 * Real.pi * (k * t) / n * Complex.I))

theorem cF_eq (A : ℤ → ℝ) (n k : ℕ) : cF A n k = ((dftRe A n k : ℝ) : ℂ) + ((dftIm A n k : ℝ) : ℂ) * Complex.I := by
  unfold cF dftRe dftIm
  simp only [Int.toNat_natCast, w_cos_sin, Int.cast_natCast]
  push_cast
  rw [neg_mul, Finset.sum_mul, ← sub_eq_add_neg, ← Finset.sum_sub_distrib]
  apply Finset.sum_congr rfl
  intro t _; ring

theorem cF_symm (A : ℤ → ℝ) (n k : ℕ) (hn : 0 < n) (hk : k ≤ n) : cF A n (n - k) = (starRingEnd ℂ) (cF A n k) := by
  unfold cF
  rw [map_sum]
  apply Finset.sum_congr rfl
  intro t _
  rw [map_mul, Complex.conj_ofReal, ← Complex.exp_conj]
  congr 1
  have h0 : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  have e1 : (-(2 * (Real.pi : ℂ) * (((n - k : ℕ) : ℂ) * t) / n * Complex.I)) = (2 * Real.pi * (k * t) / n * Complex.I) + ((-(t : ℤ) : ℤ) : ℂ) * (2 * Real.pi * Complex.I) := by
    rw [Nat.cast_sub hk]; push_cast; field_simp; ring
  rw [e1, Complex.exp_add, Complex.exp_int_mul_two_pi_mul_I, mul_one]
  congr 1
  simp only [map_neg, map_mul, map_div₀, Complex.conj_I, Complex.conj_ofReal, map_natCast, Complex.conj_ofNat]
  ring

theorem geom (n : ℕ) (hn : 0 < n) (d : ℤ) : (∑ k ∈ Finset.range n, Complex.exp (2 * Real.pi * (k * d) / n * Complex.I)) = if (n : ℤ) ∣ d then (n : ℂ) else 0 := by
  have h0 : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  have e : ∀ k : ℕ, Complex.exp (2 * Real.pi * (k * d) / n * Complex.I) = (Complex.exp (2 * Real.pi * d / n * Complex.I)) ^ k := by
    intro k; rw [← Complex.exp_nat_mul]; congr 1; ring
  simp only [e]
  split_ifs with h
  · obtain ⟨c, rfl⟩ := h
    have : Complex.exp (2 * Real.pi * ((n * c : ℤ) : ℂ) / n * Complex.I) = 1 := by
      rw [← Complex.exp_int_mul_two_pi_mul_I c]; congr 1; push_cast; field_simp
    rw [this]; simp
  · have h1 : Complex.exp (2 * Real.pi * d / n * Complex.I) ≠ 1 := by
      intro h2
      rw [Complex.exp_eq_one_iff] at h2
      obtain ⟨c, hc⟩ := h2
      apply h
      refine ⟨c, ?_⟩
      have hpi : (2 * (Real.pi : ℂ) * Complex.I) ≠ 0 := Complex.two_pi_I_ne_zero
      have : ((d : ℂ) / n) * (2 * (Real.pi : ℂ) * Complex.I) = c * (2 * Real.pi * Complex.I) := by rw [← hc]; ring
      have := mul_right_cancel₀ hpi this
      rw [div_eq_iff h0] at this
      have : (d : ℂ) = ((c * n : ℤ) : ℂ) := by push_cast; exact this
      have := Int.cast_injective this
      rw [this]; ring
    have h2 := mul_neg_geom_sum (Complex.exp (2 * Real.pi * d / n * Complex.I)) n
    have h3 : (Complex.exp (2 * Real.pi * d / n * Complex.I)) ^ n = 1 := by
      rw [← Complex.exp_nat_mul, ← Complex.exp_int_mul_two_pi_mul_I d]; congr 1; field_simp
    rw [h3, sub_self] at h2
    exact (mul_eq_zero.mp h2).resolve_left (sub_ne_zero.mpr (Ne.symm h1))

theorem Complex.re_mul_ofReal_I' (r : ℝ) : ((r : ℂ) * Complex.I).im = r := by simp

theorem conv_core (A B : ℤ → ℝ) (n m : ℕ) (hn : 0 < n) :
    (∑ k ∈ Finset.range n, cF A n k * cF B n k / n * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I)) =
    ((∑ t ∈ Finset.range n, ∑ u ∈ Finset.range n, A t * B u * (if (n : ℤ) ∣ ((m : ℤ) - t - u) then 1 else 0) : ℝ) : ℂ) := by
  have h0 : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  have e : ∀ k ∈ Finset.range n, cF A n k * cF B n k / n * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I) =
      ∑ t ∈ Finset.range n, ∑ u ∈ Finset.range n, (A t : ℂ) * B u / n * Complex.exp (2 * Real.pi * (k * (((m : ℤ) - t - u : ℤ) : ℂ)) / n * Complex.I) := by
    intro k _
    unfold cF
    rw [Finset.sum_mul_sum, Finset.sum_div, Finset.sum_mul]
    apply Finset.sum_congr rfl; intro t _
    rw [Finset.sum_div, Finset.sum_mul]
    apply Finset.sum_congr rfl; intro u _
    have : Complex.exp (2 * Real.pi * (k * (((m : ℤ) - t - u : ℤ) : ℂ)) / n * Complex.I) =
       Complex.exp (-(2 * Real.pi * (k * t) / n * Complex.I)) * Complex.exp (-(2 * Real.pi * (k * u) / n * Complex.I)) * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I) := by
      rw [← Complex.exp_add, ← Complex.exp_add]; congr 1; push_cast; ring
    rw [this]; ring
  rw [Finset.sum_congr rfl e, Finset.sum_comm]
  push_cast
  apply Finset.sum_congr rfl; intro t _
  rw [Finset.sum_comm]
  apply Finset.sum_congr rfl; intro u _
  rw [← Finset.mul_sum]
  have g := geom n hn ((m : ℤ) - t - u)
  push_cast at g
  rw [g]
  split_ifs
  · field_simp; simp
  · simp

theorem fft : S_fft := by
  intro A B XR XI nn size m hsz hnn hm0 hms hX hA hB
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ nn by omega)
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hm0
  have hn : 0 < n := by omega
  have h0 : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  -- the Hermitian extension is the product of the complex transforms
  have hC : ∀ k : ℕ, 2 * k ≤ n → ((XR k : ℝ) : ℂ) + ((XI k : ℝ) : ℂ) * Complex.I = cF A n k * cF B n k / n := by
    intro k hk
    have h := hX k ⟨by omega, by omega⟩
    rw [h.1, h.2, cF_eq, cF_eq]
    push_cast
    have i2 := Complex.I_mul_I
    field_simp
    ring_nf
    simp only [Complex.I_sq]
    ring
  have hH : ∀ k ∈ Finset.range n, ((hR XR n k : ℝ) : ℂ) + ((hI XI n k : ℝ) : ℂ) * Complex.I = cF A n k * cF B n k / n := by
    intro k hk
    have hk' := Finset.mem_range.mp hk
    unfold hR hI
    have conjP : (starRingEnd ℂ) (cF A n k * cF B n k / n) = cF A n (n - k) * cF B n (n - k) / n := by
      rw [map_div₀, map_mul, cF_symm A n k hn hk'.le, cF_symm B n k hn hk'.le, map_natCast]
    by_cases c1 : 2 * (k : ℤ) ≤ n
    · rw [if_pos c1]
      have e := hC k (by omega)
      by_cases c2 : (k : ℤ) = 0 ∨ 2 * (k : ℤ) = n
      · rw [if_pos c2]
        rw [← e] at conjP ⊢
        have : XI k = 0 := by
          have hs : cF A n (n - k) * cF B n (n - k) / n = cF A n k * cF B n k / n := by
            rcases c2 with c2 | c2
            · have : k = 0 := by omega
              subst this
              have hz : ∀ A, cF A n n = cF A n 0 := by
                intro A; have := cF_symm A n 0 hn (Nat.zero_le _)
                rw [Nat.sub_zero] at this; rw [this]
                unfold cF; simp
              simp [hz]
            · have : n - k = k := by omega
              rw [this]
          rw [hs, ← e] at conjP
          have := congrArg Complex.im conjP
          simp at this
          linarith
        rw [this]
      · rw [if_neg c2, if_pos (show 2 * (k : ℤ) < n by omega)]; exact e
    · rw [if_neg c1]
      rw [if_neg (by omega), if_neg (by omega)]
      have e := hC (n - k) (by omega)
      have ek : (((n - k : ℕ)) : ℤ) = (n : ℤ) - k := by omega
      rw [ek] at e
      have cc := congrArg (starRingEnd ℂ) (e.trans conjP.symm)
      rw [Complex.conj_conj] at cc
      rw [← cc]
      simp
  -- inverse transform
  have hI : ((idft XR XI n m : ℝ) : ℂ) = ∑ k ∈ Finset.range n, cF A n k * cF B n k / n * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I) := by
    have hre : ∀ z : ℂ, z.im = 0 → ∀ r : ℝ, r = z.re → (r : ℂ) = z := by
      intro z hz r hr; apply Complex.ext <;> simp [hr, hz]
    have e1 : ∀ k ∈ Finset.range n, cF A n k * cF B n k / n * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I) =
        (((hR XR n k * Real.cos (2 * Real.pi * k * m / n) - hI XI n k * Real.sin (2 * Real.pi * k * m / n) : ℝ)) : ℂ) +
        (((hR XR n k * Real.sin (2 * Real.pi * k * m / n) + hI XI n k * Real.cos (2 * Real.pi * k * m / n) : ℝ)) : ℂ) * Complex.I := by
      intro k hk
      rw [← hH k hk, w_cos_sin']
      push_cast
      ring_nf
      simp only [Complex.I_sq]
      ring
    rw [Finset.sum_congr rfl e1, Finset.sum_add_distrib, ← Finset.sum_mul]
    -- the imaginary part cancels: it is the sum computed below, which is real
    have hreal : (∑ k ∈ Finset.range n, cF A n k * cF B n k / n * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I)).im = 0 := by
      have hsum : (∑ k ∈ Finset.range n, cF A n k * cF B n k / n * Complex.exp (2 * Real.pi * (k * m) / n * Complex.I)) =
         ((∑ t ∈ Finset.range n, ∑ u ∈ Finset.range n, A t * B u * (if (n : ℤ) ∣ ((m : ℤ) - t - u) then 1 else 0) : ℝ) : ℂ) := by
        rw [conv_core A B n m hn]
      rw [hsum]; exact Complex.ofReal_im _
    rw [Finset.sum_congr rfl e1, Finset.sum_add_distrib, ← Finset.sum_mul] at hreal
    have him : (∑ k ∈ Finset.range n, (hR XR n k * Real.sin (2 * Real.pi * k * m / n) + hI XI n k * Real.cos (2 * Real.pi * k * m / n))) = 0 := by
      have := hreal
      rw [← Complex.ofReal_sum, ← Complex.ofReal_sum, Complex.add_im, Complex.ofReal_im, zero_add, Complex.re_mul_ofReal_I'] at this
      exact this
    rw [← Complex.ofReal_sum, ← Complex.ofReal_sum, him]
    unfold idft
    simp
  rw [conv_core A B n m hn] at hI
  have hI' := Complex.ofReal_injective hI
  rw [hI']
  have em : (((m : ℤ) + 1)).toNat = m + 1 := by omega
  rw [em]
  -- only t + u = m survives
  have hsub : Finset.range (m + 1) ⊆ Finset.range n := by
    intro t ht; have := Finset.mem_range.mp ht; exact Finset.mem_range.mpr (by omega)
  rw [← Finset.sum_subset hsub]
  · apply Finset.sum_congr rfl
    intro t ht
    have ht' := Finset.mem_range.mp ht
    rw [Finset.sum_eq_single (m - t)]
    · have : (n : ℤ) ∣ ((m : ℤ) - t - ((m - t : ℕ) : ℤ)) := by
        have : ((m : ℤ) - t - ((m - t : ℕ) : ℤ)) = 0 := by omega
        rw [this]; exact dvd_zero _
      rw [if_pos this, mul_one]
      congr 2; push_cast [Nat.cast_sub (show t ≤ m by omega)]; ring
    · intro u hu hne
      have hu' := Finset.mem_range.mp hu
      by_cases hus : size ≤ (u : ℤ)
      · rw [hB u ⟨hus, by omega⟩]; simp
      · rw [if_neg, mul_zero]
        intro hd
        have h1 := Int.eq_zero_of_abs_lt_dvd hd (by rw [abs_lt]; constructor <;> omega)
        omega
    · intro h; exact absurd (Finset.mem_range.mpr (by omega)) h
  · intro t ht hnt
    have ht' := Finset.mem_range.mp ht
    have hnt' : ¬ t < m + 1 := fun h => hnt (Finset.mem_range.mpr h)
    apply Finset.sum_eq_zero
    intro u hu
    have hu' := Finset.mem_range.mp hu
    by_cases hts : size ≤ (t : ℤ)
    · rw [hA t ⟨hts, by omega⟩]; simp
    · by_cases hus : size ≤ (u : ℤ)
      · rw [hB u ⟨hus, by omega⟩]; simp
      · rw [if_neg, mul_zero]
        intro hd
        have h1 := Int.eq_zero_of_abs_lt_dvd hd (by rw [abs_lt]; constructor <;> omega)
        omega

theorem hR_smul (c : ℝ) (X : ℤ → ℝ) (n k : ℤ) : hR (fun i => c * X i) n k = c * hR X n k := by
  unfold hR; split_ifs <;> rfl
theorem hI_smul (c : ℝ) (X : ℤ → ℝ) (n k : ℤ) : hI (fun i => c * X i) n k = c * hI X n k := by
  unfold hI; split_ifs <;> ring
theorem idft_smul (c : ℝ) (XR XI : ℤ → ℝ) (n m : ℤ) : idft (fun i => c * XR i) (fun i => c * XI i) n m = c * idft XR XI n m := by
  unfold idft
  rw [Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro k _
  rw [hR_smul, hI_smul]; ring

theorem fft1 : S_fft1 := by
  intro A B XR XI nn size m hsz hnn hm0 hms hX hA hB
  have hn : (nn : ℝ) ≠ 0 := by
    have : nn ≠ 0 := by omega
    exact_mod_cast this
  have h := fft A B (fun i => (1 / (nn : ℝ)) * XR i) (fun i => (1 / (nn : ℝ)) * XI i) nn size m hsz hnn hm0 hms
    (by
      intro k hk
      obtain ⟨h1, h2⟩ := hX k hk
      constructor
      · simp only [h1]; ring
      · simp only [h2]; ring) hA hB
  rw [idft_smul] at h
  constructor
  · rw [← h]; ring
  · rw [← h]
