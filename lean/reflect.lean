-- requires: rw
open scoped ENNReal

/-- indicator of b_k ≤ u ≤ B_k -/
def wI (b B : ℤ → ℝ) (k : ℕ) (u : ℝ) : ℝ≥0∞ := Set.indicator (Set.Icc (b k) (B k)) (fun _ => 1) u
/-- the volumes as nonnegative extended reals -/
def Pl (b B : ℤ → ℝ) : ℕ → ℝ → ℝ≥0∞
  | 0, _ => 1
  | (k + 1), x => ∫⁻ u, wI b B k u * (Set.indicator (Set.Iic x) (fun _ => 1) u * Pl b B k u)

theorem Pl_eq (b B : ℤ → ℝ) (k : ℕ) : ∀ x, Pl b B k x = ENNReal.ofReal (Pm b B k x) := by
  induction k with
  | zero => intro x; simp [Pl, Pm]
  | succ k ih =>
    intro x
    simp only [Pl, Pm]
    rw [ofReal_integral_eq_lintegral_ofReal]
    · rw [← lintegral_indicator measurableSet_Icc]
      congr 1
      ext u
      rw [ih u]
      unfold wI
      by_cases h1 : b k ≤ u <;> by_cases h2 : u ≤ B k <;> by_cases h3 : u ≤ x <;> simp [Set.indicator, h1, h2, h3]
    · exact ((Pm_mono b B k).monotoneOn _).integrableOn_isCompact isCompact_Icc
    · exact Filter.Eventually.of_forall (fun u => Pm_nonneg b B k u)

theorem Pl_meas (b B : ℤ → ℝ) (k : ℕ) : Measurable (Pl b B k) := by
  have : Pl b B k = fun x => ENNReal.ofReal (Pm b B k x) := by ext x; exact Pl_eq b B k x
  rw [this]
  exact ENNReal.measurable_ofReal.comp (Pm_mono b B k).measurable

theorem wI_meas (b B : ℤ → ℝ) (k : ℕ) : Measurable (wI b B k) := by
  unfold wI; exact measurable_const.indicator measurableSet_Icc

/-- from the other end: volume of x ≤ x_{n-j+1} ≤ … ≤ x_n ≤ 1 -/
def Gl (b B : ℤ → ℝ) (n : ℕ) : ℕ → ℝ → ℝ≥0∞
  | 0, x => Set.indicator (Set.Iic 1) (fun _ => 1) x
  | (j + 1), x => ∫⁻ v, wI b B (n - 1 - j) v * (Set.indicator (Set.Iic v) (fun _ => 1) x * Gl b B n j v)

theorem pair_meas : MeasurableSet {p : ℝ × ℝ | p.1 ≤ p.2} := measurableSet_le measurable_fst measurable_snd

theorem Gl_meas (b B : ℤ → ℝ) (n j : ℕ) : Measurable (Gl b B n j) := by
  induction j with
  | zero =>
    have h0 : Gl b B n 0 = fun x => Set.indicator (Set.Iic 1) (fun _ => 1) x := by ext x; simp [Gl]
    rw [h0]; exact measurable_const.indicator measurableSet_Iic
  | succ j ih =>
    have h1 : Gl b B n (j + 1) = fun x => ∫⁻ v, wI b B (n - 1 - j) v * (Set.indicator (Set.Iic v) (fun _ => 1) x * Gl b B n j v) := by ext x; simp [Gl]
    rw [h1]
    apply Measurable.lintegral_prod_right'  (f := fun p : ℝ × ℝ => wI b B (n - 1 - j) p.2 * (Set.indicator (Set.Iic p.2) (fun _ => 1) p.1 * Gl b B n j p.2))
    apply Measurable.mul ((wI_meas b B _).comp measurable_snd)
    apply Measurable.mul _ (ih.comp measurable_snd)
    have : (fun p : ℝ × ℝ => Set.indicator (Set.Iic p.2) (fun _ => (1 : ℝ≥0∞)) p.1) = Set.indicator {p : ℝ × ℝ | p.1 ≤ p.2} (fun _ => 1) := by
      ext p; simp [Set.indicator]
    rw [this]
    exact measurable_const.indicator pair_meas

theorem split_at (b B : ℤ → ℝ) (n j : ℕ) (hj : j < n) :
    Pl b B n 1 = ∫⁻ u, wI b B (n - 1 - j) u * (Gl b B n j u * Pl b B (n - 1 - j) u) := by
  induction j with
  | zero =>
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    simp [Pl, Gl]
  | succ j ih =>
    rw [ih (by omega)]
    have e : n - 1 - j = (n - 1 - (j + 1)) + 1 := by omega
    set m := n - 1 - (j + 1) with hm
    rw [e]
    simp only [Pl, Gl]
    have hG := Gl_meas b B n j
    have hP := Pl_meas b B m
    rw [show n - 1 - j = m + 1 from e]
    calc ∫⁻ v, wI b B (m + 1) v * (Gl b B n j v * ∫⁻ u, wI b B m u * (Set.indicator (Set.Iic v) (fun _ => 1) u * Pl b B m u))
        = ∫⁻ v, ∫⁻ u, wI b B (m + 1) v * (Gl b B n j v * (wI b B m u * (Set.indicator (Set.Iic v) (fun _ => 1) u * Pl b B m u))) := by
          congr 1; ext v
          rw [← lintegral_const_mul, ← lintegral_const_mul]
          · apply Measurable.const_mul
            exact (wI_meas b B m).mul ((measurable_const.indicator measurableSet_Iic).mul hP)
          · exact (wI_meas b B m).mul ((measurable_const.indicator measurableSet_Iic).mul hP)
      _ = ∫⁻ u, ∫⁻ v, wI b B (m + 1) v * (Gl b B n j v * (wI b B m u * (Set.indicator (Set.Iic v) (fun _ => 1) u * Pl b B m u))) := by
          apply lintegral_lintegral_swap
          apply Measurable.aemeasurable
          apply Measurable.mul ((wI_meas b B _).comp measurable_fst)
          apply Measurable.mul (hG.comp measurable_fst)
          apply Measurable.mul ((wI_meas b B _).comp measurable_snd)
          apply Measurable.mul _ (hP.comp measurable_snd)
          have : (fun p : ℝ × ℝ => Set.indicator (Set.Iic p.1) (fun _ => (1 : ℝ≥0∞)) p.2) = Set.indicator {p : ℝ × ℝ | p.2 ≤ p.1} (fun _ => 1) := by
            ext p; simp [Set.indicator]
          rw [this]
          exact measurable_const.indicator (measurableSet_le measurable_snd measurable_fst)
      _ = _ := by
          congr 1; ext u
          rw [← lintegral_mul_const]
          · rw [← lintegral_const_mul]
            · congr 1; ext v; ring
            · apply Measurable.mul_const
              apply Measurable.mul (wI_meas b B _)
              apply Measurable.mul _ hG
              have : (fun v : ℝ => Set.indicator (Set.Iic v) (fun _ => (1 : ℝ≥0∞)) u) = Set.indicator (Set.Ici u) (fun _ => 1) := by
                ext p; simp [Set.indicator]
              rw [this]
              exact measurable_const.indicator measurableSet_Ici
          · apply Measurable.mul (wI_meas b B _)
            apply Measurable.mul _ hG
            have : (fun v : ℝ => Set.indicator (Set.Iic v) (fun _ => (1 : ℝ≥0∞)) u) = Set.indicator (Set.Ici u) (fun _ => 1) := by
              ext p; simp [Set.indicator]
            rw [this]
            exact measurable_const.indicator measurableSet_Ici

theorem wI_mirror (b B c C : ℤ → ℝ) (n k : ℕ) (h : c k = 1 - B (n - 1 - k : ℕ) ∧ C k = 1 - b (n - 1 - k : ℕ)) (u : ℝ) :
    wI b B (n - 1 - k) (1 - u) = wI c C k u := by
  unfold wI
  rw [h.1, h.2]
  by_cases h1 : b (n - 1 - k : ℕ) ≤ 1 - u <;> by_cases h2 : 1 - u ≤ B (n - 1 - k : ℕ) <;>
    simp only [Set.indicator, Set.mem_Icc] <;> congr 1 <;> simp only [eq_iff_iff] <;> constructor <;> rintro ⟨_, _⟩ <;> constructor <;> linarith

theorem Gl_mirror (b B c C : ℤ → ℝ) (n : ℕ) (h : ∀ k : ℕ, k < n → c k = 1 - B (n - 1 - k : ℕ) ∧ C k = 1 - b (n - 1 - k : ℕ) ∧ 0 ≤ b k ∧ B k ≤ 1) (j : ℕ) (hj : j < n) :
    ∀ x, x ≤ 1 → Gl b B n j x = Pl c C j (1 - x) := by
  induction j with
  | zero => intro x hx; simp [Gl, Pl, Set.indicator, hx]
  | succ j ih =>
    intro x hx
    simp only [Gl, Pl]
    rw [← lintegral_sub_left_eq_self _ (1 : ℝ)]
    congr 1; ext u
    rw [wI_mirror b B c C n j ⟨(h j (by omega)).1, (h j (by omega)).2.1⟩ u]
    by_cases hw : wI c C j u = 0
    · simp [hw]
    · have hu : 0 ≤ u := by
        by_contra hneg
        apply hw
        unfold wI
        rw [(h j (by omega)).1]
        apply Set.indicator_of_notMem
        intro hm
        have := (h (n - 1 - j) (by omega)).2.2.2
        have := hm.1
        linarith
      rw [ih (by omega) (1 - u) (by linarith)]
      congr 2
      · by_cases hxu : x ≤ 1 - u
        · simp [Set.indicator, hxu]; linarith
        · simp [Set.indicator, hxu]; linarith
      · congr 1; ring

theorem Pl_mirror (b B c C : ℤ → ℝ) (n : ℕ) (h : ∀ k : ℕ, k < n → c k = 1 - B (n - 1 - k : ℕ) ∧ C k = 1 - b (n - 1 - k : ℕ) ∧ 0 ≤ b k ∧ B k ≤ 1) :
    Pl b B n 1 = Pl c C n 1 := by
  rcases Nat.eq_zero_or_pos n with h0 | h0
  · subst h0; simp [Pl]
  · rw [split_at b B n (n - 1) (by omega)]
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    simp only [show m + 1 - 1 - (m + 1 - 1) = 0 by omega, Pl, mul_one]
    rw [← lintegral_sub_left_eq_self _ (1 : ℝ)]
    congr 1; ext u
    have hm := wI_mirror b B c C (m + 1) m ⟨(h m (by omega)).1, (h m (by omega)).2.1⟩ u
    rw [show m + 1 - 1 - m = 0 by omega] at hm
    rw [hm]
    by_cases hw : wI c C m u = 0
    · simp [hw]
    · have hu : u ∈ Set.Icc (c m) (C m) := by
        by_contra hneg
        exact hw (Set.indicator_of_notMem hneg _)
      have h1 := (h m (by omega))
      rw [show m + 1 - 1 - m = 0 by omega] at h1
      have h2 := (h 0 (by omega))
      have hu0 : 0 ≤ u := by have := hu.1; rw [h1.1] at this; have := h2.2.2.2; push_cast at *; linarith
      have hu1 : u ≤ 1 := by have := hu.2; rw [h1.2.1] at this; have := h2.2.2.1; push_cast at *; linarith
      rw [show m + 1 - 1 = m by omega, Gl_mirror b B c C (m + 1) h m (by omega) (1 - u) (by linarith)]
      simp [Set.indicator, hu1]

theorem reflect : S_reflect := by
  intro b B c C n h
  unfold NCP
  congr 1
  rcases le_or_gt n 0 with hn | hn
  · have : n.toNat = 0 := by omega
    rw [this]; simp [Pm]
  · obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hn.le
    simp only [Int.toNat_natCast]
    have := Pl_mirror b B c C m (fun k hk => by
      have hh := h k ⟨by omega, by omega⟩
      have e : ((m : ℤ) - 1 - (k : ℤ)) = ((m - 1 - k : ℕ) : ℤ) := by omega
      rw [e] at hh
      exact ⟨hh.1, hh.2.1, hh.2.2.1, hh.2.2.2⟩)
    rw [Pl_eq, Pl_eq] at this
    exact (ENNReal.ofReal_eq_ofReal_iff (Pm_nonneg _ _ _ _) (Pm_nonneg _ _ _ _)).mp this
