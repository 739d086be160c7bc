-- requires: pois rw
/-- sorted points under t that respect the bounds -/
def Sset (b B : ℤ → ℝ) (n : ℕ) (t : ℝ) : Set (Fin n → ℝ) := {y | Monotone y ∧ ∀ i : Fin n, b i ≤ y i ∧ y i ≤ B i ∧ y i ≤ t}

theorem Sset_meas (b B : ℤ → ℝ) (n : ℕ) (t : ℝ) : MeasurableSet (Sset b B n t) := by
  have : Sset b B n t = (⋂ i : Fin n, ⋂ j : Fin n, {y | i ≤ j → y i ≤ y j}) ∩ ⋂ i : Fin n, ({y | b i ≤ y i} ∩ ({y | y i ≤ B i} ∩ {y | y i ≤ t})) := by
    ext y; simp [Sset, Monotone]
  rw [this]
  refine MeasurableSet.inter ?_ ?_
  · refine MeasurableSet.iInter fun i => MeasurableSet.iInter fun j => ?_
    by_cases h : i ≤ j
    · simpa [h] using measurableSet_le (measurable_pi_apply i) (measurable_pi_apply j)
    · simp [h]
  · refine MeasurableSet.iInter fun i => ?_
    exact (measurableSet_le measurable_const (measurable_pi_apply i)).inter
      ((measurableSet_le (measurable_pi_apply i) measurable_const).inter (measurableSet_le (measurable_pi_apply i) measurable_const))

theorem Sset_succ (b B : ℤ → ℝ) (n : ℕ) (t u : ℝ) (z : Fin n → ℝ) :
    (Fin.snoc z u : Fin (n + 1) → ℝ) ∈ Sset b B (n + 1) t ↔ u ∈ Set.Icc (b n) (min t (B n)) ∧ z ∈ Sset b B n u := by
  constructor
  · rintro ⟨hm, hb⟩
    have hl := hb (Fin.last n)
    simp only [Fin.snoc_last, Fin.val_last] at hl
    refine ⟨⟨by simpa using hl.1, le_min hl.2.2 (by simpa using hl.2.1)⟩, ?_, ?_⟩
    · intro i j hij
      have := hm (show i.castSucc ≤ j.castSucc from hij)
      simpa using this
    · intro i
      have h1 := hb i.castSucc
      have h2 := hm (Fin.le_last i.castSucc)
      simp only [Fin.snoc_castSucc, Fin.snoc_last, Fin.val_castSucc] at h1 h2
      exact ⟨h1.1, h1.2.1, h2⟩
  · rintro ⟨⟨h1, h2⟩, hm, hb⟩
    have h3 := le_min_iff.1 h2
    refine ⟨?_, ?_⟩
    · intro i j hij
      induction j using Fin.lastCases with
      | last =>
        induction i using Fin.lastCases with
        | last => exact le_rfl
        | cast i => simpa using (hb i).2.2
      | cast j =>
        induction i using Fin.lastCases with
        | last => exact absurd hij (by simp [Fin.le_def])
        | cast i => simpa using hm (by simpa using hij)
    · intro i
      induction i using Fin.lastCases with
      | last => simpa using ⟨h1, h3.2, h3.1⟩
      | cast i =>
        have := hb i
        have hu : z i ≤ t := this.2.2.trans h3.1
        simpa using ⟨this.1, this.2.1, hu⟩

theorem Sset_vol (b B : ℤ → ℝ) (n : ℕ) : ∀ t, volume (Sset b B n t) = ENNReal.ofReal (Pm b B n t) := by
  induction n with
  | zero =>
    intro t
    have : Sset b B 0 t = Set.univ := by
      ext y; simp [Sset, Monotone]
    rw [this, volume_pi, Measure.pi_of_empty]; simp [Pm]
  | succ n ih =>
    intro t
    let e := MeasurableEquiv.piFinSuccAbove (fun _ : Fin (n + 1) => ℝ) (Fin.last n)
    have he : MeasurePreserving e := volume_preserving_piFinSuccAbove (fun _ : Fin (n + 1) => ℝ) (Fin.last n)
    let T : Set (ℝ × (Fin n → ℝ)) := {p | p.1 ∈ Set.Icc (b n) (min t (B n)) ∧ p.2 ∈ Sset b B n p.1}
    have hT : e ⁻¹' T = Sset b B (n + 1) t := by
      ext y
      have hy : y = (Fin.snoc (fun i : Fin n => y i.castSucc) (y (Fin.last n)) : Fin (n + 1) → ℝ) := by
        funext i
        induction i using Fin.lastCases with
        | last => simp
        | cast i => simp
      conv_rhs => rw [hy]
      rw [Sset_succ]
      simp only [T, Set.mem_preimage, Set.mem_setOf_eq]
      have h1 : (e y).1 = y (Fin.last n) := rfl
      have h2 : (e y).2 = fun i : Fin n => y i.castSucc := by
        funext i
        show y ((Fin.last n).succAbove i) = _
        simp
      rw [h1, h2]
    have hTm : MeasurableSet T := by
      have h3 : T = e.symm ⁻¹' (Sset b B (n + 1) t) := by
        rw [← hT, ← Set.preimage_comp]; simp
      rw [h3]
      exact e.symm.measurable (Sset_meas b B (n + 1) t)
    rw [← hT, he.measure_preimage hTm.nullMeasurableSet]
    rw [Measure.volume_eq_prod, Measure.prod_apply hTm]
    have h4 : ∀ u, volume (Prod.mk u ⁻¹' T) = (Set.Icc (b n) (min t (B n))).indicator (fun u => ENNReal.ofReal (Pm b B n u)) u := by
      intro u
      by_cases hu : u ∈ Set.Icc (b n) (min t (B n))
      · rw [Set.indicator_of_mem hu, ← ih u]
        congr 1; ext z
        show (u ∈ _ ∧ z ∈ _) ↔ _
        simp [hu]
      · rw [Set.indicator_of_notMem hu]
        have : Prod.mk u ⁻¹' T = ∅ := by
          ext z; simp only [Set.mem_empty_iff_false, iff_false]
          intro h; exact hu h.1
        rw [this]; simp
    rw [lintegral_congr h4, lintegral_indicator measurableSet_Icc]
    rw [show Pm b B (n + 1) t = ∫ u in Set.Icc (b n) (min t (B n)), Pm b B n u from rfl]
    rw [ofReal_integral_eq_lintegral_ofReal]
    · exact ((Pm_mono b B n).monotoneOn _).integrableOn_isCompact isCompact_Icc
    · exact Filter.Eventually.of_forall fun u => Pm_nonneg b B n u

/-- the i-th smallest of x_0, …, x_(n-1) -/
def ostat {n : ℕ} (x : Fin n → ℝ) (i : Fin n) : ℝ := x (Tuple.sort x i)

/-- the probability, for n independent uniform points, that all order statistics are within the bounds -/
def S_order_statistics : Prop :=
  ∀ (b B : ℤ → ℝ) (n : ℕ), (∀ i : Fin n, 0 ≤ b i ∧ B i ≤ 1) →
    (Measure.pi fun _ : Fin n => volume.restrict (Set.Icc (0 : ℝ) 1)) {x | ∀ i : Fin n, b i ≤ ostat x i ∧ ostat x i ≤ B i} = ENNReal.ofReal (NCP b B n)

theorem null_eq {n : ℕ} (i j : Fin n) (h : i ≠ j) : volume {x : Fin n → ℝ | x i = x j} = 0 := by
  let s : Submodule ℝ (Fin n → ℝ) := LinearMap.ker ((LinearMap.proj i : (Fin n → ℝ) →ₗ[ℝ] ℝ) - LinearMap.proj j)
  have hs : ({x : Fin n → ℝ | x i = x j}) = (s : Set (Fin n → ℝ)) := by
    ext x; simp [s, sub_eq_zero]
  rw [hs]
  refine Measure.addHaar_submodule volume s ?_
  intro htop
  have : (Pi.single i 1 : Fin n → ℝ) ∈ s := by rw [htop]; trivial
  simp [s, h.symm, h] at this

theorem order_statistics : S_order_statistics := by
  intro b B n hb
  let E : Equiv.Perm (Fin n) → Set (Fin n → ℝ) := fun σ => {x | x ∘ σ ∈ Sset b B n 1}
  have hpre : ∀ σ : Equiv.Perm (Fin n), E σ = (MeasurableEquiv.piCongrLeft (fun _ : Fin n => ℝ) σ.symm) ⁻¹' Sset b B n 1 := by
    intro σ; ext x
    have : (MeasurableEquiv.piCongrLeft (fun _ : Fin n => ℝ) σ.symm) x = x ∘ σ := by
      funext i
      have := MeasurableEquiv.piCongrLeft_apply_apply (β := fun _ : Fin n => ℝ) σ.symm x (σ i)
      simpa using this
    simp [E, this]
  have hmp : ∀ σ : Equiv.Perm (Fin n), MeasurePreserving (MeasurableEquiv.piCongrLeft (fun _ : Fin n => ℝ) σ.symm) volume volume :=
    fun σ => volume_measurePreserving_piCongrLeft (fun _ : Fin n => ℝ) σ.symm
  have hEm : ∀ σ, MeasurableSet (E σ) := by
    intro σ; rw [hpre]; exact (MeasurableEquiv.measurable _) (Sset_meas b B n 1)
  have hEv : ∀ σ, volume (E σ) = ENNReal.ofReal (Pm b B n 1) := by
    intro σ
    rw [hpre, (hmp σ).measure_preimage (Sset_meas b B n 1).nullMeasurableSet, Sset_vol]
  have hset : {x : Fin n → ℝ | ∀ i : Fin n, b i ≤ ostat x i ∧ ostat x i ≤ B i} = ⋃ σ, E σ := by
    ext x
    simp only [Set.mem_setOf_eq, Set.mem_iUnion]
    constructor
    · intro h
      exact ⟨Tuple.sort x, Tuple.monotone_sort x, fun i => ⟨(h i).1, (h i).2, (h i).2.trans (hb i).2⟩⟩
    · rintro ⟨σ, hm, h⟩ i
      have : x ∘ Tuple.sort x = x ∘ σ := Tuple.comp_sort_eq_comp_iff_monotone.2 hm |>.symm ▸ rfl
      have hi : ostat x i = (x ∘ σ) i := by rw [← this]; rfl
      rw [hi]; exact ⟨(h i).1, (h i).2.1⟩
  have hsub : (⋃ σ, E σ) ⊆ Set.univ.pi (fun _ : Fin n => Set.Icc (0 : ℝ) 1) := by
    intro x hx
    obtain ⟨σ, hm, h⟩ := Set.mem_iUnion.1 hx
    intro i _
    have := h (σ.symm i)
    simp only [Function.comp, Equiv.apply_symm_apply] at this
    exact ⟨(hb _).1.trans this.1, this.2.2⟩
  rw [← Measure.restrict_pi_pi, Measure.restrict_apply' (MeasurableSet.univ_pi fun _ => measurableSet_Icc), hset, Set.inter_eq_left.2 hsub, ← volume_pi]
  have hdis : Pairwise (Function.onFun (AEDisjoint volume) E) := by
    intro σ τ hne
    have hnull : volume (⋃ i : Fin n, ⋃ j : Fin n, {x : Fin n → ℝ | i ≠ j ∧ x i = x j}) = 0 := by
      rw [measure_iUnion_null_iff]; intro i
      rw [measure_iUnion_null_iff]; intro j
      by_cases h : i = j
      · simp [h]
      · simpa [h] using null_eq i j h
    refine measure_mono_null ?_ hnull
    rintro x ⟨h1, h2⟩
    by_contra hx
    simp only [Set.mem_iUnion, Set.mem_setOf_eq, not_exists, not_and] at hx
    apply hne
    have e1 := Tuple.comp_sort_eq_comp_iff_monotone.2 h1.1
    have e2 := Tuple.comp_sort_eq_comp_iff_monotone.2 h2.1
    have e3 : x ∘ σ = x ∘ τ := e1.trans e2.symm
    ext i
    have : x (σ i) = x (τ i) := congrFun e3 i
    by_contra hc
    exact hx (σ i) (τ i) (fun hh => hc (by rw [hh])) this
  rw [measure_iUnion₀ hdis fun σ => (hEm σ).nullMeasurableSet, tsum_fintype]
  simp only [hEv, Finset.sum_const, Finset.card_univ, Fintype.card_perm, Fintype.card_fin, nsmul_eq_mul]
  rw [NCP, ENNReal.ofReal_mul (by positivity), Int.toNat_natCast, ENNReal.ofReal_natCast]

