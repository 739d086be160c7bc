/-- counts of indices below m placed among the first k positions -/
theorem merge_count (n : ℤ) (hn : 0 ≤ n) (p q : ℤ → ℤ)
    (hp : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ p k ∧ p k < 2 * n ∧ q (p k) = k)
    (hq : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ q k ∧ q k < 2 * n ∧ p (q k) = k) : True := trivial

def mS (p : ℤ → ℤ) (lo hi k : ℤ) : Finset ℤ := (Finset.Ico 0 k).filter (fun j => lo ≤ p j ∧ p j < hi)
def mC (p : ℤ → ℤ) (lo hi k : ℤ) : ℤ := ((mS p lo hi k).card : ℤ)

theorem mS_succ (p : ℤ → ℤ) (lo hi k : ℤ) (hk : 0 ≤ k) :
    mC p lo hi (k + 1) = mC p lo hi k + if lo ≤ p k ∧ p k < hi then 1 else 0 := by
  unfold mC mS
  have : Finset.Ico (0:ℤ) (k + 1) = insert k (Finset.Ico 0 k) := by
    ext x; simp; omega
  rw [this, Finset.filter_insert]
  split_ifs with h
  · rw [Finset.card_insert_of_notMem (by simp)]; push_cast; ring
  · simp

theorem mS_img (n : ℤ) (p q : ℤ → ℤ) (lo hi k : ℤ) (hk0 : 0 ≤ k) (hk : k ≤ 2 * n) (hlo : 0 ≤ lo) (hhi : hi ≤ 2 * n)
    (hp : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ p k ∧ p k < 2 * n ∧ q (p k) = k)
    (hq : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ q k ∧ q k < 2 * n ∧ p (q k) = k) :
    mC p lo hi k = (((Finset.Ico lo hi).filter (fun j => q j < k)).card : ℤ) := by
  unfold mC mS
  congr 1
  apply Finset.card_bij' (fun j _ => p j) (fun j _ => q j)
  · intro j hj
    simp only [Finset.mem_filter, Finset.mem_Ico] at hj ⊢
    have := hp j ⟨hj.1.1, by omega⟩
    refine ⟨hj.2, ?_⟩; rw [this.2.2]; exact hj.1.2
  · intro j hj
    simp only [Finset.mem_filter, Finset.mem_Ico] at hj ⊢
    have := hq j ⟨by omega, by omega⟩
    rw [this.2.2]; omega
  · intro j hj
    simp only [Finset.mem_filter, Finset.mem_Ico] at hj
    exact (hp j ⟨hj.1.1, by omega⟩).2.2
  · intro j hj
    simp only [Finset.mem_filter, Finset.mem_Ico] at hj
    exact (hq j ⟨by omega, by omega⟩).2.2

/-- if i is below the count, some placed index is at least i; otherwise some unplaced one is at most i -/
theorem m_ge (q : ℤ → ℤ) (lo hi k i : ℤ) (h : i < (((Finset.Ico lo hi).filter (fun j => q j < k)).card : ℤ)) (hi0 : 0 ≤ i) :
    ∃ j, lo + i ≤ j ∧ j < hi ∧ q j < k := by
  by_contra hc
  push Not at hc
  have hs : (Finset.Ico lo hi).filter (fun j => q j < k) ⊆ Finset.Ico lo (lo + i) := by
    intro j hj
    simp only [Finset.mem_filter, Finset.mem_Ico] at hj ⊢
    refine ⟨hj.1.1, ?_⟩
    by_contra h2
    have := hc j (by omega) hj.1.2
    omega
  have := Finset.card_le_card hs
  simp at this; omega
theorem m_le (q : ℤ → ℤ) (lo hi k i : ℤ) (h : (((Finset.Ico lo hi).filter (fun j => q j < k)).card : ℤ) ≤ i) (hi0 : 0 ≤ i) (hh : lo + i < hi) :
    ∃ j, lo ≤ j ∧ j ≤ lo + i ∧ k ≤ q j := by
  by_contra hc
  push Not at hc
  have hs : Finset.Ico lo (lo + i + 1) ⊆ (Finset.Ico lo hi).filter (fun j => q j < k) := by
    intro j hj
    simp only [Finset.mem_filter, Finset.mem_Ico] at hj ⊢
    exact ⟨⟨hj.1, by omega⟩, hc j hj.1 (by omega)⟩
  have := Finset.card_le_card hs
  simp at this; omega

/-- one list: lo = offset of the list in the joined sequence -/
theorem merge_bounds (n : ℤ) (x : ℤ → ℝ) (loc : ℤ → ℝ) (p q : ℤ → ℤ) (lo k i : ℤ)
    (hq : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ q k ∧ q k < 2 * n ∧ p (q k) = k)
    (hx : ∀ j, lo ≤ j ∧ j < lo + n → loc (q j) = x (j - lo))
    (hl : ∀ i j, 0 ≤ i ∧ i ≤ j ∧ j < 2 * n → loc i ≤ loc j)
    (hm : ∀ i j, 0 ≤ i ∧ i ≤ j ∧ j < n → x i ≤ x j)
    (hlo : 0 ≤ lo) (hhi : lo + n ≤ 2 * n) (hk : 0 ≤ k ∧ k ≤ 2 * n) (hi : 0 ≤ i ∧ i < n) :
    (i < (((Finset.Ico lo (lo + n)).filter (fun j => q j < k)).card : ℤ) → x i ≤ loc (k - 1)) ∧
    ((((Finset.Ico lo (lo + n)).filter (fun j => q j < k)).card : ℤ) ≤ i → k < 2 * n → loc k ≤ x i) := by
  constructor
  · intro h
    obtain ⟨j, h1, h2, h3⟩ := m_ge q lo (lo + n) k i h hi.1
    have a1 := hm i (j - lo) ⟨hi.1, by omega, by omega⟩
    have a2 := hx j ⟨by omega, h2⟩
    have a3 := hq j ⟨by omega, by omega⟩
    have a4 := hl (q j) (k - 1) ⟨a3.1, by omega, by omega⟩
    rw [a2] at a4; exact a1.trans a4
  · intro h hk2
    obtain ⟨j, h1, h2, h3⟩ := m_le q lo (lo + n) k i h hi.1 (by omega)
    have a1 := hm (j - lo) i ⟨by omega, by omega, by omega⟩
    have a2 := hx j ⟨h1, by omega⟩
    have a3 := hq j ⟨by omega, by omega⟩
    have a4 := hl k (q j) ⟨hk.1, by omega, by omega⟩
    rw [a2] at a4; exact a4.trans a1

theorem merge : S_merge := by
  intro n b B loc tag p q hn hp hq hb hB hl hmb hmB
  have hp' : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ p k ∧ p k < 2 * n ∧ q (p k) = k := hp
  have hq' : ∀ k, 0 ≤ k ∧ k < 2 * n → 0 ≤ q k ∧ q k < 2 * n ∧ p (q k) = k := hq
  have hxb : ∀ j, (0:ℤ) ≤ j ∧ j < 0 + n → loc (q j) = b (j - 0) := by
    intro j hj
    have h1 := hq' j ⟨hj.1, by omega⟩
    have h2 := (hb (q j) ⟨⟨h1.1, h1.2.1⟩, by rw [h1.2.2]; omega⟩).1
    rw [h1.2.2] at h2; simpa using h2
  have hxB : ∀ j, n ≤ j ∧ j < n + n → loc (q j) = B (j - n) := by
    intro j hj
    have h1 := hq' j ⟨by omega, by omega⟩
    have h2 := (hB (q j) ⟨⟨h1.1, h1.2.1⟩, by rw [h1.2.2]; omega⟩).1
    rw [h1.2.2] at h2; exact h2
  have ic : ∀ k, 0 ≤ k → k ≤ 2 * n → mC p 0 n k = (((Finset.Ico (0:ℤ) (0 + n)).filter (fun j => q j < k)).card : ℤ) := by
    intro k h0 h1; rw [mS_img n p q 0 n k h0 h1 le_rfl (by omega) hp' hq']; simp
  have id : ∀ k, 0 ≤ k → k ≤ 2 * n → mC p n (2 * n) k = (((Finset.Ico n (n + n)).filter (fun j => q j < k)).card : ℤ) := by
    intro k h0 h1; rw [mS_img n p q n (2 * n) k h0 h1 hn (by omega) hp' hq', two_mul]
  have mb : ∀ k i, 0 ≤ k ∧ k ≤ 2 * n → 0 ≤ i ∧ i < n → (i < mC p 0 n k → b i ≤ loc (k - 1)) ∧ (mC p 0 n k ≤ i → k < 2 * n → loc k ≤ b i) := by
    intro k i hk hi
    rw [ic k hk.1 hk.2]
    exact merge_bounds n b loc p q 0 k i hq' hxb (fun i j h => hl i j ⟨h.1, h.2.1, h.2.2⟩) (fun i j h => hmb i j ⟨h.1, h.2.1, h.2.2⟩) le_rfl (by omega) hk hi
  have mB : ∀ k i, 0 ≤ k ∧ k ≤ 2 * n → 0 ≤ i ∧ i < n → (i < mC p n (2*n) k → B i ≤ loc (k - 1)) ∧ (mC p n (2*n) k ≤ i → k < 2 * n → loc k ≤ B i) := by
    intro k i hk hi
    rw [id k hk.1 hk.2]
    exact merge_bounds n B loc p q n k i hq' hxB (fun i j h => hl i j ⟨h.1, h.2.1, h.2.2⟩) (fun i j h => hmB i j ⟨h.1, h.2.1, h.2.2⟩) hn (by omega) hk hi
  have tot : ∀ k, 0 ≤ k → k ≤ 2 * n → mC p 0 n k + mC p n (2 * n) k = k := by
    intro k h0
    obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    induction m with
    | zero => intro _; simp [mC, mS]
    | succ m ih =>
      intro h1
      have e := ih (by omega) (by push_cast at *; omega)
      have := hp' (m : ℤ) ⟨by omega, by push_cast at *; omega⟩
      push_cast
      rw [mS_succ p 0 n m (by omega), mS_succ p n (2*n) m (by omega)]
      split_ifs <;> omega
  have leN : ∀ lo hi k, lo ≤ hi → 0 ≤ k ∧ k ≤ 2 * n → 0 ≤ lo → hi ≤ 2 * n → mC p lo hi k ≤ hi - lo := by
    intro lo hi k h hk h0 h1
    rw [mS_img n p q lo hi k hk.1 hk.2 h0 h1 hp' hq']
    have := Finset.card_filter_le (Finset.Ico lo hi) (fun j => q j < k)
    simp at this; omega
  have nn : ∀ lo hi k, 0 ≤ mC p lo hi k := fun _ _ _ => Int.natCast_nonneg _
  have cb : ∀ k, 0 ≤ k ∧ k ≤ 2 * n → mC p 0 n k ≤ n := fun k hk => by have := leN 0 n k hn hk le_rfl (by omega); omega
  have cB : ∀ k, 0 ≤ k ∧ k ≤ 2 * n → mC p n (2*n) k ≤ n := fun k hk => by have := leN n (2*n) k (by omega) hk hn le_rfl; omega
  refine ⟨mC p 0 n, mC p n (2 * n), by simp [mC, mS], by simp [mC, mS], ?_, ?_, ?_, ?_, ?_⟩
  · have := tot (2*n) (by omega) le_rfl; have := cb (2*n) ⟨by omega, le_rfl⟩; have := cB (2*n) ⟨by omega, le_rfl⟩; omega
  · have := tot (2*n) (by omega) le_rfl; have := cb (2*n) ⟨by omega, le_rfl⟩; have := cB (2*n) ⟨by omega, le_rfl⟩; omega
  · intro k hk
    exact ⟨nn _ _ _, cb k hk, nn _ _ _, cB k hk, tot k hk.1 hk.2⟩
  · intro k hk
    have h1 := hp' k hk
    have hk1 : 0 ≤ k := hk.1
    have hk2 : k < 2 * n := hk.2
    have e1 := mS_succ p 0 n k hk1
    have e2 := mS_succ p n (2*n) k hk1
    have c1 := cb (k+1) ⟨by omega, by omega⟩
    have c2 := cB (k+1) ⟨by omega, by omega⟩
    by_cases hlt : p k < n
    · left
      have t := hb k ⟨hk, hlt⟩
      rw [if_pos ⟨h1.1, hlt⟩] at e1
      rw [if_neg (by omega)] at e2
      have hcn : mC p 0 n k < n := by omega
      refine ⟨t.2, hcn, e1, by omega, le_antisymm ?_ ?_⟩
      · exact (mb k _ ⟨hk1, by omega⟩ ⟨nn _ _ _, hcn⟩).2 le_rfl hk2
      · have := (mb (k+1) (mC p 0 n k) ⟨by omega, by omega⟩ ⟨nn _ _ _, hcn⟩).1 (by omega)
        simpa using this
    · right
      have t := hB k ⟨hk, by omega⟩
      rw [if_neg (by omega)] at e1
      rw [if_pos ⟨by omega, h1.2.1⟩] at e2
      have hcn : mC p n (2*n) k < n := by omega
      refine ⟨t.2, hcn, by omega, e2, le_antisymm ?_ ?_⟩
      · exact (mB k _ ⟨hk1, by omega⟩ ⟨nn _ _ _, hcn⟩).2 le_rfl hk2
      · have := (mB (k+1) (mC p n (2*n) k) ⟨by omega, by omega⟩ ⟨nn _ _ _, hcn⟩).1 (by omega)
        simpa using this
  · intro k i ⟨h1, h2, h3, h4⟩
    have a := mb k i ⟨h1, h2⟩ ⟨h3, h4⟩
    have b := mB k i ⟨h1, h2⟩ ⟨h3, h4⟩
    exact ⟨a.1, fun h => a.2 h.1 h.2, b.1, fun h => b.2 h.1 h.2⟩
