import Mathlib
set_option linter.all false
set_option maxHeartbeats 1000000
open MeasureTheory

noncomputable section

/-- log |Γ x|, the function computed by lgamma -/
def lgam (x : ℝ) : ℝ := Real.log |Real.Gamma x|

/-- Poisson probability e^-l l^k / k! -/
def pois (l : ℝ) (k : ℤ) : ℝ := Real.exp (-l) * l ^ k.toNat / (k.toNat.factorial : ℝ)

/-- volume of { x_1 ≤ … ≤ x_k ≤ x : b_i ≤ x_i ≤ B_i }, by iterated integrals -/
def Pm (b B : ℤ → ℝ) : ℕ → ℝ → ℝ
  | 0, _ => 1
  | (k + 1), x => ∫ u in Set.Icc (b k) (min x (B k)), Pm b B k u

def RW (b B : ℤ → ℝ) (lam t : ℝ) (m : ℤ) : ℝ := Real.exp (-(lam * t)) * lam ^ m.toNat * Pm b B m.toNat t

/-- n! · volume: probability that n sorted independent uniform points lie between b and B -/
def NCP (b B : ℤ → ℝ) (n : ℤ) : ℝ := (n.toNat.factorial : ℝ) * Pm b B n.toNat 1

/-- FFTW r2c: X_k = Σ A_t e^(-2πikt/n) -/
def dftRe (A : ℤ → ℝ) (n k : ℤ) : ℝ := ∑ t ∈ Finset.range n.toNat, A t * Real.cos (2 * Real.pi * k * t / n)
def dftIm (A : ℤ → ℝ) (n k : ℤ) : ℝ := -∑ t ∈ Finset.range n.toNat, A t * Real.sin (2 * Real.pi * k * t / n)
/-- FFTW c2r: the unnormalised backward transform of the Hermitian extension of X_0 .. X_(n/2) -/
def hR (X : ℤ → ℝ) (n k : ℤ) : ℝ := if 2 * k ≤ n then X k else X (n - k)
def hI (X : ℤ → ℝ) (n k : ℤ) : ℝ := if k = 0 ∨ 2 * k = n then 0 else if 2 * k < n then X k else -X (n - k)
def idft (XR XI : ℤ → ℝ) (n m : ℤ) : ℝ :=
  ∑ k ∈ Finset.range n.toNat, (hR XR n k * Real.cos (2 * Real.pi * k * m / n) - hI XI n k * Real.sin (2 * Real.pi * k * m / n))


/-- Σ_{k=a..j} RW(t,k) pois(lam (s-t), j-k): paths that are at height ≥ a at time t, free afterwards, at height j at time s -/
def DW (b B : ℤ → ℝ) (lam : ℝ) (a : ℤ) (t s : ℝ) (j : ℤ) : ℝ :=
  ∑ u ∈ Finset.range (j - a + 1).toNat, RW b B lam t (a + u) * pois (lam * (s - t)) (j - (a + u))

def pow2 (i : ℤ) : ℝ := (2 : ℝ) ^ i
def ipow (x : ℝ) (k : ℤ) : ℝ := x ^ k.toNat
/-- polynomial in translated monomials -/
def POLY (m a : ℤ → ℝ) (d : ℤ) (x : ℝ) : ℝ := ∑ k ∈ Finset.range (d + 1).toNat, m k * (x + a k) ^ k
def Qn (b : ℤ → ℝ) : ℕ → ℝ → ℝ
  | 0, _ => 1
  | (k + 1), x => ∫ u in (b k)..x, Qn b k u
def QM (b : ℤ → ℝ) (i : ℤ) (x : ℝ) : ℝ := Qn b i.toNat x

/-- TinyMT64 as the C code implements it (one step, seeding, conversion to (0,1]): decided bit by bit by CBMC, opaque here -/
opaque NS0 (s0 s1 m1 m2 : ℤ) : ℤ
opaque NS1 (s0 s1 m1 m2 : ℤ) : ℤ
opaque DOC (s0 s1 tm : ℤ) : ℝ
/-- the state after k steps -/
def ITn (s0 s1 m1 m2 : ℤ) : ℕ → ℤ × ℤ
  | 0 => (s0, s1)
  | (k + 1) => (NS0 (ITn s0 s1 m1 m2 k).1 (ITn s0 s1 m1 m2 k).2 m1 m2, NS1 (ITn s0 s1 m1 m2 k).1 (ITn s0 s1 m1 m2 k).2 m1 m2)
def IT0 (s0 s1 m1 m2 _tm k : ℤ) : ℤ := (ITn s0 s1 m1 m2 k.toNat).1
def IT1 (s0 s1 m1 m2 _tm k : ℤ) : ℤ := (ITn s0 s1 m1 m2 k.toNat).2
/-- the k-th uniform number drawn -/
def DRAW (s0 s1 m1 m2 tm k : ℤ) : ℝ := DOC (IT0 s0 s1 m1 m2 tm (k + 1)) (IT1 s0 s1 m1 m2 tm (k + 1)) tm
/-- partial sums of exponential variables with mean beta -/
def ES (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (k : ℤ) : ℝ := ∑ i ∈ Finset.range k.toNat, -(beta * Real.log (DRAW s0 s1 m1 m2 tm i))
/-- the realisation A_0, …, A_(n-1) violates a boundary -/
def CROSSF (A : ℤ → ℝ) (n : ℤ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn : ℤ) : Prop :=
  n < Bn ∨ (bn > 0 ∧ n > bn) ∨ (∃ i : ℤ, 0 ≤ i ∧ i < n ∧ i < Bn ∧ A i > B i) ∨ (∃ i : ℤ, 0 ≤ i ∧ i < n ∧ i < bn ∧ A i < b i)
/-- one simulation of n uniform points, by normalised partial sums -/
def ECX (s0 s1 m1 m2 tm n : ℤ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn : ℤ) : Prop :=
  CROSSF (fun i => ES s0 s1 m1 m2 tm 1 (i + 1) / ES s0 s1 m1 m2 tm 1 (n + 1)) n b bn B Bn
/-- one simulation of the Poisson process: its points are the partial sums that are at most 1 -/
def PCX (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn : ℤ) : Prop :=
  (∃ i : ℤ, 0 ≤ i ∧ i < Bn ∧ ES s0 s1 m1 m2 tm beta (i + 1) > 1) ∨ (bn > 0 ∧ ES s0 s1 m1 m2 tm beta (bn + 1) ≤ 1)
  ∨ (∃ i : ℤ, 0 ≤ i ∧ i < Bn ∧ ES s0 s1 m1 m2 tm beta (i + 1) ≤ 1 ∧ ES s0 s1 m1 m2 tm beta (i + 1) > B i)
  ∨ (∃ i : ℤ, 0 ≤ i ∧ i < bn ∧ ES s0 s1 m1 m2 tm beta (i + 1) ≤ 1 ∧ ES s0 s1 m1 m2 tm beta (i + 1) < b i)
open Classical in
/-- numbers drawn by one Poisson simulation -/
def PN (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (m : ℤ) : ℤ :=
  if h : ∃ j : ℕ, (j : ℤ) < m ∧ ES s0 s1 m1 m2 tm beta (j + 1) > 1 then (Nat.find h : ℤ) + 1 else m + 1
/-- the state at the start of simulation k, st numbers per simulation -/
def RITn (s0 s1 m1 m2 tm st : ℤ) : ℕ → ℤ × ℤ
  | 0 => (s0, s1)
  | (k + 1) => (IT0 (RITn s0 s1 m1 m2 tm st k).1 (RITn s0 s1 m1 m2 tm st k).2 m1 m2 tm st, IT1 (RITn s0 s1 m1 m2 tm st k).1 (RITn s0 s1 m1 m2 tm st k).2 m1 m2 tm st)
def RIT0 (s0 s1 m1 m2 tm st k : ℤ) : ℤ := (RITn s0 s1 m1 m2 tm st k.toNat).1
def RIT1 (s0 s1 m1 m2 tm st k : ℤ) : ℤ := (RITn s0 s1 m1 m2 tm st k.toNat).2
def PITn (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (m : ℤ) : ℕ → ℤ × ℤ
  | 0 => (s0, s1)
  | (k + 1) => (IT0 (PITn s0 s1 m1 m2 tm beta m k).1 (PITn s0 s1 m1 m2 tm beta m k).2 m1 m2 tm (PN (PITn s0 s1 m1 m2 tm beta m k).1 (PITn s0 s1 m1 m2 tm beta m k).2 m1 m2 tm beta m),
                IT1 (PITn s0 s1 m1 m2 tm beta m k).1 (PITn s0 s1 m1 m2 tm beta m k).2 m1 m2 tm (PN (PITn s0 s1 m1 m2 tm beta m k).1 (PITn s0 s1 m1 m2 tm beta m k).2 m1 m2 tm beta m))
def PIT0 (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (m k : ℤ) : ℤ := (PITn s0 s1 m1 m2 tm beta m k.toNat).1
def PIT1 (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (m k : ℤ) : ℤ := (PITn s0 s1 m1 m2 tm beta m k.toNat).2
instance (s0 s1 m1 m2 tm n : ℤ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn : ℤ) : Decidable (ECX s0 s1 m1 m2 tm n b bn B Bn) := Classical.propDecidable _
instance (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn : ℤ) : Decidable (PCX s0 s1 m1 m2 tm beta b bn B Bn) := Classical.propDecidable _
/-- how many of the first k simulations cross -/
def ECNT (s0 s1 m1 m2 tm n : ℤ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn k : ℤ) : ℤ :=
  ∑ j ∈ Finset.range k.toNat, if ECX (RIT0 s0 s1 m1 m2 tm (n + 1) j) (RIT1 s0 s1 m1 m2 tm (n + 1) j) m1 m2 tm n b bn B Bn then 1 else 0
def PCNT (s0 s1 m1 m2 tm : ℤ) (beta : ℝ) (m : ℤ) (b : ℤ → ℝ) (bn : ℤ) (B : ℤ → ℝ) (Bn k : ℤ) : ℤ :=
  ∑ j ∈ Finset.range k.toNat, if PCX (PIT0 s0 s1 m1 m2 tm beta m j) (PIT1 s0 s1 m1 m2 tm beta m j) m1 m2 tm beta b bn B Bn then 1 else 0

/-- text of a string: character i, length; opaque -/
opaque SCHAR (v i : ℤ) : ℤ
opaque SLEN (v : ℤ) : ℤ
/-- how often c occurs among the first i characters -/
def DCNT (v c i : ℤ) : ℤ := (((Finset.range i.toNat).filter (fun j : ℕ => SCHAR v j = c)).card : ℤ)
/-- start of field k: the number of positions with fewer than k separators before them -/
def FST (v c k : ℤ) : ℤ := (((Finset.range (SLEN v + 1).toNat).filter (fun i : ℕ => DCNT v c i < k)).card : ℤ)
