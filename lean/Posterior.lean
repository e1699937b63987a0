import Mathlib

/-!
Lemmas behind the posterior (property C11). The contracts of `eval_model` (vlib/ded/c_eval.py) give the closed forms
`mu = beta + k^T A^-1 (y - beta h)` and `sigma^2 = varK (1 - k^T A^-1 k)`, where (contracts of c_cov.py) `A` is the kernel
matrix with noise and nugget on its diagonal, all divided by varK, and `k` the kernel between data and query point. Here:
the standard deviation is never above the prior one, the variance is not negative for a positive semidefinite kernel, and
noise-free data is reproduced up to the nugget.
-/

open Matrix

namespace Posterior

variable {ι : Type*} [Fintype ι] [DecidableEq ι]

/-- posterior variance for a prior variance of one -/
noncomputable def var (A : Matrix ι ι ℝ) (k : ι → ℝ) : ℝ := 1 - k ⬝ᵥ (A⁻¹ *ᵥ k)

/-- posterior mean -/
noncomputable def mean (A : Matrix ι ι ℝ) (h y : ι → ℝ) (b : ℝ) (k : ι → ℝ) : ℝ := b + k ⬝ᵥ (A⁻¹ *ᵥ (y - b • h))

/-- never above the prior variance -/
theorem var_le {A : Matrix ι ι ℝ} (hA : A.PosDef) (k : ι → ℝ) : var A k ≤ 1 := by
  have h := hA.inv.posSemidef.dotProduct_mulVec_nonneg k
  simp only [star_trivial] at h
  unfold var; linarith

/-- strictly below, unless the kernel to all data vanishes -/
theorem var_lt {A : Matrix ι ι ℝ} (hA : A.PosDef) {k : ι → ℝ} (hk : k ≠ 0) : var A k < 1 := by
  have h := hA.inv.dotProduct_mulVec_pos hk
  simp only [star_trivial] at h
  unfold var; linarith

/-- the joint matrix of data and query point is positive semidefinite: so is the variance -/
theorem var_nonneg {A : Matrix ι ι ℝ} (hA : A.PosDef) (k : ι → ℝ)
    (hj : ∀ (u : ι → ℝ) (t : ℝ), 0 ≤ u ⬝ᵥ (A *ᵥ u) + 2 * t * (u ⬝ᵥ k) + t ^ 2) : 0 ≤ var A k := by
  have hdet : IsUnit A.det := hA.isUnit.map (detMonoidHom (n := ι) (R := ℝ))
  have h := hj (-(A⁻¹ *ᵥ k)) 1
  have e : A *ᵥ (A⁻¹ *ᵥ k) = k := by rw [mulVec_mulVec, mul_nonsing_inv _ hdet, one_mulVec]
  rw [mulVec_neg, e, neg_dotProduct_neg, neg_dotProduct, dotProduct_comm (A⁻¹ *ᵥ k) k] at h
  unfold var; linarith

/-- at an observation `a` without noise, the kernel to the data is the column of A without the nugget -/
theorem mean_at_data {A : Matrix ι ι ℝ} (hA : A.PosDef) (h y : ι → ℝ) (b η : ℝ) (a : ι) (ha : h a = 1)
    {k : ι → ℝ} (hk : k = A *ᵥ Pi.single a 1 - η • Pi.single a 1) :
    mean A h y b k = y a - η * (A⁻¹ *ᵥ (y - b • h)) a := by
  have hdet : IsUnit A.det := hA.isUnit.map (detMonoidHom (n := ι) (R := ℝ))
  have sym : Aᵀ = A := by
    have := hA.isHermitian
    rwa [IsHermitian, conjTranspose_eq_transpose_of_trivial] at this
  have e1 : (A *ᵥ Pi.single a 1) ⬝ᵥ (A⁻¹ *ᵥ (y - b • h)) = (y - b • h) a := by
    rw [dotProduct_comm, dotProduct_mulVec, ← mulVec_transpose, sym, mulVec_mulVec, mul_nonsing_inv _ hdet, one_mulVec,
      dotProduct_single, mul_one]
  unfold mean
  rw [hk, sub_dotProduct, e1, smul_dotProduct, single_dotProduct]
  simp only [Pi.sub_apply, Pi.smul_apply, smul_eq_mul, ha, one_mul, mul_one]
  ring

/-- and the variance there is below the nugget -/
theorem var_at_data {A : Matrix ι ι ℝ} (hA : A.PosDef) (η : ℝ) (a : ι) (ha : A a a = 1 + η)
    {k : ι → ℝ} (hk : k = A *ᵥ Pi.single a 1 - η • Pi.single a 1) :
    var A k = η - η ^ 2 * A⁻¹ a a := by
  have hdet : IsUnit A.det := hA.isUnit.map (detMonoidHom (n := ι) (R := ℝ))
  have sym : Aᵀ = A := by
    have := hA.isHermitian
    rwa [IsHermitian, conjTranspose_eq_transpose_of_trivial] at this
  have e0 : A⁻¹ *ᵥ k = Pi.single a 1 - η • (A⁻¹ *ᵥ Pi.single a 1) := by
    rw [hk, mulVec_sub, mulVec_mulVec, nonsing_inv_mul _ hdet, one_mulVec, mulVec_smul]
  have e1 : (A *ᵥ Pi.single a 1) ⬝ᵥ (A⁻¹ *ᵥ Pi.single a 1) = 1 := by
    rw [dotProduct_comm, dotProduct_mulVec, ← mulVec_transpose, sym, mulVec_mulVec, mul_nonsing_inv _ hdet, one_mulVec,
      dotProduct_single, Pi.single_eq_same, mul_one]
  have e2 : (A *ᵥ Pi.single a (1 : ℝ)) a = 1 + η := by simp [ha]
  have e3 : (A⁻¹ *ᵥ Pi.single a (1 : ℝ)) a = A⁻¹ a a := by simp
  unfold var
  rw [e0, hk, sub_dotProduct, dotProduct_sub, dotProduct_sub, dotProduct_smul, e1, dotProduct_single, e2,
    smul_dotProduct, smul_dotProduct, dotProduct_smul, single_dotProduct, single_dotProduct, e3, Pi.single_eq_same]
  simp only [smul_eq_mul]
  ring

theorem var_at_data_le {A : Matrix ι ι ℝ} (hA : A.PosDef) (η : ℝ) (a : ι) (ha : A a a = 1 + η)
    {k : ι → ℝ} (hk : k = A *ᵥ Pi.single a 1 - η • Pi.single a 1) : var A k ≤ η := by
  rw [var_at_data hA η a ha hk]
  have : 0 < A⁻¹ a a := hA.inv.diag_pos
  nlinarith [sq_nonneg η]

/-- without a nugget the data is reproduced exactly, with no uncertainty -/
theorem interpolates {A : Matrix ι ι ℝ} (hA : A.PosDef) (h y : ι → ℝ) (b : ℝ) (a : ι) (ha : h a = 1) (hd : A a a = 1)
    {k : ι → ℝ} (hk : k = A *ᵥ Pi.single a 1) : mean A h y b k = y a ∧ var A k = 0 := by
  have hk' : k = A *ᵥ Pi.single a 1 - (0 : ℝ) • Pi.single a 1 := by rw [zero_smul, sub_zero, hk]
  refine ⟨?_, ?_⟩
  · rw [mean_at_data hA h y b 0 a ha hk']; ring
  · rw [var_at_data hA 0 a (by rw [hd]; ring) hk']; ring

end Posterior

#print axioms Posterior.var_le
#print axioms Posterior.var_lt
#print axioms Posterior.var_nonneg
#print axioms Posterior.mean_at_data
#print axioms Posterior.var_at_data
#print axioms Posterior.var_at_data_le
#print axioms Posterior.interpolates
