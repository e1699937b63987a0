import Mathlib

/-!
Lemmas behind the symmetries (property C21). The contracts give all results as functions of the matrix A of the observations
(values and derivatives), the data y, the basis h of the mean function (one for values, zero for derivatives) and the kernel k
between observations and query point: coefficient and variance in closed form and likelihood in c_lkd.py, mean and variance
in c_eval.py, the entries of A in c_kernel.py and c_cov.py. Here: what happens to these functions when the problem is
permuted, shifted or scaled, and what happens to the kernel.
-/

open Matrix

namespace Symmetry

variable {ι κ : Type*} [Fintype ι] [DecidableEq ι] [Fintype κ] [DecidableEq κ]

noncomputable def beta (A : Matrix ι ι ℝ) (h y : ι → ℝ) : ℝ := (h ⬝ᵥ (A⁻¹ *ᵥ y)) / (h ⬝ᵥ (A⁻¹ *ᵥ h))
noncomputable def res (A : Matrix ι ι ℝ) (h y : ι → ℝ) : ι → ℝ := y - beta A h y • h
noncomputable def rss (A : Matrix ι ι ℝ) (h y : ι → ℝ) : ℝ := res A h y ⬝ᵥ (A⁻¹ *ᵥ res A h y)
/-- likelihood with a given variance (noisy data) -/
noncomputable def lkd (A : Matrix ι ι ℝ) (h y : ι → ℝ) : ℝ := -(1 / 2) * (rss A h y + Real.log A.det)
/-- variance in closed form and likelihood (noise-free data) -/
noncomputable def varK (A : Matrix ι ι ℝ) (h y : ι → ℝ) : ℝ := rss A h y / Fintype.card ι
noncomputable def lkd0 (A : Matrix ι ι ℝ) (h y : ι → ℝ) : ℝ :=
  -(1 / 2) * (Fintype.card ι * Real.log (varK A h y) + Real.log A.det)
noncomputable def mean (A : Matrix ι ι ℝ) (h y k : ι → ℝ) : ℝ := beta A h y + k ⬝ᵥ (A⁻¹ *ᵥ res A h y)
noncomputable def var (A : Matrix ι ι ℝ) (k : ι → ℝ) : ℝ := 1 - k ⬝ᵥ (A⁻¹ *ᵥ k)

/-! ### another order of the observations (of the points, or of the coordinates of the derivatives) -/

lemma form_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (u v : ι → ℝ) :
    (u ∘ e) ⬝ᵥ ((A.submatrix e e)⁻¹ *ᵥ (v ∘ e)) = u ⬝ᵥ (A⁻¹ *ᵥ v) := by
  rw [inv_submatrix_equiv, submatrix_mulVec_equiv]
  simp only [Function.comp_assoc, Equiv.self_comp_symm, Function.comp_id, comp_equiv_dotProduct_comp_equiv]

theorem beta_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (h y : ι → ℝ) : beta (A.submatrix e e) (h ∘ e) (y ∘ e) = beta A h y := by
  simp only [beta, form_perm]

lemma res_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (h y : ι → ℝ) : res (A.submatrix e e) (h ∘ e) (y ∘ e) = res A h y ∘ e := by
  unfold res; rw [beta_perm]; rfl

theorem rss_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (h y : ι → ℝ) : rss (A.submatrix e e) (h ∘ e) (y ∘ e) = rss A h y := by
  unfold rss; rw [res_perm, form_perm]

theorem lkd_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (h y : ι → ℝ) : lkd (A.submatrix e e) (h ∘ e) (y ∘ e) = lkd A h y := by
  unfold lkd; rw [rss_perm, det_submatrix_equiv_self]

theorem lkd0_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (h y : ι → ℝ) :
    lkd0 (A.submatrix e e) (h ∘ e) (y ∘ e) = lkd0 A h y ∧ varK (A.submatrix e e) (h ∘ e) (y ∘ e) = varK A h y := by
  have c := Fintype.card_congr e
  unfold lkd0 varK; rw [rss_perm, det_submatrix_equiv_self, c]; exact ⟨rfl, rfl⟩

theorem mean_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (h y k : ι → ℝ) :
    mean (A.submatrix e e) (h ∘ e) (y ∘ e) (k ∘ e) = mean A h y k := by
  unfold mean; rw [beta_perm, res_perm, form_perm]

theorem var_perm (e : κ ≃ ι) (A : Matrix ι ι ℝ) (k : ι → ℝ) : var (A.submatrix e e) (k ∘ e) = var A k := by
  unfold var; rw [form_perm]

/-! ### a constant added to the function -/

theorem beta_shift (A : Matrix ι ι ℝ) (h y : ι → ℝ) (c : ℝ) (h0 : h ⬝ᵥ (A⁻¹ *ᵥ h) ≠ 0) :
    beta A h (y + c • h) = beta A h y + c := by
  unfold beta
  rw [mulVec_add, mulVec_smul, dotProduct_add, dotProduct_smul, smul_eq_mul]
  field_simp

lemma res_shift (A : Matrix ι ι ℝ) (h y : ι → ℝ) (c : ℝ) (h0 : h ⬝ᵥ (A⁻¹ *ᵥ h) ≠ 0) : res A h (y + c • h) = res A h y := by
  unfold res; rw [beta_shift A h y c h0, add_smul]; abel

theorem rss_shift (A : Matrix ι ι ℝ) (h y : ι → ℝ) (c : ℝ) (h0 : h ⬝ᵥ (A⁻¹ *ᵥ h) ≠ 0) :
    rss A h (y + c • h) = rss A h y ∧ lkd A h (y + c • h) = lkd A h y ∧ varK A h (y + c • h) = varK A h y ∧
      lkd0 A h (y + c • h) = lkd0 A h y := by
  unfold lkd lkd0 varK rss; rw [res_shift A h y c h0]; exact ⟨rfl, rfl, rfl, rfl⟩

theorem mean_shift (A : Matrix ι ι ℝ) (h y k : ι → ℝ) (c : ℝ) (h0 : h ⬝ᵥ (A⁻¹ *ᵥ h) ≠ 0) :
    mean A h (y + c • h) k = mean A h y k + c := by
  unfold mean; rw [res_shift A h y c h0, beta_shift A h y c h0]; ring

/-! ### the function times a constant -/

theorem beta_scale (A : Matrix ι ι ℝ) (h y : ι → ℝ) (s : ℝ) : beta A h (s • y) = s * beta A h y := by
  unfold beta; rw [mulVec_smul, dotProduct_smul, smul_eq_mul]; ring

lemma res_scale (A : Matrix ι ι ℝ) (h y : ι → ℝ) (s : ℝ) : res A h (s • y) = s • res A h y := by
  unfold res; rw [beta_scale, smul_sub, smul_smul]

theorem rss_scale (A : Matrix ι ι ℝ) (h y : ι → ℝ) (s : ℝ) : rss A h (s • y) = s ^ 2 * rss A h y := by
  unfold rss; rw [res_scale, mulVec_smul, smul_dotProduct, dotProduct_smul]; simp only [smul_eq_mul]; ring

theorem varK_scale (A : Matrix ι ι ℝ) (h y : ι → ℝ) (s : ℝ) : varK A h (s • y) = s ^ 2 * varK A h y := by
  unfold varK; rw [rss_scale]; ring

theorem mean_scale (A : Matrix ι ι ℝ) (h y k : ι → ℝ) (s : ℝ) : mean A h (s • y) k = s * mean A h y k := by
  unfold mean; rw [beta_scale, res_scale, mulVec_smul, dotProduct_smul, smul_eq_mul]; ring

/-- the likelihood of noise-free data loses n log |s| -/
theorem lkd0_scale (A : Matrix ι ι ℝ) (h y : ι → ℝ) {s : ℝ} (hs : s ≠ 0) (hv : varK A h y ≠ 0) :
    lkd0 A h (s • y) = lkd0 A h y - Fintype.card ι * Real.log |s| := by
  unfold lkd0
  rw [varK_scale, Real.log_mul (pow_ne_zero 2 hs) hv, Real.log_pow, ← Real.log_abs s]
  push_cast; ring

lemma inv_smul' (A : Matrix ι ι ℝ) {c : ℝ} (hc : c ≠ 0) (hA : IsUnit A.det) : (c • A)⁻¹ = c⁻¹ • A⁻¹ := by
  apply inv_eq_left_inv
  rw [smul_mul_smul_comm, inv_mul_cancel₀ hc, nonsing_inv_mul _ hA, one_smul]

/-- noisy data: all variances (of the function and of the noise) times s^2 -/
theorem lkd_scale (A : Matrix ι ι ℝ) (h y : ι → ℝ) {s : ℝ} (hs : s ≠ 0) (hA : IsUnit A.det) :
    beta (s ^ 2 • A) h (s • y) = s * beta A h y ∧ rss (s ^ 2 • A) h (s • y) = rss A h y ∧
      lkd (s ^ 2 • A) h (s • y) = lkd A h y - Fintype.card ι * Real.log |s| := by
  have hs2 : s ^ 2 ≠ 0 := pow_ne_zero 2 hs
  have b0 : ∀ z, beta (s ^ 2 • A) h z = beta A h z := by
    intro z
    unfold beta
    rw [inv_smul' A hs2 hA, smul_mulVec, smul_mulVec, dotProduct_smul, dotProduct_smul, smul_eq_mul, smul_eq_mul,
      mul_div_mul_left _ _ (inv_ne_zero hs2)]
  have r0 : rss (s ^ 2 • A) h (s • y) = rss A h y := by
    have : res (s ^ 2 • A) h (s • y) = s • res A h y := by rw [← res_scale]; unfold res; rw [b0]
    unfold rss
    rw [this, inv_smul' A hs2 hA, smul_mulVec, mulVec_smul, smul_dotProduct, dotProduct_smul, dotProduct_smul]
    simp only [smul_eq_mul]
    field_simp
  refine ⟨by rw [b0, beta_scale], r0, ?_⟩
  unfold lkd
  rw [r0, det_smul, Real.log_mul (pow_ne_zero _ hs2) hA.ne_zero, Real.log_pow, Real.log_pow, ← Real.log_abs s]
  push_cast; ring

/-! ### other units of the observations: observation i times d i (a coordinate in other units scales its derivatives) -/

lemma inv_units (A : Matrix ι ι ℝ) {d : ι → ℝ} (hd : ∀ i, d i ≠ 0) :
    (diagonal d * A * diagonal d)⁻¹ = diagonal d⁻¹ * A⁻¹ * diagonal d⁻¹ := by
  have e : (diagonal d)⁻¹ = diagonal d⁻¹ := by
    apply inv_eq_left_inv
    rw [diagonal_mul_diagonal, ← diagonal_one]
    congr 1; funext i
    simp [hd i]
  rw [Matrix.mul_inv_rev, Matrix.mul_inv_rev, e, Matrix.mul_assoc]

lemma form_units (A : Matrix ι ι ℝ) {d : ι → ℝ} (hd : ∀ i, d i ≠ 0) (u v : ι → ℝ) :
    (d * u) ⬝ᵥ ((diagonal d * A * diagonal d)⁻¹ *ᵥ (d * v)) = u ⬝ᵥ (A⁻¹ *ᵥ v) := by
  have e1 : diagonal d⁻¹ *ᵥ (d * v) = v := by
    funext i
    rw [mulVec_diagonal]; simp [hd i]
  have e2 : (d * u) ᵥ* diagonal d⁻¹ = u := by
    funext i
    rw [vecMul_diagonal]; simp only [Pi.mul_apply, Pi.inv_apply]; rw [mul_comm (d i), mul_assoc, mul_inv_cancel₀ (hd i), mul_one]
  rw [inv_units A hd, ← mulVec_mulVec, ← mulVec_mulVec, e1, dotProduct_mulVec, e2]

theorem units (A : Matrix ι ι ℝ) {d : ι → ℝ} (hd : ∀ i, d i ≠ 0) {h : ι → ℝ} (hh : ∀ i, d i * h i = h i) (y k : ι → ℝ) :
    beta (diagonal d * A * diagonal d) h (d * y) = beta A h y ∧ rss (diagonal d * A * diagonal d) h (d * y) = rss A h y ∧
      mean (diagonal d * A * diagonal d) h (d * y) (d * k) = mean A h y k ∧ var (diagonal d * A * diagonal d) (d * k) = var A k := by
  have e : d * h = h := funext hh
  have b : beta (diagonal d * A * diagonal d) h (d * y) = beta A h y := by
    unfold beta
    have := form_units A hd h y
    have := form_units A hd h h
    rw [e] at *
    simp_all
  have r : res (diagonal d * A * diagonal d) h (d * y) = d * res A h y := by
    unfold res
    rw [b]; funext i
    simp only [Pi.sub_apply, Pi.mul_apply, Pi.smul_apply, smul_eq_mul]
    rw [mul_sub, mul_left_comm, hh i]
  refine ⟨b, ?_, ?_, ?_⟩
  · unfold rss; rw [r, form_units A hd]
  · unfold mean; rw [b, r, form_units A hd]
  · unfold var; rw [form_units A hd]

/-- the determinant changes by a constant, which does not depend on the hyperparameters -/
theorem det_units (A : Matrix ι ι ℝ) (d : ι → ℝ) : (diagonal d * A * diagonal d).det = (∏ i, d i) ^ 2 * A.det := by
  rw [det_mul, det_mul, det_diagonal]; ring

/-! ### the kernel: k(x, y) = phi(sum_d theta_d (x_d - y_d)^2), with the derivatives phi1 and phi2 of phi -/

variable {δ : Type*} [Fintype δ] [DecidableEq δ]

def dist (θ x y : δ → ℝ) : ℝ := ∑ d, θ d * (x d - y d) ^ 2
def kx (φ₁ : ℝ → ℝ) (θ x y : δ → ℝ) (i : δ) : ℝ := φ₁ (dist θ x y) * (2 * θ i * (x i - y i))
def kxy (φ₁ φ₂ : ℝ → ℝ) (θ x y : δ → ℝ) (i j : δ) : ℝ :=
  -(φ₂ (dist θ x y) * (2 * θ i * (x i - y i)) * (2 * θ j * (x j - y j))) - φ₁ (dist θ x y) * (if i = j then 2 * θ i else 0)

/-- these are the derivatives -/
theorem hasDeriv_k {φ φ₁ : ℝ → ℝ} (hφ : ∀ s, HasDerivAt φ (φ₁ s) s) (θ x y : δ → ℝ) (i : δ) :
    HasDerivAt (fun t => φ (dist θ (Function.update x i t) y)) (kx φ₁ θ x y i) (x i) := by
  have h1 : HasDerivAt (fun t => dist θ (Function.update x i t) y) (2 * θ i * (x i - y i)) (x i) := by
    unfold dist
    have h : ∀ d ∈ Finset.univ, HasDerivAt (fun t => θ d * (Function.update x i t d - y d) ^ 2)
        (if d = i then 2 * θ i * (x i - y i) else 0) (x i) := by
      intro d _
      by_cases hd : d = i
      · subst hd
        simp only [Function.update_self, if_true]
        have := (((hasDerivAt_id (x d)).sub_const (y d)).pow 2).const_mul (θ d)
        simp only [id] at this
        refine this.congr_deriv ?_
        norm_num
        try ring
      · simp only [Function.update_of_ne hd, hd, if_false]
        exact hasDerivAt_const _ _
    have := HasDerivAt.fun_sum h
    simpa using this
  have e : dist θ (Function.update x i (x i)) y = dist θ x y := by rw [Function.update_eq_self]
  have := (HasDerivAt.comp (x i) (by rw [e]; exact hφ _ : HasDerivAt φ (φ₁ (dist θ x y)) (dist θ (Function.update x i (x i)) y)) h1)
  simpa [kx, Function.comp_def] using this

/-- another order of the coordinates, together with theta -/
theorem kernel_perm (σ : δ ≃ δ) (φ₁ φ₂ : ℝ → ℝ) (θ x y : δ → ℝ) (i j : δ) :
    dist (θ ∘ σ) (x ∘ σ) (y ∘ σ) = dist θ x y ∧ kx φ₁ (θ ∘ σ) (x ∘ σ) (y ∘ σ) i = kx φ₁ θ x y (σ i) ∧
      kxy φ₁ φ₂ (θ ∘ σ) (x ∘ σ) (y ∘ σ) i j = kxy φ₁ φ₂ θ x y (σ i) (σ j) := by
  have d0 : dist (θ ∘ σ) (x ∘ σ) (y ∘ σ) = dist θ x y := by
    unfold dist
    exact Equiv.sum_comp σ (fun d => θ d * (x d - y d) ^ 2)
  refine ⟨d0, ?_, ?_⟩
  · unfold kx; rw [d0]; rfl
  · unfold kxy; rw [d0]; simp [σ.injective.eq_iff]

/-- all points shifted -/
theorem kernel_shift (φ₁ φ₂ : ℝ → ℝ) (θ x y c : δ → ℝ) (i j : δ) :
    dist θ (x + c) (y + c) = dist θ x y ∧ kx φ₁ θ (x + c) (y + c) i = kx φ₁ θ x y i ∧
      kxy φ₁ φ₂ θ (x + c) (y + c) i j = kxy φ₁ φ₂ θ x y i j := by
  have d0 : dist θ (x + c) (y + c) = dist θ x y := by simp [dist]
  refine ⟨d0, ?_, ?_⟩
  · unfold kx; rw [d0]; simp
  · unfold kxy; rw [d0]; simp

/-- coordinate d in other units: x_d times c_d, theta_d divided by c_d^2; derivatives are divided by c_d -/
theorem kernel_units (φ₁ φ₂ : ℝ → ℝ) (θ x y : δ → ℝ) {c : δ → ℝ} (hc : ∀ d, c d ≠ 0) (i j : δ) :
    dist (θ / c ^ 2) (c * x) (c * y) = dist θ x y ∧ kx φ₁ (θ / c ^ 2) (c * x) (c * y) i = kx φ₁ θ x y i / c i ∧
      kxy φ₁ φ₂ (θ / c ^ 2) (c * x) (c * y) i j = kxy φ₁ φ₂ θ x y i j / (c i * c j) := by
  have d0 : dist (θ / c ^ 2) (c * x) (c * y) = dist θ x y := by
    unfold dist
    refine Finset.sum_congr rfl fun d _ => ?_
    have := hc d
    simp only [Pi.div_apply, Pi.pow_apply, Pi.mul_apply]
    field_simp
  have hi := hc i
  have hj := hc j
  refine ⟨d0, ?_, ?_⟩
  · unfold kx; rw [d0]; simp only [Pi.div_apply, Pi.pow_apply, Pi.mul_apply]; field_simp
  · unfold kxy; rw [d0]; simp only [Pi.div_apply, Pi.pow_apply, Pi.mul_apply]
    by_cases h : i = j
    · subst h; simp only [if_true]; field_simp
    · simp only [h, if_false]; field_simp; ring

/-- a mask that selects all points keeps their order, and is therefore no mask -/
theorem mask_all (n : ℕ) (f : Fin n ↪o Fin n) (p : Fin n) : f p = p := by
  have hs : Function.Surjective f := Finite.injective_iff_surjective.mp f.injective
  have e : (RelIso.ofSurjective f hs : Fin n ≃o Fin n) = OrderIso.refl (Fin n) := Subsingleton.elim _ _
  exact congrArg (fun g : Fin n ≃o Fin n => g p) e

end Symmetry

#print axioms Symmetry.beta_perm
#print axioms Symmetry.rss_perm
#print axioms Symmetry.lkd_perm
#print axioms Symmetry.lkd0_perm
#print axioms Symmetry.mean_perm
#print axioms Symmetry.var_perm
#print axioms Symmetry.beta_shift
#print axioms Symmetry.rss_shift
#print axioms Symmetry.mean_shift
#print axioms Symmetry.lkd0_scale
#print axioms Symmetry.varK_scale
#print axioms Symmetry.mean_scale
#print axioms Symmetry.lkd_scale
#print axioms Symmetry.units
#print axioms Symmetry.det_units
#print axioms Symmetry.hasDeriv_k
#print axioms Symmetry.kernel_perm
#print axioms Symmetry.kernel_shift
#print axioms Symmetry.kernel_units
#print axioms Symmetry.mask_all
