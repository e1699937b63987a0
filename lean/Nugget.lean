import Mathlib

/-!
Lemmas behind the nugget (property C05). The contracts of `calc_nugget` (vlib/ded/c_nugget.py) give its closed form,
the contracts of the kernels (c_kernel.py, c_precon.py) give the entries of the preconditioned matrix; the lemmas here show
that the closed form bounds the sums of the absolute values of the rows, hence the eigenvalues and the condition number.
-/

open Real Finset

namespace Nugget

/-- `ub_sum_off_diag / (n - 1)` of the squared exponential and the rational quadratic kernel -/
noncomputable def ubGauss (d : ℝ) : ℝ :=
  0.5 * (1 + √(1 + 4 * d)) * exp (-(1 + 2 * d - √(1 + 4 * d)) / (4 * d))

/-- the maximum of (1 + x) exp(-x^2 / (2 d)) -/
lemma gauss_max {d x : ℝ} (hd : 0 < d) (_hx : 0 ≤ x) : (1 + x) * exp (-(x ^ 2) / (2 * d)) ≤ ubGauss d := by
  set w := √(1 + 4 * d) with hw
  have hw2 : w ^ 2 = 1 + 4 * d := sq_sqrt (by positivity)
  have hw1 : 1 < w := by
    rw [hw]; exact Real.lt_sqrt_of_sq_lt (by linarith)
  have hdw : d = (w ^ 2 - 1) / 4 := by linarith
  set y := (w - 1) / 2 with hy
  have hy0 : 0 < y := by rw [hy]; linarith
  have hyd : y * (1 + y) = d := by rw [hdw, hy]; ring
  have e1 : -(1 + 2 * d - w) / (4 * d) = -(y ^ 2) / (2 * d) := by
    rw [div_eq_div_iff (by positivity) (by positivity)]
    have : 1 + 2 * d - w = 2 * y ^ 2 := by rw [hdw, hy]; ring
    rw [this]; ring
  have e2 : 0.5 * (1 + w) = 1 + y := by rw [hy]; ring
  rw [ubGauss, ← hw, e1, e2]
  have h1 : (1 + x) / (1 + y) ≤ exp ((x - y) / (1 + y)) := by
    have := add_one_le_exp ((x - y) / (1 + y))
    have e : (1 + x) / (1 + y) = (x - y) / (1 + y) + 1 := by field_simp; ring
    rw [e]; exact this
  have h2 : exp ((x - y) / (1 + y)) ≤ exp (x ^ 2 / (2 * d) - y ^ 2 / (2 * d)) := by
    apply exp_le_exp.mpr
    have e : (x - y) / (1 + y) = y * (x - y) / d := by
      rw [← hyd]; field_simp
    rw [e, ← sub_div, div_le_div_iff₀ hd (by positivity)]
    nlinarith [sq_nonneg (x - y)]
  have h3 := h1.trans h2
  rw [exp_sub, div_le_div_iff₀ (by positivity) (exp_pos _)] at h3
  have n1 : exp (-(x ^ 2) / (2 * d)) = (exp (x ^ 2 / (2 * d)))⁻¹ := by rw [neg_div, exp_neg]
  have n2 : exp (-(y ^ 2) / (2 * d)) = (exp (y ^ 2 / (2 * d)))⁻¹ := by rw [neg_div, exp_neg]
  rw [n1, n2, ← div_eq_mul_inv, ← div_eq_mul_inv, div_le_div_iff₀ (exp_pos _) (exp_pos _)]
  linarith

set_option linter.unusedSectionVars false
variable {ι : Type*} [Fintype ι] [DecidableEq ι]

/-- Cauchy-Schwarz -/
lemma sum_sq_le (r : ι → ℝ) : (∑ k, r k) ^ 2 ≤ (Fintype.card ι : ℝ) * ∑ k, r k ^ 2 := by
  have := sq_sum_le_card_mul_sum_sq (s := (univ : Finset ι)) (f := r)
  simpa using this

/-- row of a value: k and its derivatives -/
lemma gauss_value (r : ι → ℝ) (hr : ∀ k, 0 ≤ r k) (hc : 0 < Fintype.card ι) :
    (1 + ∑ k, r k) * exp (-(∑ k, r k ^ 2) / 2) ≤ ubGauss (Fintype.card ι) := by
  set d : ℝ := (Fintype.card ι : ℝ) with hd
  have hd0 : 0 < d := by rw [hd]; exact_mod_cast hc
  have hS : 0 ≤ ∑ k, r k := sum_nonneg fun k _ => hr k
  refine le_trans ?_ (gauss_max hd0 hS)
  apply mul_le_mul_of_nonneg_left _ (by linarith)
  apply exp_le_exp.mpr
  rw [div_le_div_iff₀ (by norm_num) (by positivity)]
  have := sum_sq_le r
  nlinarith

/-- row of a derivative -/
lemma gauss_grad (r : ι → ℝ) (hr : ∀ k, 0 ≤ r k) (k : ι) :
    (r k + |1 - r k ^ 2| + ∑ j ∈ univ.erase k, r k * r j) * exp (-(∑ j, r j ^ 2) / 2) ≤ ubGauss (Fintype.card ι) := by
  have hc : 0 < Fintype.card ι := Fintype.card_pos_iff.mpr ⟨k⟩
  set R := ∑ j ∈ univ.erase k, r j with hR
  have hR0 : 0 ≤ R := sum_nonneg fun j _ => hr j
  have hsum : ∑ j, r j = r k + R := (add_sum_erase univ r (mem_univ k)).symm
  rw [← mul_sum, ← hR]
  have ht := hr k
  rcases le_total (r k) 1 with h1 | h1
  · refine le_trans ?_ (gauss_value r hr hc)
    apply mul_le_mul_of_nonneg_right _ (exp_pos _).le
    rw [abs_of_nonneg (by nlinarith), hsum]
    nlinarith
  · -- compare with the row of a value where the entry k is replaced by one
    let r' : ι → ℝ := Function.update r k 1
    have hr' : ∀ j, 0 ≤ r' j := by
      intro j
      by_cases h : j = k
      · subst h; simp [r']
      · simp [r', h, hr j]
    refine le_trans ?_ (gauss_value r' hr' hc)
    set Q := ∑ j ∈ univ.erase k, r j ^ 2 with hQ
    have s1 : ∑ j, r j ^ 2 = r k ^ 2 + Q := (add_sum_erase univ (fun j => r j ^ 2) (mem_univ k)).symm
    have s2 : ∑ j, r' j ^ 2 = 1 + Q := by
      rw [← add_sum_erase univ (fun j => r' j ^ 2) (mem_univ k)]
      congr 1
      · simp [r']
      · apply sum_congr rfl
        intro j hj
        have := ne_of_mem_erase hj
        simp [r', this]
    have s3 : ∑ j, r' j = 1 + R := by
      rw [← add_sum_erase univ r' (mem_univ k)]
      congr 1
      · simp [r']
      · apply sum_congr rfl
        intro j hj
        have := ne_of_mem_erase hj
        simp [r', this]
    rw [s1, s2, s3]
    set t := r k with htd
    have e1 : -(t ^ 2 + Q) / 2 = -(t ^ 2) / 2 + -Q / 2 := by ring
    have e2 : -(1 + Q) / 2 = -1 / 2 + -Q / 2 := by ring
    rw [e1, e2, exp_add, exp_add, ← mul_assoc, ← mul_assoc]
    apply mul_le_mul_of_nonneg_right _ (exp_pos _).le
    rw [abs_of_nonpos (by nlinarith)]
    -- with u = (t^2 - 1) / 2: exp u >= 1 + u + u^2/2
    have hu : 0 ≤ (t ^ 2 - 1) / 2 := by nlinarith
    have hexp := quadratic_le_exp_of_nonneg hu
    have e3 : exp (-1 / 2) = exp ((t ^ 2 - 1) / 2) * exp (-(t ^ 2) / 2) := by
      rw [← exp_add]; congr 1; ring
    rw [e3, ← mul_assoc]
    apply mul_le_mul_of_nonneg_right _ (exp_pos _).le
    have ht2 : t ≤ exp ((t ^ 2 - 1) / 2) := by nlinarith [sq_nonneg (t - 1)]
    have hc2 : t ^ 2 - 1 + t ≤ 2 * exp ((t ^ 2 - 1) / 2) := by nlinarith [sq_nonneg (t - 1), sq_nonneg (t ^ 2 - 3), sq_nonneg (t ^ 2 - 1)]
    nlinarith

/-! Rational quadratic kernel, q = |r|^2 / (2 alpha): the rows are bounded by those of the squared exponential one at other distances -/

lemma ratqu_value (r : ι → ℝ) (hr : ∀ k, 0 ≤ r k) (hc : 0 < Fintype.card ι) {a : ℝ} (ha : 0 < a) :
    (1 + (∑ k, r k ^ 2) / (2 * a)) ^ (-a) + (∑ k, r k) * (1 + (∑ k, r k ^ 2) / (2 * a)) ^ (-a - 1) ≤ ubGauss (Fintype.card ι) := by
  set q := (∑ k, r k ^ 2) / (2 * a) with hq
  have hq0 : 0 ≤ q := div_nonneg (sum_nonneg fun k _ => sq_nonneg _) (by positivity)
  have hp : 0 < 1 + q := by linarith
  have h := gauss_value (fun k => r k / (1 + q)) (fun k => div_nonneg (hr k) hp.le) hc
  refine le_trans ?_ h
  have e1 : (1 + q) ^ (-a - 1) = (1 + q) ^ (-a) / (1 + q) := by
    rw [rpow_sub hp, rpow_one]
  have e2 : (1 + q) ^ (-a) ≤ exp (-(∑ k, (r k / (1 + q)) ^ 2) / 2) := by
    rw [rpow_def_of_pos hp]
    apply exp_le_exp.mpr
    have s : ∑ k, (r k / (1 + q)) ^ 2 = 2 * a * q / (1 + q) ^ 2 := by
      simp_rw [div_pow]
      rw [← sum_div, hq]
      field_simp
    rw [s]
    have hl := one_sub_inv_le_log_of_pos hp
    have h1 : q / (1 + q) ^ 2 ≤ log (1 + q) := by
      refine le_trans ?_ hl
      have e : 1 - (1 + q)⁻¹ = q / (1 + q) := by field_simp; ring
      rw [e, div_le_div_iff₀ (by positivity) hp]
      nlinarith [mul_nonneg hq0 hq0, mul_nonneg (mul_nonneg hq0 hq0) hq0]
    have e3 : -(2 * a * q / (1 + q) ^ 2) / 2 = -(a * (q / (1 + q) ^ 2)) := by ring
    rw [e3]
    nlinarith
  rw [e1]
  have s : ∑ k, r k / (1 + q) = (∑ k, r k) / (1 + q) := by rw [sum_div]
  rw [s]
  have hS : 0 ≤ (∑ k, r k) / (1 + q) := div_nonneg (sum_nonneg fun k _ => hr k) hp.le
  calc (1 + q) ^ (-a) + (∑ k, r k) * ((1 + q) ^ (-a) / (1 + q)) = (1 + (∑ k, r k) / (1 + q)) * (1 + q) ^ (-a) := by ring
    _ ≤ _ := mul_le_mul_of_nonneg_left e2 (by linarith)

lemma ratqu_grad (r : ι → ℝ) (hr : ∀ k, 0 ≤ r k) (k : ι) {a : ℝ} (ha : 0 < a) :
    r k * (1 + (∑ j, r j ^ 2) / (2 * a)) ^ (-a - 1)
      + |(1 + (∑ j, r j ^ 2) / (2 * a)) ^ (-a - 1) - (1 + 1 / a) * r k ^ 2 * (1 + (∑ j, r j ^ 2) / (2 * a)) ^ (-a - 2)|
      + ∑ j ∈ univ.erase k, (1 + 1 / a) * (r k * r j) * (1 + (∑ j, r j ^ 2) / (2 * a)) ^ (-a - 2) ≤ ubGauss (Fintype.card ι) := by
  set q := (∑ j, r j ^ 2) / (2 * a) with hq
  have hq0 : 0 ≤ q := div_nonneg (sum_nonneg fun k _ => sq_nonneg _) (by positivity)
  have hp : 0 < 1 + q := by linarith
  have hca : 0 < 1 + 1 / a := by positivity
  set c := √((1 + 1 / a) / (1 + q)) with hcdef
  have hc0 : 0 < c := Real.sqrt_pos.mpr (by positivity)
  have hc2 : c ^ 2 = (1 + 1 / a) / (1 + q) := sq_sqrt (by positivity)
  have h := gauss_grad (fun j => r j * c) (fun j => mul_nonneg (hr j) hc0.le) k
  refine le_trans ?_ h
  have E1 : (1 + q) ^ (-a - 2) = (1 + q) ^ (-a - 1) / (1 + q) := by
    rw [show -a - 2 = (-a - 1) - 1 by ring, rpow_sub hp, rpow_one]
  set P := (1 + q) ^ (-a - 1) with hP
  have hP0 : 0 < P := rpow_pos_of_pos hp _
  have s : ∑ j, (r j * c) ^ 2 = 2 * (a + 1) * q / (1 + q) := by
    simp_rw [mul_pow]
    rw [← sum_mul, hc2]
    have : ∑ j, r j ^ 2 = 2 * a * q := by rw [hq]; field_simp
    rw [this]; field_simp
  set X := exp (-(∑ j, (r j * c) ^ 2) / 2) with hX
  have hX' : X = exp (-((a + 1) * q / (1 + q))) := by rw [hX, s]; congr 1; ring
  -- the power is below the exponential
  have hl1 : q / (1 + q) ≤ log (1 + q) := by
    have := one_sub_inv_le_log_of_pos hp
    have e : 1 - (1 + q)⁻¹ = q / (1 + q) := by field_simp; ring
    linarith [e ▸ this]
  have hPX : P ≤ X := by
    rw [hP, hX', rpow_def_of_pos hp]
    apply exp_le_exp.mpr
    have e : (a + 1) * q / (1 + q) = (a + 1) * (q / (1 + q)) := by ring
    rw [e]
    nlinarith
  -- and so is the factor of the first term
  have hPc : P ≤ c * X := by
    have hcl : c = exp (log ((1 + 1 / a) / (1 + q)) / 2) := by
      rw [hcdef, sqrt_eq_rpow, rpow_def_of_pos (by positivity)]; congr 1; ring
    rw [hP, hX', hcl, ← exp_add, rpow_def_of_pos hp]
    apply exp_le_exp.mpr
    rw [log_div hca.ne' hp.ne']
    have hl2 : 2 * q / (q + 2) ≤ log (1 + q) := le_log_one_add_of_nonneg hq0
    have hl3 : 1 / (1 + a) ≤ log (1 + 1 / a) := by
      have := one_sub_inv_le_log_of_pos hca
      have e : 1 - (1 + 1 / a)⁻¹ = 1 / (1 + a) := by field_simp; ring
      linarith [e ▸ this]
    have key : 0 ≤ (a + 1 / 2) * (2 * q / (q + 2)) + 1 / (1 + a) / 2 - (a + 1) * q / (1 + q) := by
      have e : (a + 1 / 2) * (2 * q / (q + 2)) + 1 / (1 + a) / 2 - (a + 1) * q / (1 + q)
          = (q ^ 2 * (2 * (a + 1) ^ 2 - 2 * (a + 1) + 1) + q * (3 - 2 * (a + 1)) + 2) / (2 * (1 + a) * (q + 2) * (1 + q)) := by
        have : (1 + a) ≠ 0 := by positivity
        have : (q + 2) ≠ 0 := by positivity
        have : (1 + q) ≠ 0 := hp.ne'
        field_simp
        ring
      rw [e]
      apply div_nonneg _ (by positivity)
      nlinarith [sq_nonneg (q * (2 * a + 1) - 1), sq_nonneg (q - 1), mul_nonneg hq0 ha.le, mul_nonneg (mul_nonneg hq0 hq0) (mul_nonneg ha.le ha.le),
        sq_nonneg (q * a - 1), sq_nonneg q, mul_nonneg (mul_nonneg hq0 hq0) ha.le]
    nlinarith
  -- the row
  have hsum : 0 ≤ ∑ j ∈ univ.erase k, r k * c * (r j * c) :=
    sum_nonneg fun j _ => mul_nonneg (mul_nonneg (hr k) hc0.le) (mul_nonneg (hr j) hc0.le)
  have t1 : r k * P ≤ r k * c * X := by
    have := mul_le_mul_of_nonneg_left hPc (hr k)
    linarith
  have t2 : |P - (1 + 1 / a) * r k ^ 2 * (P / (1 + q))| ≤ |1 - (r k * c) ^ 2| * X := by
    have e : P - (1 + 1 / a) * r k ^ 2 * (P / (1 + q)) = (1 - (r k * c) ^ 2) * P := by
      rw [mul_pow, hc2]; ring
    rw [e, abs_mul, abs_of_pos hP0]
    exact mul_le_mul_of_nonneg_left hPX (abs_nonneg _)
  have t3 : ∑ j ∈ univ.erase k, (1 + 1 / a) * (r k * r j) * (P / (1 + q)) ≤ (∑ j ∈ univ.erase k, r k * c * (r j * c)) * X := by
    have e : ∑ j ∈ univ.erase k, (1 + 1 / a) * (r k * r j) * (P / (1 + q)) = (∑ j ∈ univ.erase k, r k * c * (r j * c)) * P := by
      rw [sum_mul]
      apply sum_congr rfl
      intro j _
      have : r k * c * (r j * c) = r k * r j * c ^ 2 := by ring
      rw [this, hc2]; ring
    rw [e]
    exact mul_le_mul_of_nonneg_left hPX hsum
  rw [E1]
  calc _ ≤ r k * c * X + |1 - (r k * c) ^ 2| * X + (∑ j ∈ univ.erase k, r k * c * (r j * c)) * X := by linarith
    _ = _ := by ring

/-! Matern 5/2 kernel, s = sqrt 3 |r| -/

/-- `alpha` of the Matern 5/2 kernel -/
noncomputable def xMatern (d : ℝ) : ℝ :=
  (√(3 * d) - 1 + √(15 * d + 2 * √(3 * d) + 1)) / (2 * (3 * d + √(3 * d)))

/-- `ub_sum_off_diag / (n - 1)` of the Matern 5/2 kernel -/
noncomputable def ubMatern (d : ℝ) : ℝ :=
  (1 + (d + √(3 * d)) * xMatern d + d * (1 + √(3 * d)) * xMatern d ^ 2) * exp (-√(3 * d) * xMatern d)

/-- the maximum along the diagonal -/
lemma matern_max {d x : ℝ} (hd : 0 < d) (hx : 0 ≤ x) :
    (1 + (d + √(3 * d)) * x + d * (1 + √(3 * d)) * x ^ 2) * exp (-√(3 * d) * x) ≤ ubMatern d := by
  set w := √(3 * d) with hw
  have hw2 : w ^ 2 = 3 * d := sq_sqrt (by positivity)
  have hw0 : 0 < w := Real.sqrt_pos.mpr (by positivity)
  set z := √(15 * d + 2 * w + 1) with hz
  have hz2 : z ^ 2 = 15 * d + 2 * w + 1 := sq_sqrt (by positivity)
  have hz0 : 0 < z := Real.sqrt_pos.mpr (by positivity)
  set y := xMatern d with hy
  have hyd : y = (w - 1 + z) / (2 * (3 * d + w)) := by rw [hy, xMatern, ← hw, ← hz]
  have hzw : 1 < z := by nlinarith
  have hy0 : 0 < y := by rw [hyd]; apply div_pos <;> nlinarith
  -- y is the root of the derivative
  have hroot : 1 + (w - 1) * y - (3 * d + w) * y ^ 2 = 0 := by
    rw [hyd]
    have : (3 * d + w) ≠ 0 := by positivity
    field_simp
    nlinarith
  let f : ℝ → ℝ := fun t => (1 + (d + w) * t + d * (1 + w) * t ^ 2) * exp (-w * t)
  have hder : ∀ t, HasDerivAt f (d * (1 + (w - 1) * t - (3 * d + w) * t ^ 2) * exp (-w * t)) t := by
    intro t
    have h1 : HasDerivAt (fun t : ℝ => 1 + (d + w) * t + d * (1 + w) * t ^ 2) ((d + w) + d * (1 + w) * (2 * t)) t := by
      have a1 : HasDerivAt (fun t : ℝ => (d + w) * t) ((d + w) * 1) t := (hasDerivAt_id t).const_mul _
      have a2 : HasDerivAt (fun t : ℝ => d * (1 + w) * t ^ 2) (d * (1 + w) * (2 * t)) t := by
        have := (hasDerivAt_pow 2 t).const_mul (d * (1 + w))
        simpa using this
      have a3 := (a1.const_add 1).add a2
      exact a3.congr_deriv (by ring)
    have h2 : HasDerivAt (fun t : ℝ => exp (-w * t)) (exp (-w * t) * (-w * 1)) t := ((hasDerivAt_id t).const_mul (-w)).exp
    have h3 := h1.mul h2
    refine h3.congr_deriv ?_
    linear_combination (-(d * t ^ 2 + t) * exp (-w * t)) * hw2
  have hcont : Continuous f := continuous_iff_continuousAt.mpr fun t => (hder t).continuousAt
  have hdiff : Differentiable ℝ f := fun t => (hder t).differentiableAt
  have hsign : ∀ t, 0 ≤ t → 1 + (w - 1) * t - (3 * d + w) * t ^ 2 = (y - t) * ((3 * d + w) * t + 1 / y) := by
    intro t _
    have h : (3 * d + w) * y = 1 / y + (w - 1) := by
      field_simp
      nlinarith
    have e : (y - t) * ((3 * d + w) * t + 1 / y) = t * ((3 * d + w) * y) - (3 * d + w) * t ^ 2 + 1 - t / y := by
      field_simp; ring
    rw [e, h]; ring
  have goal : f x ≤ f y := by
    rcases le_total x y with hxy | hxy
    · have mono : MonotoneOn f (Set.Icc 0 y) := by
        apply monotoneOn_of_deriv_nonneg (convex_Icc 0 y) hcont.continuousOn hdiff.differentiableOn
        intro t ht
        rw [interior_Icc] at ht
        rw [(hder t).deriv, hsign t ht.1.le]
        have h1 : 0 < y - t := by linarith [ht.2]
        have h2 : 0 < t := ht.1
        positivity
      exact mono ⟨hx, hxy⟩ ⟨hy0.le, le_refl y⟩ hxy
    · have anti : AntitoneOn f (Set.Ici y) := by
        apply antitoneOn_of_deriv_nonpos (convex_Ici y) hcont.continuousOn hdiff.differentiableOn
        intro t ht
        rw [interior_Ici] at ht
        have ht' : y < t := ht
        have h2 : 0 < t := hy0.trans ht'
        rw [(hder t).deriv, hsign t h2.le]
        have h1 : 0 < t - y := by linarith
        have : 0 ≤ d * ((t - y) * ((3 * d + w) * t + 1 / y)) * exp (-w * t) := by positivity
        nlinarith
      exact anti (Set.mem_Ici.mpr (le_refl y)) (Set.mem_Ici.mpr hxy) hxy
  have : ubMatern d = f y := by rw [ubMatern, ← hw, ← hy]
  rw [this]
  exact goal

lemma matern_value (r : ι → ℝ) (_hr : ∀ k, 0 ≤ r k) (hc : 0 < Fintype.card ι) :
    (1 + √3 * √(∑ k, r k ^ 2) + ∑ k, r k ^ 2 + (∑ k, r k) * (1 + √3 * √(∑ k, r k ^ 2))) * exp (-(√3 * √(∑ k, r k ^ 2))) ≤ ubMatern (Fintype.card ι) := by
  set d : ℝ := (Fintype.card ι : ℝ) with hd
  have hd0 : 0 < d := by rw [hd]; exact_mod_cast hc
  have hQ : 0 ≤ ∑ k, r k ^ 2 := sum_nonneg fun k _ => sq_nonneg _
  set ρ := √(∑ k, r k ^ 2) with hρ
  have hρ0 : 0 ≤ ρ := sqrt_nonneg _
  have hρ2 : ∑ k, r k ^ 2 = ρ ^ 2 := (sq_sqrt hQ).symm
  have hsd : 0 < √d := Real.sqrt_pos.mpr hd0
  have hsd2 : √d ^ 2 = d := sq_sqrt hd0.le
  have h := matern_max hd0 (x := ρ / √d) (by positivity)
  refine le_trans ?_ h
  have hw : √(3 * d) = √3 * √d := sqrt_mul (by norm_num) d
  have e1 : √(3 * d) * (ρ / √d) = √3 * ρ := by rw [hw]; field_simp
  have e2 : -√(3 * d) * (ρ / √d) = -(√3 * ρ) := by rw [neg_mul, e1]
  have e3 : d * (ρ / √d) = √d * ρ := by
    have : d = √d * √d := by rw [← sq, hsd2]
    rw [this]
    simp only [sqrt_mul_self hsd.le]
    field_simp
  have e4 : d * (ρ / √d) ^ 2 = ρ ^ 2 := by rw [div_pow, hsd2]; field_simp
  rw [e2]
  apply mul_le_mul_of_nonneg_right _ (exp_pos _).le
  have hS : ∑ k, r k ≤ √d * ρ := by
    have := sum_sq_le r
    refine abs_le_of_sq_le_sq' ?_ (by positivity) |>.2
    rw [mul_pow, hsd2, ← hρ2]; exact this
  have hpos : 0 ≤ 1 + √3 * ρ := by positivity
  rw [hρ2]
  calc 1 + √3 * ρ + ρ ^ 2 + (∑ k, r k) * (1 + √3 * ρ) ≤ 1 + √3 * ρ + ρ ^ 2 + (√d * ρ) * (1 + √3 * ρ) := by nlinarith
    _ = 1 + (d * (ρ / √d) + √(3 * d) * (ρ / √d)) + (d * (ρ / √d) ^ 2) * 1 + (d * (ρ / √d)) * (√(3 * d) * (ρ / √d)) := by rw [e1, e3, e4]; ring
    _ = _ := by ring

/-- lower bound of the maximum, from the point where s = 0.8 -/
lemma matern_low {d : ℝ} (hd : 0 < d) : 0.9029 + 0.3728 * √d ≤ ubMatern d := by
  have hw0 : 0 < √(3 * d) := Real.sqrt_pos.mpr (by positivity)
  have hw2 : √(3 * d) ^ 2 = 3 * d := sq_sqrt (by positivity)
  have hw : √(3 * d) = √3 * √d := sqrt_mul (by norm_num) d
  have h3 : 0 < √3 := by positivity
  have h32 : √3 ^ 2 = 3 := sq_sqrt (by norm_num)
  have h3u : √3 ≤ 1.7321 := by
    apply Real.sqrt_le_iff.mpr; norm_num
  have hsd : 0 < √d := Real.sqrt_pos.mpr hd
  have hsd2 : √d ^ 2 = d := sq_sqrt hd.le
  have h := matern_max hd (x := 0.8 / √(3 * d)) (by positivity)
  refine le_trans ?_ h
  have e1 : √(3 * d) * (0.8 / √(3 * d)) = 0.8 := by field_simp
  have e2 : -√(3 * d) * (0.8 / √(3 * d)) = -0.8 := by rw [neg_mul, e1]
  have e3 : d * (0.8 / √(3 * d)) = 0.8 / √3 * √d := by
    rw [hw]
    have : d * (0.8 / (√3 * √d)) = (√d ^ 2) * (0.8 / (√3 * √d)) := by rw [hsd2]
    rw [this]; field_simp
  have e4 : d * (0.8 / √(3 * d)) ^ 2 = 0.64 / 3 := by
    rw [div_pow, hw2]; field_simp; norm_num
  have hp : 1 + (d + √(3 * d)) * (0.8 / √(3 * d)) + d * (1 + √(3 * d)) * (0.8 / √(3 * d)) ^ 2
      = 1 + d * (0.8 / √(3 * d)) + √(3 * d) * (0.8 / √(3 * d)) + d * (0.8 / √(3 * d)) ^ 2 + (d * (0.8 / √(3 * d))) * (√(3 * d) * (0.8 / √(3 * d))) := by ring
  rw [hp, e2, e1, e3, e4]
  have hs3 : 0.8 / 1.7321 ≤ 0.8 / √3 := div_le_div_of_nonneg_left (by norm_num) h3 h3u
  have hE : 0.4485 ≤ exp (-0.8) := by
    have h2 := quadratic_le_exp_of_nonneg (x := 0.2) (by norm_num)
    have h1 : exp (-0.8) * exp 1 = exp 0.2 := by rw [← exp_add]; norm_num
    have h9 := exp_one_lt_d9
    have hp := exp_pos (-0.8)
    nlinarith
  have hA : 0.4618 * √d ≤ 0.8 / √3 * √d := by
    apply mul_le_mul_of_nonneg_right _ hsd.le
    refine le_trans ?_ hs3
    norm_num
  have hP : 2.0133 + 0.83124 * √d ≤ 1 + 0.8 / √3 * √d + 0.8 + 0.64 / 3 + 0.8 / √3 * √d * 0.8 := by nlinarith
  have hPpos : 0 ≤ 1 + 0.8 / √3 * √d + 0.8 + 0.64 / 3 + 0.8 / √3 * √d * 0.8 := by positivity
  nlinarith [mul_le_mul hP hE (by norm_num) hPpos]

set_option maxHeartbeats 1000000 in
lemma matern_grad (r : ι → ℝ) (hr : ∀ k, 0 ≤ r k) (k : ι) :
    (r k * (1 + √3 * √(∑ j, r j ^ 2)) + |1 + √3 * √(∑ j, r j ^ 2) - 3 * r k ^ 2| + ∑ j ∈ univ.erase k, 3 * (r k * r j))
      * exp (-(√3 * √(∑ j, r j ^ 2))) ≤ ubMatern (Fintype.card ι) := by
  have hc : 0 < Fintype.card ι := Fintype.card_pos_iff.mpr ⟨k⟩
  have hQ0 : 0 ≤ ∑ j, r j ^ 2 := sum_nonneg fun k _ => sq_nonneg _
  set s := √3 * √(∑ j, r j ^ 2) with hs
  have hs0 : 0 ≤ s := by positivity
  have hs2 : s ^ 2 = 3 * ∑ j, r j ^ 2 := by
    rw [hs, mul_pow, sq_sqrt hQ0, sq_sqrt (by norm_num)]
  set t := r k with ht
  have ht0 : 0 ≤ t := hr k
  set Q := ∑ j ∈ univ.erase k, r j ^ 2 with hQ
  have hQn : 0 ≤ Q := sum_nonneg fun k _ => sq_nonneg _
  have hsum : ∑ j, r j ^ 2 = t ^ 2 + Q := (add_sum_erase univ (fun j => r j ^ 2) (mem_univ k)).symm
  set R := ∑ j ∈ univ.erase k, r j with hR
  have hR0 : 0 ≤ R := sum_nonneg fun j _ => hr j
  set m : ℝ := ((univ.erase k).card : ℝ) with hm
  have hm0 : 0 ≤ m := by positivity
  have hcard : (Fintype.card ι : ℝ) = m + 1 := by
    rw [hm, card_erase_of_mem (mem_univ k), card_univ]
    push_cast [Nat.cast_sub hc]
    ring
  have hRQ : R ^ 2 ≤ m * Q := sq_sum_le_card_mul_sum_sq
  set a := √m with ha
  have ha0 : 0 ≤ a := sqrt_nonneg _
  have ha2 : a ^ 2 = m := sq_sqrt hm0
  -- the products of the entries
  have hprod : 3 * (t * R) ≤ a * s ^ 2 / 2 := by
    have h1 : R ≤ a * √Q := by
      refine abs_le_of_sq_le_sq' ?_ (by positivity) |>.2
      rw [mul_pow, ha2, sq_sqrt hQn]; exact hRQ
    have h2 : √Q ^ 2 = Q := sq_sqrt hQn
    have h3 : t * √Q ≤ (t ^ 2 + Q) / 2 := by nlinarith [sq_nonneg (t - √Q)]
    have h4 : t * R ≤ a * (t * √Q) := by
      have := mul_le_mul_of_nonneg_left h1 ht0
      linarith
    have h5 := mul_le_mul_of_nonneg_left h3 ha0
    rw [hs2, hsum]
    linarith
  have hE0 := exp_pos s
  have hs2E : s ^ 2 ≤ 0.5422 * exp s := by
    have h1 : s / 2 ≤ exp (s / 2 - 1) := by linarith [add_one_le_exp (s / 2 - 1)]
    have h2 : (s / 2) ^ 2 ≤ exp (s / 2 - 1) ^ 2 := pow_le_pow_left₀ (by positivity) h1 2
    have h3 : exp (s / 2 - 1) ^ 2 * exp 1 ^ 2 = exp s := by
      rw [← mul_pow, ← exp_add, sq, ← exp_add]; congr 1; ring
    have h9 := exp_one_gt_d9
    have h8 : (7.389 : ℝ) ≤ exp 1 ^ 2 := by nlinarith
    have h7 : 0 ≤ exp (s / 2 - 1) ^ 2 := by positivity
    nlinarith
  have hfirst : t * (1 + s) + |1 + s - 3 * t ^ 2| ≤ 1.09 * exp s := by
    have ht2 : 3 * t ^ 2 ≤ s ^ 2 := by rw [hs2, hsum]; linarith
    rcases le_total (3 * t ^ 2) (1 + s) with h | h
    · rw [abs_of_nonneg (by linarith)]
      have hq := quadratic_le_exp_of_nonneg hs0
      nlinarith [sq_nonneg (6 * t - (1 + s)), sq_nonneg (s - 0.083)]
    · rw [abs_of_nonpos (by linarith)]
      have hq : 1 + s + s ^ 2 / 2 + s ^ 3 / 6 ≤ exp s := by
        have := sum_le_exp_of_nonneg hs0 4
        simp [Finset.sum_range_succ, Nat.factorial] at this
        linarith
      have ht3 : t ≤ 0.578 * s := by
        refine abs_le_of_sq_le_sq' ?_ (by positivity) |>.2
        nlinarith
      have h1 : t * (1 + s) ≤ 0.578 * s * (1 + s) := mul_le_mul_of_nonneg_right ht3 (by linarith)
      nlinarith [mul_nonneg hs0 (sq_nonneg (s - 2.9)), sq_nonneg (s - 2.9), mul_nonneg hs0 (sq_nonneg (s - 2.8))]
  have hlow := matern_low (d := (Fintype.card ι : ℝ)) (by exact_mod_cast hc)
  have hfin : 1.09 + 0.2711 * a ≤ ubMatern (Fintype.card ι) := by
    refine le_trans ?_ hlow
    have hb : √(Fintype.card ι : ℝ) ^ 2 = a ^ 2 + 1 := by
      rw [sq_sqrt (by positivity), hcard, ha2]
    have hb0 := sqrt_nonneg (Fintype.card ι : ℝ)
    have : 0.1871 + 0.2711 * a ≤ 0.3728 * √(Fintype.card ι : ℝ) := by
      refine abs_le_of_sq_le_sq' ?_ (by positivity) |>.2
      rw [mul_pow, hb]
      nlinarith [sq_nonneg (a - 0.775)]
    linarith
  rw [← mul_sum, ← mul_sum, ← hR]
  have htot : t * (1 + s) + |1 + s - 3 * t ^ 2| + 3 * (t * R) ≤ (1.09 + 0.2711 * a) * exp s := by
    have h1 := mul_le_mul_of_nonneg_left hs2E ha0
    have h2 : a * (0.5422 * exp s) = 2 * (0.2711 * a * exp s) := by ring
    linarith
  have hinv : exp s * exp (-s) = 1 := by rw [← exp_add]; simp
  calc _ ≤ (1.09 + 0.2711 * a) * exp s * exp (-s) := mul_le_mul_of_nonneg_right htot (exp_pos _).le
    _ = 1.09 + 0.2711 * a := by rw [mul_assoc, hinv, mul_one]
    _ ≤ _ := hfin

/-! Matrices: rows, eigenvalues and the condition number -/

/-- sums of the rows, from the sums over the entries of one other point; the rows of the noisy matrix are below those of the noise-free one -/
lemma rows {n : ℕ} {p : ι → Fin n} {A B : Matrix ι ι ℝ} {u : ℝ}
    (h1 : ∀ i, B i i = 1) (hAB : ∀ i j, i ≠ j → |B i j| ≤ |A i j|) (h0 : ∀ i j, i ≠ j → p i = p j → A i j = 0)
    (hu : ∀ i b, b ≠ p i → ∑ j ∈ univ.filter (fun j => p j = b), |A i j| ≤ u) (i : ι) :
    ∑ j, |B i j| ≤ 1 + ((n : ℝ) - 1) * u := by
  have hn : 0 < n := Fin.pos (p i)
  have hs : ∑ j, |B i j| = ∑ b : Fin n, ∑ j ∈ univ.filter (fun j => p j = b), |B i j| := (sum_fiberwise univ p (fun j => |B i j|)).symm
  rw [hs, ← add_sum_erase univ _ (mem_univ (p i))]
  have own : ∑ j ∈ univ.filter (fun j => p j = p i), |B i j| = 1 := by
    rw [sum_eq_single_of_mem i (by simp)]
    · rw [h1, abs_one]
    · intro j hj hne
      have hj' : p j = p i := by simpa using hj
      have := hAB i j hne.symm
      rw [h0 i j hne.symm hj'.symm, abs_zero] at this
      exact le_antisymm this (abs_nonneg _)
  rw [own]
  have others : ∑ b ∈ univ.erase (p i), ∑ j ∈ univ.filter (fun j => p j = b), |B i j| ≤ ∑ b ∈ (univ : Finset (Fin n)).erase (p i), u := by
    apply sum_le_sum
    intro b hb
    have hb' := ne_of_mem_erase hb
    refine le_trans (sum_le_sum fun j hj => hAB i j ?_) (hu i b hb')
    intro e
    have hj' : p j = b := by simpa using hj
    exact hb' (by rw [← hj', e])
  rw [sum_const, card_erase_of_mem (mem_univ _), card_univ, Fintype.card_fin, nsmul_eq_mul, Nat.cast_sub hn] at others
  push_cast at others
  linarith

/-- a positive semidefinite matrix with bounded rows, plus the nugget, has eigenvalues between the nugget and c times the nugget -/
theorem eigenvalues {A : Matrix ι ι ℝ} (hA : A.PosSemidef) {u c : ℝ} (hr : ∀ i, ∑ j, |A i j| ≤ u) (hc : 1 < c) {μ : ℝ}
    (hμ : Module.End.HasEigenvalue (Matrix.toLin' (A + (u / (c - 1)) • (1 : Matrix ι ι ℝ))) μ) :
    u / (c - 1) ≤ μ ∧ μ ≤ c * (u / (c - 1)) := by
  set η := u / (c - 1) with hη
  obtain ⟨v, hv⟩ := hμ.exists_hasEigenvector
  have hv0 : v ≠ 0 := hv.2
  have hAv : A.mulVec v = (μ - η) • v := by
    have := hv.apply_eq_smul
    rw [Matrix.toLin'_apply, Matrix.add_mulVec, Matrix.smul_mulVec, Matrix.one_mulVec] at this
    rw [sub_smul, ← this]; simp
  constructor
  · have h := hA.dotProduct_mulVec_nonneg v
    rw [hAv] at h
    have hpos : 0 < star v ⬝ᵥ v := Matrix.dotProduct_star_self_pos_iff.mpr hv0
    rw [dotProduct_smul, smul_eq_mul] at h
    by_contra hlt
    have : μ - η < 0 := by linarith
    nlinarith
  · have hev : Module.End.HasEigenvalue (Matrix.toLin' A) (μ - η) :=
      Module.End.hasEigenvalue_of_hasEigenvector ⟨Module.End.mem_eigenspace_iff.mpr (by rw [Matrix.toLin'_apply, hAv]), hv0⟩
    obtain ⟨i, hi⟩ := eigenvalue_mem_ball hev
    rw [Metric.mem_closedBall, Real.dist_eq] at hi
    have hrow := hr i
    rw [← add_sum_erase univ (fun j => |A i j|) (mem_univ i)] at hrow
    simp only [Real.norm_eq_abs] at hi
    have h1 := (abs_le.mp hi).2
    have h2 := le_abs_self (A i i)
    have h3 : c * η = u + η := by
      have : c - 1 ≠ 0 := by linarith
      rw [hη]; field_simp; ring
    linarith

/-- hence the condition number (the ratio of any two eigenvalues) is at most c, and the matrix is positive definite -/
theorem condition {A : Matrix ι ι ℝ} (hA : A.PosSemidef) {u c : ℝ} (hu : 0 < u) (hr : ∀ i, ∑ j, |A i j| ≤ u) (hc : 1 < c) {μ ν : ℝ}
    (hμ : Module.End.HasEigenvalue (Matrix.toLin' (A + (u / (c - 1)) • (1 : Matrix ι ι ℝ))) μ)
    (hν : Module.End.HasEigenvalue (Matrix.toLin' (A + (u / (c - 1)) • (1 : Matrix ι ι ℝ))) ν) : 0 < ν ∧ μ / ν ≤ c := by
  have h1 := eigenvalues hA hr hc hμ
  have h2 := eigenvalues hA hr hc hν
  have h0 : 0 < u / (c - 1) := div_pos hu (by linarith)
  have h3 : 0 < ν := by linarith
  refine ⟨h3, ?_⟩
  rw [div_le_iff₀ h3]
  nlinarith

end Nugget

#print axioms Nugget.gauss_value
#print axioms Nugget.gauss_grad
#print axioms Nugget.ratqu_value
#print axioms Nugget.ratqu_grad
#print axioms Nugget.matern_value
#print axioms Nugget.matern_grad
#print axioms Nugget.rows
#print axioms Nugget.eigenvalues
#print axioms Nugget.condition
