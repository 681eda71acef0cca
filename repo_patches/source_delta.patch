From be225e85b2812d1fa7c4a8324df2ecf10557dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 01/37] verification hook: private-item access behind
 cfg(symb_verif)

---
 src/lib.rs         |   9 +++
 src/verif_hooks.rs | 186 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 195 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 0eb935f..54dfdfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,6 +194,11 @@
 //! - **Error handling**: All operations return `Result` with descriptive error messages
 //! - **Thread safety**: All public types are `Send + Sync` for parallel usage
 
+#![allow(
+    unexpected_cfgs,
+    reason = "`symb_verif` is set only by the external verification harness"
+)]
+
 // ============================================================================
 // Module Declarations
 // ============================================================================
@@ -216,6 +221,10 @@ mod uncertainty; // Uncertainty propagation
 mod api; // Builder APIs: Diff, Simplify, helpers
 mod bindings; // External bindings (Python, parallel)
 
+// Private-item access for the external verification harness (`--cfg symb_verif` only)
+#[cfg(symb_verif)]
+pub mod verif_hooks;
+
 // ============================================================================
 // Test Module
 // ============================================================================
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..d5dd2fe
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,186 @@
+//! Access to private items for the external verification harness.
+//!
+//! Compiled only with `--cfg symb_verif`; not part of the public API.
+#![allow(
+    clippy::all,
+    clippy::pedantic,
+    clippy::nursery,
+    clippy::restriction,
+    missing_docs,
+    reason = "verification hook, not part of the library"
+)]
+
+use crate::core::expr::{Expr, ExprKind, compute_expr_hash, expr_cmp};
+use crate::core::known_symbols as ks;
+use crate::core::poly::Polynomial;
+use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::functions::registry::Registry;
+use crate::simplification::rules::{ExprKind as RuleKind, RuleContext};
+use std::collections::HashMap;
+use std::sync::Arc;
+
+/// Plain view of an expression tree.
+#[derive(Clone, Debug, PartialEq)]
+pub enum Tree {
+    Num(f64),
+    Sym(String),
+    Fun(String, Vec<Tree>),
+    Sum(Vec<Tree>),
+    Prod(Vec<Tree>),
+    Div(Box<Tree>, Box<Tree>),
+    Pow(Box<Tree>, Box<Tree>),
+    Der(Box<Tree>, String, u32),
+    Poly(Box<Tree>, Vec<(u32, f64)>),
+}
+
+fn interned(n: &str) -> InternedSymbol {
+    symb_interned(n)
+}
+
+/// Builds the node exactly as given, without any canonicalisation.
+pub fn build(t: &Tree) -> Expr {
+    let arcs = |v: &Vec<Tree>| v.iter().map(|x| Arc::new(build(x))).collect::<Vec<_>>();
+    match t {
+        Tree::Num(n) => Expr::new(ExprKind::Number(*n)),
+        Tree::Sym(s) => Expr::new(ExprKind::Symbol(interned(s))),
+        Tree::Fun(n, a) => Expr::new(ExprKind::FunctionCall { name: interned(n), args: arcs(a) }),
+        Tree::Sum(a) => Expr::new(ExprKind::Sum(arcs(a))),
+        Tree::Prod(a) => Expr::new(ExprKind::Product(arcs(a))),
+        Tree::Div(a, b) => Expr::new(ExprKind::Div(Arc::new(build(a)), Arc::new(build(b)))),
+        Tree::Pow(a, b) => Expr::new(ExprKind::Pow(Arc::new(build(a)), Arc::new(build(b)))),
+        Tree::Der(a, v, k) => Expr::new(ExprKind::Derivative {
+            inner: Arc::new(build(a)),
+            var: interned(v),
+            order: *k,
+        }),
+        Tree::Poly(b, terms) => {
+            let base = Arc::new(build(b));
+            let mut p = Polynomial::zero(Arc::clone(&base));
+            for &(k, c) in terms {
+                p = p.add(&Polynomial::term(Arc::clone(&base), k, c));
+            }
+            Expr::new(ExprKind::Poly(p))
+        }
+    }
+}
+
+fn name_of(s: &InternedSymbol) -> String {
+    s.as_str().to_owned()
+}
+
+pub fn view(e: &Expr) -> Tree {
+    let vs = |v: &Vec<Arc<Expr>>| v.iter().map(|x| view(x)).collect::<Vec<_>>();
+    match &e.kind {
+        ExprKind::Number(n) => Tree::Num(*n),
+        ExprKind::Symbol(s) => Tree::Sym(name_of(s)),
+        ExprKind::FunctionCall { name, args } => Tree::Fun(name_of(name), vs(args)),
+        ExprKind::Sum(a) => Tree::Sum(vs(a)),
+        ExprKind::Product(a) => Tree::Prod(vs(a)),
+        ExprKind::Div(a, b) => Tree::Div(Box::new(view(a)), Box::new(view(b))),
+        ExprKind::Pow(a, b) => Tree::Pow(Box::new(view(a)), Box::new(view(b))),
+        ExprKind::Derivative { inner, var, order } => {
+            Tree::Der(Box::new(view(inner)), name_of(var), *order)
+        }
+        ExprKind::Poly(p) => Tree::Poly(Box::new(view(p.base())), p.terms().to_vec()),
+    }
+}
+
+/// Name, domain flag, priority and number of target functions of every registered rule.
+pub fn rules() -> Vec<(String, bool, i32)> {
+    crate::simplification::engine::global_registry()
+        .rules
+        .iter()
+        .map(|r| (r.name().to_owned(), r.alters_domain(), r.priority()))
+        .collect()
+}
+
+/// Applies one rule (by index in `rules()`) to the expression, if it claims its kind.
+pub fn apply_rule(index: usize, e: &Expr, domain_safe: bool) -> Option<Expr> {
+    let reg = crate::simplification::engine::global_registry();
+    let r = reg.rules.get(index)?;
+    let kind = RuleKind::of(e);
+    if !r.applies_to().contains(&kind) {
+        return None;
+    }
+    if let ExprKind::FunctionCall { name, .. } = &e.kind {
+        let t = r.target_functions();
+        if !t.is_empty() && !t.contains(&name.id()) {
+            return None;
+        }
+    }
+    let ctx = RuleContext { depth: 0, domain_safe, custom_bodies: Arc::new(HashMap::new()) };
+    r.apply(&Arc::new(e.clone()), &ctx).map(|a| (*a).clone())
+}
+
+/// The function registry: numeric evaluator and symbolic derivative of one function.
+pub fn fn_eval(name: &str, args: &[f64]) -> Option<Option<f64>> {
+    Registry::get_by_symbol(&symb_interned(name)).map(|d| (d.eval)(args))
+}
+pub fn fn_derivative(name: &str, args: &[Expr], primes: &[Expr]) -> Option<Expr> {
+    let a: Vec<Arc<Expr>> = args.iter().map(|x| Arc::new(x.clone())).collect();
+    Registry::get_by_symbol(&symb_interned(name)).map(|d| (d.derivative)(&a, primes))
+}
+pub fn fn_names() -> Vec<(String, usize, usize)> {
+    crate::functions::definitions::all_definitions()
+        .into_iter()
+        .map(|d| (d.name.to_owned(), *d.arity.start(), *d.arity.end()))
+        .collect()
+}
+
+pub fn cmp(a: &Expr, b: &Expr) -> std::cmp::Ordering {
+    expr_cmp(a, b)
+}
+pub fn kind_hash(e: &Expr) -> (u64, u64) {
+    (e.hash, compute_expr_hash(&e.kind))
+}
+pub fn symbol_name_of_id(id: u64) -> Option<String> {
+    Some(ks::get_symbol(id).as_str().to_owned())
+}
+
+pub fn derive_raw(e: &Expr, var: &str) -> Expr {
+    e.derive_raw(var)
+}
+
+/// Polynomial operations on explicit coefficient lists over a base expression.
+pub fn poly(base: &Expr, terms: &[(u32, f64)]) -> Polynomial {
+    let b = Arc::new(base.clone());
+    let mut p = Polynomial::zero(Arc::clone(&b));
+    for &(k, c) in terms {
+        p = p.add(&Polynomial::term(Arc::clone(&b), k, c));
+    }
+    p
+}
+pub type PolyTerms = Vec<(u32, f64)>;
+pub fn poly_op(op: &str, base: &Expr, a: &[(u32, f64)], b: &[(u32, f64)]) -> Option<Vec<PolyTerms>> {
+    let p = poly(base, a);
+    let q = poly(base, b);
+    let t = |x: &Polynomial| x.terms().to_vec();
+    match op {
+        "add" => Some(vec![t(&p.add(&q))]),
+        "sub" => Some(vec![t(&p.sub(&q))]),
+        "mul" => Some(vec![t(&p.mul(&q))]),
+        "negate" => Some(vec![t(&p.negate())]),
+        "scale" => Some(vec![t(&p.scale(b.first().map_or(0.0, |x| x.1)))]),
+        "derivative" => Some(vec![t(&p.derivative())]),
+        "div_rem" => p.div_rem(&q).map(|(x, y)| vec![t(&x), t(&y)]),
+        "gcd" => p.gcd(&q).map(|g| vec![t(&g)]),
+        "monic" => Some(vec![t(&p.make_monic())]),
+        "tryadd" => {
+            let mut r = p.clone();
+            if r.try_add_assign(&q) { Some(vec![t(&r)]) } else { None }
+        }
+        _ => None,
+    }
+}
+pub fn poly_expr(op: &str, base: &Expr, a: &[(u32, f64)], var: &str) -> Expr {
+    let p = poly(base, a);
+    match op {
+        "to_expr" => p.to_expr(),
+        "derivative_expr" => p.derivative_expr(var),
+        "terms" => Expr::new(ExprKind::Sum(p.to_expr_terms().into_iter().map(Arc::new).collect())),
+        _ => Expr::new(ExprKind::Poly(p)),
+    }
+}
+pub fn poly_from_expr(e: &Expr) -> Option<(Tree, PolyTerms)> {
+    Polynomial::try_from_expr(e).map(|p| (view(p.base()), p.terms().to_vec()))
+}
-- 
2.43.0


From 5c0dd1150bb02b647403801354a0dec173cf5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 02/37] fix: erf for |x| > 2 (alternating Taylor series
 diverged numerically, erf(3.7) = -1.23)

---
 src/math/special.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..b05ad47 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -2,10 +2,12 @@ use crate::core::traits::MathScalar;
 
 /// Error function erf(x) = (2/√π) ∫₀ˣ e^(-t²) dt
 ///
-/// Uses Taylor series expansion: erf(x) = (2/√π) Σₙ (-1)ⁿ x^(2n+1) / (n!(2n+1))
-/// with Kahan summation for numerical stability.
+/// Uses the Taylor series erf(x) = (2/√π) Σₙ (-1)ⁿ x^(2n+1) / (n!(2n+1)) with Kahan
+/// summation for small |x|, the non-alternating series
+/// erf(x) = (2/√π) e^(-x²) Σₙ 2ⁿ x^(2n+1) / (2n+1)!! for moderate |x| (where the Taylor
+/// series cancels catastrophically), and ±1 once 1 - |erf(x)| is below machine precision.
 ///
-/// Reference: DLMF §7.6.1 <https://dlmf.nist.gov/7.6#E1>
+/// Reference: DLMF §7.6.1, §7.6.2 <https://dlmf.nist.gov/7.6>
 pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let sign = x.signum();
     let x = x.abs();
@@ -15,6 +17,23 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
     let coeff = two / sqrt_pi;
 
+    if x > two {
+        // 1 - erf(6) ≈ 2.2e-17
+        if x > T::from_f64(6.0).expect("Failed to convert mathematical constant 6.0") {
+            return sign;
+        }
+        let mut sum = T::zero();
+        let mut term = x;
+        let mut n = 0;
+        while n < 200 && term > sum * T::epsilon() {
+            sum += term;
+            n += 1;
+            term *= two * x * x
+                / T::from_usize(2 * n + 1).expect("Failed to convert small integer to float");
+        }
+        return sign * coeff * (-x * x).exp() * sum;
+    }
+
     let mut sum = T::zero();
     let mut compensation = T::zero(); // Kahan summation
     let mut factorial = T::one();
-- 
2.43.0


From 4601eba56ed106b371c6b7a8af8abc375e5ecf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 03/37] fix: tetragamma used a wrong asymptotic expansion
 (tetragamma(2) off by 2.5%)

---
 src/math/special.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index b05ad47..6fdf048 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -194,25 +194,11 @@ pub fn eval_trigamma<T: MathScalar>(x: T) -> Option<T> {
 
 /// Tetragamma function ψ₂(x) = d³/dx³ ln(Γ(x))
 ///
-/// Uses asymptotic expansion with recurrence for small x.
+/// Computed as the polygamma function of order 2.
 ///
 /// Reference: DLMF §5.15 <https://dlmf.nist.gov/5.15>
 pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
-    if x <= T::zero() && x.fract() == T::zero() {
-        return None;
-    }
-    let mut xv = x;
-    let mut r = T::zero();
-    let six = T::from(6.0).expect("Failed to convert mathematical constant");
-    let one = T::one();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-
-    while xv < six {
-        r -= two / (xv * xv * xv);
-        xv += one;
-    }
-    let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    eval_polygamma(2, x)
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
-- 
2.43.0


From d3aeee207ec622db44b39d9e90447beecff046dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 04/37] fix: sign of the Euler-Maclaurin boundary term in
 zeta(s) for 1 < s <= 1.5

---
 src/math/special.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 6fdf048..cf73329 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -259,7 +259,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         // Integral approximation: ∫[N,∞] 1/t^s dt = N^(1-s)/(s-1)
         let em_integral = n_pow_1_minus_x / (x - one);
 
-        // Boundary correction: 1/(2N^s)
+        // Boundary correction: -1/(2N^s) (the direct sum includes the full k = N term)
         let em_boundary = T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
 
         // Bernoulli corrections (improving convergence)
@@ -274,7 +274,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
             / (T::from(720.0).expect("Failed to convert mathematical constant")
                 * n.powf(x + T::from(3.0).expect("Failed to convert mathematical constant")));
 
-        Some(sum + em_integral + em_boundary + b2_correction + b4_correction)
+        Some(sum + em_integral - em_boundary + b2_correction + b4_correction)
     } else {
         // For s > 1.5 OR 0 <= s < 1: Use Borwein's Algorithm 2
         // Borwein is globally convergent (except pole).
-- 
2.43.0


From c89032e6f03095a4935fafb8e6503d59fb2ac6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 05/37] fix: zeta derivative for s > 1 dropped the tail of a
 slowly converging series

---
 src/math/special.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/math/special.rs b/src/math/special.rs
index cf73329..3eda910 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -432,6 +432,25 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
             }
         }
 
+        // Euler-Maclaurin tail for f(t) = [ln(t)]^n / t^x beyond N = max_terms:
+        // ∫[N,∞] f dt - f(N)/2 - f'(N)/12, with ∫ f obtained by repeated integration by parts
+        let two = T::from_f64(2.0).expect("Failed to convert constant 2.0");
+        let twelve = T::from_f64(12.0).expect("Failed to convert constant 12.0");
+        let n_max = T::from(max_terms).expect("Failed to convert mathematical constant");
+        let n_t = T::from(n).expect("Failed to convert mathematical constant");
+        let ln_n = n_max.ln();
+        let mut integral = n_max.powf(one - x) / (x - one);
+        let mut ln_pow = one;
+        for j in 1..=n {
+            let j_t = T::from(j).expect("Failed to convert mathematical constant");
+            ln_pow *= ln_n;
+            integral = (n_max.powf(one - x) * ln_pow + j_t * integral) / (x - one);
+        }
+        let n_pow = n_max.powf(-x);
+        let f_n = ln_pow * n_pow;
+        let df_n = (n_t * ln_pow / ln_n - x * ln_pow) * n_pow / n_max;
+        sum += integral - f_n / two - df_n / twelve;
+
         // Apply sign: (-1)^n
         let sign = if n % 2 == 0 { one } else { -one };
         Some(sign * sum)
-- 
2.43.0


From 771411b2ff21c2ce670e9aa9d4ebae01386acfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 06/37] fix: complete elliptic integral E(k) weighted the AGM
 differences by half

---
 src/math/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 3444930..69683b0 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -54,7 +54,7 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
 
     let k2 = k * k;
     let mut sum = one - k2 / T::from(2.0).expect("Failed to convert mathematical constant");
-    let mut pow2 = T::from(0.5).expect("Failed to convert mathematical constant");
+    let mut pow2 = one;
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let tolerance = T::from(1e-15).expect("Failed to convert mathematical constant");
 
-- 
2.43.0


From d265f698ce05a03aa2580491e1dc5e7491cef363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 07/37] fix: modified Bessel I_n (n >= 2) normalised by cosh(x)
 instead of I_0(x)

---
 src/math/bessel.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index da5146a..c663dd1 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -470,7 +470,7 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     let mut i_next = T::zero(); // I_{k+1}
     let mut i_curr = T::from(1e-30).expect("Failed to convert mathematical constant"); // I_k (small nonzero to avoid underflow)
     let mut result = T::zero();
-    let mut sum = T::zero(); // For normalization: sum = I_0 + 2*(I_2 + I_4 + ...)
+    let mut computed_i0 = T::one(); // For normalization
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
     // Backward recurrence
@@ -483,11 +483,9 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
             result = i_curr;
         }
 
-        // Accumulate for normalization (using I_0 + 2*sum of even terms)
+        // Computed (unnormalized) I_0
         if k == 0 {
-            sum += i_curr;
-        } else if k % 2 == 0 {
-            sum += two * i_curr;
+            computed_i0 = i_curr;
         }
 
         i_next = i_curr;
@@ -496,9 +494,8 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     }
 
     // Normalize: actual I_n = result * I_0(x) / computed_I_0
-    // The sum approximates I_0 when properly normalized
     let i0_actual = bessel_i0(x);
-    let scale = i0_actual / sum;
+    let scale = i0_actual / computed_i0;
 
     result * scale
 }
-- 
2.43.0


From a34a35a50b4b38d26adf1b1edbe33ab2b318fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 08/37] fix: modified Bessel K_1 used ln(x) instead of ln(x/2)
 for x <= 2

---
 src/math/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index c663dd1..8a3d99e 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -683,7 +683,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         let four = T::from(4.0).expect("Failed to convert mathematical constant");
         let y = x * x / four;
 
-        let term1 = x.ln() * bessel_i1(x);
+        let term1 = (x / two).ln() * bessel_i1(x);
         let term2 = T::one() / x;
 
         let poly = eval_poly_horner(y, &COEFFS);
-- 
2.43.0


From 0b3a6ce1ab416ba901fa7b9ddd59f009b2fa9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 09/37] fix: spurious last coefficient in the large-x
 expansions of K_0 and K_1

---
 src/math/bessel.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 8a3d99e..0c62e06 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -627,7 +627,7 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.000_007_4,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         -0.078_323_58,
         0.021_895_68,
@@ -635,7 +635,6 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.005_878_72,
         -0.002_515_40,
         0.000_532_08,
-        -0.000_025_200,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -667,7 +666,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.000_046_86,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         0.234_986_19,
         -0.036_556_20,
@@ -675,7 +674,6 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.007_803_53,
         0.003_256_14,
         -0.000_682_45,
-        0.000_031_6,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-- 
2.43.0


From 7bc1e42faa1f2c989ebcb216709797727cdc8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 10/37] fix: sign of the last J_0/Y_0 asymptotic coefficient
 for |x| >= 8

---
 src/math/bessel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 0c62e06..bdf0491 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -182,7 +182,7 @@ pub fn bessel_j0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_935_152e-7,
     ];
 
     let ax = x.abs();
@@ -338,7 +338,7 @@ pub fn bessel_y0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_935_152e-7,
     ];
 
     let eight = T::from(8.0).expect("Failed to convert mathematical constant");
-- 
2.43.0


From f3e1b9211043bd4c26c6931d290fbbc5d643e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 11/37] fix: associated Legendre functions and spherical
 harmonics of negative order

---
 src/math/polynomials.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index c381521..ebb0016 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -41,6 +41,15 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
         // Standard impl assumes -1 <= x <= 1
         return None;
     }
+    if m < 0 {
+        // P_l^{-m} = (-1)^m (l-m)!/(l+m)! P_l^m
+        let m_pos = -m;
+        let mut scale = if m_pos % 2 == 0 { T::one() } else { -T::one() };
+        for i in (l - m_pos + 1)..=(l + m_pos) {
+            scale /= T::from(i).expect("Failed to convert mathematical constant");
+        }
+        return Some(scale * eval_assoc_legendre(l, m_pos, x)?);
+    }
     let m_abs = m.abs();
     let mut pmm = T::one();
     let one = T::one();
@@ -95,16 +104,15 @@ pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T)
     }
     let cos_theta = theta.cos();
     let plm = eval_assoc_legendre(l, m, cos_theta)?;
-    let m_abs = m.abs();
 
     // Factorials
     let mut fact_lm = T::one();
-    for i in 1..=(l - m_abs) {
+    for i in 1..=(l - m) {
         fact_lm *= T::from(i).expect("Failed to convert mathematical constant");
     }
 
     let mut fact_lplusm = T::one();
-    for i in 1..=(l + m_abs) {
+    for i in 1..=(l + m) {
         fact_lplusm *= T::from(i).expect("Failed to convert mathematical constant");
     }
 
-- 
2.43.0


From 86950ff30c3788d561b2b759729f4c9f3f5cb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 12/37] fix: Dual::powf gave NaN for a negative base with a
 constant exponent

---
 src/math/dual.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..527b2bb 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -408,8 +408,17 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        // d(x^y) = y * x^(y-1) * dx + x^y * ln(x) * dy, with the terms of constant
+        // operands left out so that x <= 0 works for a constant exponent
+        let val = self.val.powf(n.val);
+        let mut eps = T::zero();
+        if self.eps != T::zero() && n.val != T::zero() {
+            eps += self.eps * n.val * self.val.powf(n.val - T::one());
+        }
+        if n.eps != T::zero() {
+            eps += n.eps * val * self.val.ln();
+        }
+        Self::new(val, eps)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From 885fdba3f9b599647d8184d20567e75838e979db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 13/37] fix: Dual::powi(0) at 0 gave a NaN derivative and
 powi(i32::MIN) overflowed

---
 src/math/dual.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 527b2bb..72f3202 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -401,9 +401,12 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powi(self, n: i32) -> Self {
+        if n == 0 {
+            return Self::new(T::one(), T::zero());
+        }
         let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
-        let val_pow_minus_1 = self.val.powi(n - 1);
+        let val_pow_minus_1 = self.val.powi(n.saturating_sub(1));
         Self::new(val_pow, self.eps * n_t * val_pow_minus_1)
     }
 
-- 
2.43.0


From 5b4f735b8189a1812f0699060c31c3098f9ea35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 14/37] fix: 3*pi/2 and multiple-of-2*pi recognition ignored
 extra factors (sin(3*pi*x/2 - y) became -cos(y))

---
 src/simplification/helpers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 3f9f121..b28421e 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -50,7 +50,7 @@ pub fn is_multiple_of_two_pi(expr: &Expr) -> bool {
         for f in factors {
             match &f.kind {
                 ExprKind::Number(n) => num_coeff = Some(num_coeff.unwrap_or(1.0) * n),
-                ExprKind::Symbol(s) if s.id() == ks::KS.pi => has_pi = true,
+                ExprKind::Symbol(s) if !has_pi && s.id() == ks::KS.pi => has_pi = true,
                 _ => return false,
             }
         }
@@ -88,8 +88,11 @@ pub fn is_three_pi_over_two(expr: &Expr) -> bool {
         && let ExprKind::Number(d) = &den.kind
         && (*d - 2.0).abs() < EPSILON
     {
-        // Check if numerator is 3*pi
+        // Check if numerator is exactly 3*pi (no further factors)
         if let ExprKind::Product(factors) = &num.kind {
+            if factors.len() != 2 {
+                return false;
+            }
             let mut has_three = false;
             let mut has_pi = false;
             for f in factors {
-- 
2.43.0


From ba2e8717911eac6312f1f433964555e80ff4be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:43 +0000
Subject: [PATCH 15/37] fix: domain-safe mode still rewrote roots and powers as
 if their bases were positive (sqrt(x^6) -> x^3, cbrt(x)^2 -> x^(2/3),
 sqrt(x/y) -> sqrt(x)/sqrt(y))

---
 src/simplification/helpers.rs                 |  6 ++++
 .../rules/algebraic/expansion.rs              |  4 ++-
 src/simplification/rules/algebraic/powers.rs  | 24 +++++++++++++--
 src/simplification/rules/root/mod.rs          | 30 ++++++++++++++++---
 4 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index b28421e..19bdefd 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -539,6 +539,12 @@ pub fn is_fractional_root_exponent(expr: &Expr) -> bool {
     }
 }
 
+/// Check if an expression is an integer number.
+/// Powers with an integer exponent distribute over products and quotients whatever the signs.
+pub fn is_integer_number(expr: &Expr) -> bool {
+    matches!(expr.kind, ExprKind::Number(n) if n.fract() == 0.0)
+}
+
 // Compute greatest common divisor using Euclid's algorithm.
 /// Used for rational number simplification in algebraic rules.
 pub const fn gcd(a: i64, b: i64) -> i64 {
diff --git a/src/simplification/rules/algebraic/expansion.rs b/src/simplification/rules/algebraic/expansion.rs
index afdf456..ba99396 100644
--- a/src/simplification/rules/algebraic/expansion.rs
+++ b/src/simplification/rules/algebraic/expansion.rs
@@ -9,7 +9,7 @@ rule!(
     92,
     Algebraic,
     &[ExprKind::Div],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Div(num, den) = &expr.kind {
             // Helper to check if a factor is present in an expression
             let contains_factor = |e: &Expr, factor: &Expr| -> bool {
@@ -23,6 +23,8 @@ rule!(
             let check_and_expand = |target: &Expr, other: &Expr| -> Option<Expr> {
                 if let AstKind::Pow(base, exp) = &target.kind
                     && let AstKind::Product(base_factors) = &base.kind
+                    && (!context.domain_safe
+                        || crate::simplification::helpers::is_integer_number(exp))
                 {
                     // Check if any base factor is present in 'other'
                     let mut useful = false;
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..560e706 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -45,7 +45,7 @@ rule!(
     75,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(u, v) = &expr.kind
             && let AstKind::Pow(base, exp_inner) = &u.kind
         {
@@ -93,6 +93,18 @@ rule!(
                 }
             }
 
+            // (x^a)^b = x^(a*b) holds for every real x only if b is an integer or x^a does not
+            // hide the sign of x (a is a number other than an even integer)
+            if context.domain_safe && !crate::simplification::helpers::is_integer_number(v) {
+                let hides_sign = match &exp_inner.kind {
+                    AstKind::Number(n) => n % 2.0 == 0.0,
+                    _ => true,
+                };
+                if hides_sign && !crate::simplification::helpers::is_known_non_negative(base) {
+                    return None;
+                }
+            }
+
             // Create new exponent: exp_inner * v using Product
             let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
 
@@ -463,10 +475,18 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
         {
+            // (a/b)^r with a fractional r exists for a < 0, b < 0, where a^r and b^r do not
+            if context.domain_safe
+                && !crate::simplification::helpers::is_integer_number(exp)
+                && !crate::simplification::helpers::is_known_non_negative(den)
+            {
+                return None;
+            }
+
             let is_root_exponent = match &exp.kind {
                 AstKind::Div(n, d) => {
                     // Exact check for 1/n root exponent
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..fe37fea 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,6 +1,7 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
@@ -10,7 +11,7 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.sqrt
             && args.len() == 1
@@ -27,6 +28,15 @@ rule!(
                 }
             }
 
+            // sqrt(x^n) = x^(n/2) loses the sign of x when n is even but n/2 is not
+            if context.domain_safe && !is_known_non_negative(base) {
+                let keeps_value =
+                    matches!(exp.kind, AstKind::Number(n) if n % 2.0 != 0.0 || n % 4.0 == 0.0);
+                if !keeps_value {
+                    return None;
+                }
+            }
+
             // Create new exponent: exp / 2
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(2.0));
 
@@ -72,12 +82,21 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
+            // cbrt(x^n) is real for x < 0, x^(n/3) only if n/3 is an integer
+            if context.domain_safe && !is_known_non_negative(base) {
+                let keeps_value =
+                    matches!(exp.kind, AstKind::Number(n) if n.fract() != 0.0 || n % 3.0 == 0.0);
+                if !keeps_value {
+                    return None;
+                }
+            }
+
             // Create new exponent: exp / 3
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(3.0));
 
@@ -190,7 +209,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -199,7 +218,10 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt
+                // cbrt(x) is real for x < 0, x^(1/3) is not
+                && (!context.domain_safe || is_known_non_negative(&args[0]))
+            {
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
-- 
2.43.0


From 89d9bf6a18504042e8c92a6f0a496f99991d3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 16/37] fix: (e^-x - e^x)/2 was recognised as sinh(x), losing
 the sign (also csch and tanh)

---
 src/simplification/rules/hyperbolic/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..7711a10 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,7 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches (sinh is odd, so the sign of x is kept)
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +191,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(exp1.arg);
     }
     None
 }
-- 
2.43.0


From 21962b8ab5bc8d4da3de708c2bfefbfadfbf1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 17/37] fix: fraction cancellation turned a huge coefficient
 ratio into 1/0

---
 src/simplification/rules/algebraic/factoring.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..a3b84f6 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -128,7 +128,11 @@ impl Rule for FractionCancellationRule {
                 den_coeff = 1.0;
             } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
                 let inv = (1.0 / ratio).round();
-                if inv < 0.0 {
+                if inv == 0.0 {
+                    // A ratio too large to have an integer reciprocal: keep it as it is
+                    num_coeff = ratio;
+                    den_coeff = 1.0;
+                } else if inv < 0.0 {
                     num_coeff = -1.0;
                     den_coeff = -inv;
                 } else {
-- 
2.43.0


From bbaa3f339812effcedc75532b1493989f6609b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 18/37] fix: fraction cancellation replaced an expression over
 a large constant by 0 ((1 + x)/1e15 -> 0)

---
 src/simplification/rules/algebraic/factoring.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index a3b84f6..8e5c5da 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -119,11 +119,12 @@ impl Rule for FractionCancellationRule {
 
             // Simplify coefficients
             let ratio = num_coeff / den_coeff;
-            if ratio.abs() < EPSILON {
+            // A numerator divided by a large number is small, but not zero
+            if ratio.abs() < EPSILON && num_coeff.abs() < EPSILON {
                 return Some(Arc::new(Expr::number(0.0)));
             }
 
-            if (ratio - ratio.round()).abs() < EPSILON {
+            if (ratio - ratio.round()).abs() < EPSILON && ratio.abs() > 0.5 {
                 num_coeff = ratio.round();
                 den_coeff = 1.0;
             } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
-- 
2.43.0


From a646c0d1bb11ae30d526395d40521603b86c9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 19/37] fix: partial derivatives of user functions were ignored
 inside polynomials (f(x)^2 + 3*f(x) + 1)

---
 src/core/poly.rs   | 30 ++++++++++++------------------
 src/diff/engine.rs |  4 +++-
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..02f00dc 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -637,25 +637,19 @@ impl Polynomial {
 
     /// Differentiate with respect to a variable (chain rule)
     pub fn derivative_expr(&self, diff_var: &str) -> Expr {
-        // Get polynomial derivative
-        let poly_deriv = self.derivative();
-        let poly_expr = poly_deriv.to_expr();
-
-        // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
-            // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
-
-            if u_prime.is_zero_num() {
-                Expr::number(0.0)
-            } else if u_prime.is_one_num() {
-                poly_expr
-            } else {
-                Expr::product(vec![poly_expr, u_prime])
-            }
+        self.derivative_with_base(&self.base.derive_raw(diff_var))
+    }
+
+    /// Chain rule: d/dx[P(u)] = P'(u) * u', given the derivative `u'` of the base
+    pub fn derivative_with_base(&self, base_prime: &Expr) -> Expr {
+        if base_prime.is_zero_num() {
+            return Expr::number(0.0);
+        }
+        let poly_expr = self.derivative().to_expr();
+        if base_prime.is_one_num() {
+            poly_expr
         } else {
-            // Base doesn't contain diff_var, derivative is 0
-            Expr::number(0.0)
+            Expr::product(vec![poly_expr, base_prime.clone()])
         }
     }
 
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..3d9b335 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -434,7 +434,9 @@ impl Expr {
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => {
+                poly.derivative_with_base(&poly.base().derive_impl(var, var_id, ctx))
+            }
         }
     }
 
-- 
2.43.0


From cb3fbcd222b5dac2a683eb7a76ca1bf5d7fe307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 20/37] fix: compiled acot uses the same branch as the function
 registry for negative arguments

---
 src/evaluator/compiler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..45bb8d9 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1288,9 +1288,13 @@ impl<'ctx> Compiler<'ctx> {
             self.emit(Instruction::Sin);
             Instruction::Recip
         } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
+            // acot(x) = atan2(1, x), the (0, π) branch used by the function registry
+            let idx = self.add_const(1.0);
+            self.emit(Instruction::LoadConst(idx));
+            self.push()?;
+            self.emit(Instruction::Swap);
+            self.pop();
+            Instruction::Atan2
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From c55a14990266df3f38cb7b28a3c3af4af09550b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 21/37] fix: reserve the whole SIMD stack in a caller-supplied
 buffer

---
 src/evaluator/simd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..9e09913 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,7 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                buf.reserve(self.stack_size);
                 buf
             }
             None => {
-- 
2.43.0


From 50069d92f95c34e03a270acb1b4635f43496f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 22/37] fix: declare the stack depth of the optimized program

---
 src/evaluator/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..ec0a579 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -244,11 +244,15 @@ impl CompiledEvaluator {
         let optimized_instructions =
             Self::optimize_instructions(instructions, &mut constants, &mut cache_size);
 
+        // Fusion moves a load in front of the multiplication it is fused with, so the
+        // depth has to be that of the optimized program.
+        let stack_size = max_stack.max(Self::stack_depth(&optimized_instructions));
+
         Ok(Self {
             instructions: optimized_instructions.into_boxed_slice(),
             constants: constants.into_boxed_slice(),
             param_names: param_names.into_boxed_slice(),
-            stack_size: max_stack,
+            stack_size,
             param_count,
             cache_size,
             simd_constants: OnceLock::new(),
@@ -329,6 +333,17 @@ impl CompiledEvaluator {
         instructions
     }
 
+    /// Largest stack depth reached while running `instructions` from an empty stack.
+    fn stack_depth(instructions: &[Instruction]) -> usize {
+        let mut depth = 0_usize;
+        let mut deepest = 0_usize;
+        for instr in instructions {
+            depth = depth.saturating_add_signed(instr.stack_effect() as isize);
+            deepest = deepest.max(depth);
+        }
+        deepest
+    }
+
     /// Deduplicate constant pool to reduce memory usage and improve cache hits.
     fn deduplicate_constants(instructions: &mut [Instruction], constants: &mut Vec<f64>) {
         use std::collections::HashMap;
-- 
2.43.0


From 550452acefe658d0532663f54c73d85a1e2f0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 23/37] fix: peephole patterns for cubes and reloaded cache
 slots keep the stack contents

---
 src/evaluator/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index ec0a579..2f14ee8 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -532,8 +532,8 @@ impl CompiledEvaluator {
                     }
 
                     match (instructions[i], instructions[i + 1], instructions[i + 2]) {
-                        // x * x * x → Cube
-                        (Instruction::Dup, Instruction::Mul, Instruction::Mul) => {
+                        // x * (x * x) → Cube
+                        (Instruction::Dup, Instruction::Square, Instruction::Mul) => {
                             result.push(Instruction::Cube);
                             i += 3;
                             changed = true;
@@ -768,9 +768,9 @@ impl CompiledEvaluator {
                                 matched = false;
                             }
                         }
-                        // LoadCached(s) + StoreCached(s) → Dup
+                        // LoadCached(s) + StoreCached(s) → LoadCached(s)
                         (Instruction::LoadCached(s1), Instruction::StoreCached(s2)) if s1 == s2 => {
-                            result.push(Instruction::Dup);
+                            result.push(Instruction::LoadCached(s1));
                         }
                         // Square + Sqrt → Abs
                         (Instruction::Square, Instruction::Sqrt) => {
-- 
2.43.0


From cac21ef63940c9ce003b7c6fc378f459717abd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 24/37] fix: evaluation keeps a derivative's bound variable,
 mapping reaches polynomial bases

---
 src/core/expr/analysis.rs |  6 ++++--
 src/core/expr/evaluate.rs | 24 +++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..a282479 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -400,8 +400,10 @@ impl Expr {
                 Self::derivative(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
-                // Poly is opaque for mapping - just clone
-                Self::new(ExprKind::Poly(poly.clone()))
+                // Powers and coefficients are literal: only the base can hold mapped nodes
+                let mut mapped = poly.clone();
+                mapped.set_base(Arc::new(poly.base().map(f)));
+                Self::poly(mapped)
             }
         };
         f(&transformed)
diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 8663483..bb5c9b4 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -54,6 +54,23 @@ impl VarLookup for () {
     }
 }
 
+/// Lookup that hides one symbol: the variable bound by a derivative keeps its
+/// symbolic meaning while the surrounding variables are substituted.
+struct MaskedLookup<'a> {
+    inner: &'a dyn VarLookup,
+    hidden: u64,
+}
+
+impl VarLookup for MaskedLookup<'_> {
+    #[inline]
+    fn get_value(&self, symbol: &InternedSymbol) -> Option<f64> {
+        if symbol.id() == self.hidden {
+            return None;
+        }
+        self.inner.get_value(symbol)
+    }
+}
+
 impl Expr {
     /// Evaluate expression by substituting known variable values.
     ///
@@ -234,7 +251,12 @@ impl Expr {
                 }
             }
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.evaluate(vars, custom_evals), var.clone(), *order)
+                // d/dx f(x) is not the derivative of f at a fixed x: keep the bound variable symbolic
+                let masked = MaskedLookup {
+                    inner: vars,
+                    hidden: var.id(),
+                };
+                Self::derivative(inner.evaluate(&masked, custom_evals), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
                 let base_result = poly.base().evaluate(vars, custom_evals);
-- 
2.43.0


From b50fe6007547e2ebb07f8b3418db40effe2591b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 25/37] fix: removed symbols leave no stale cached identities;
 built-in names outlive removal

---
 src/core/known_symbols.rs   |  6 +--
 src/core/symbol/mod.rs      |  2 +-
 src/core/symbol/registry.rs | 76 +++++++++++++++++++++++++++++++------
 src/functions/registry.rs   |  4 +-
 4 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/src/core/known_symbols.rs b/src/core/known_symbols.rs
index 67fde8c..96b869c 100644
--- a/src/core/known_symbols.rs
+++ b/src/core/known_symbols.rs
@@ -3,12 +3,12 @@
 //! This module provides lazily-initialized symbol IDs for common function names.
 //! Comparison is O(1) - just a u64 integer comparison.
 
-use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
+use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_builtin};
 use std::sync::LazyLock;
 
 /// Get the ID for an interned symbol (helper for the macro)
-fn intern_id(name: &str) -> u64 {
-    symb_interned(name).id()
+fn intern_id(name: &'static str) -> u64 {
+    symb_builtin(name).id()
 }
 
 /// Collection of pre-interned symbol IDs for all built-in mathematical functions.
diff --git a/src/core/symbol/mod.rs b/src/core/symbol/mod.rs
index 97a3484..22aacc9 100644
--- a/src/core/symbol/mod.rs
+++ b/src/core/symbol/mod.rs
@@ -36,7 +36,7 @@ pub use registry::{
 };
 
 // Internal re-exports for crate use only
-pub use registry::{lookup_by_id, symb_interned};
+pub use registry::{lookup_by_id, symb_builtin, symb_interned};
 
 use std::sync::Arc;
 
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 1a887ac..cad2d5d 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,9 +4,10 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
-use rustc_hash::{FxHashMap, FxHasher};
+use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
 use std::hash::Hasher;
 
@@ -68,6 +69,9 @@ struct SymbolRegistry {
     shards: [Mutex<RegistryShard>; NUM_SHARDS],
     /// ID -> Symbol mapping using `SlotMap` for memory efficiency and safe key generation
     id_to_data: RwLock<SlotMap<DefaultKey, InternedSymbol>>,
+    /// Names of built-in functions and constants. The library holds on to their IDs,
+    /// so they outlive removal and clearing.
+    reserved: RwLock<FxHashSet<&'static str>>,
 }
 
 impl SymbolRegistry {
@@ -82,9 +86,17 @@ impl SymbolRegistry {
         Self {
             shards,
             id_to_data: RwLock::new(SlotMap::with_key()),
+            reserved: RwLock::new(FxHashSet::default()),
         }
     }
 
+    fn is_reserved(&self, name: &str) -> bool {
+        self.reserved
+            .read()
+            .expect("Reserved names lock poisoned")
+            .contains(name)
+    }
+
     /// # Panics
     ///
     /// Panics if the global registry hash cannot be computed.
@@ -104,11 +116,17 @@ impl SymbolRegistry {
     }
 }
 
+/// Bumped whenever symbols are removed, so that every thread drops its caches.
+static REMOVALS: AtomicU64 = AtomicU64::new(0);
+
 /// Global registry for symbols
 static REGISTRY: std::sync::LazyLock<SymbolRegistry> =
     std::sync::LazyLock::new(SymbolRegistry::new);
 
 thread_local! {
+    // Value of `REMOVALS` the caches of this thread were filled under
+    static CACHE_EPOCH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
+
     // Thread-local cache to avoid global lock contention on frequently accessed symbols
     static ID_CACHE: std::cell::RefCell<FxHashMap<DefaultKey, InternedSymbol>> = std::cell::RefCell::new(FxHashMap::default());
 
@@ -116,6 +134,16 @@ thread_local! {
     static NAME_CACHE: std::cell::RefCell<FxHashMap<String, Symbol>> = std::cell::RefCell::new(FxHashMap::default());
 }
 
+/// Drop this thread's caches if symbols were removed (by any thread) since they were filled.
+#[inline]
+fn refresh_caches() {
+    let current = REMOVALS.load(Ordering::Acquire);
+    if CACHE_EPOCH.with(|epoch| epoch.replace(current)) != current {
+        ID_CACHE.with(|cache| cache.borrow_mut().clear());
+        NAME_CACHE.with(|cache| cache.borrow_mut().clear());
+    }
+}
+
 /// Look up `InternedSymbol` by its u64 ID.
 ///
 /// # Panics
@@ -123,6 +151,7 @@ thread_local! {
 /// Panics if the global ID registry lock is poisoned.
 pub fn lookup_by_id(id: u64) -> Option<InternedSymbol> {
     let key = key_from_id(id);
+    refresh_caches();
 
     // Try TLS cache first to avoid RwLock contention
     if let Some(s) = ID_CACHE.with(|cache| cache.borrow().get(&key).cloned()) {
@@ -221,6 +250,8 @@ pub fn symbol_exists(name: &str) -> bool {
 /// Panics if any global registry lock is poisoned.
 #[must_use]
 pub fn symb(name: &str) -> Symbol {
+    refresh_caches();
+
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
     if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
         return sym;
@@ -270,9 +301,20 @@ pub fn symb_interned(name: &str) -> InternedSymbol {
     lookup_by_id(symbol.id()).expect("Just-created symbol should always be found")
 }
 
+/// Get or create the interned symbol of a built-in name, and keep it for the life of the process.
+pub fn symb_builtin(name: &'static str) -> InternedSymbol {
+    REGISTRY
+        .reserved
+        .write()
+        .expect("Reserved names lock poisoned")
+        .insert(name);
+    symb_interned(name)
+}
+
 /// Remove a symbol from the global registry
 ///
 /// Returns `true` if the symbol existed and was removed, `false` otherwise.
+/// Names of built-in functions and constants are never removed.
 ///
 /// # Panics
 ///
@@ -283,40 +325,50 @@ pub fn remove_symbol(name: &str) -> bool {
         .lock()
         .expect("Global symbol registry shard poisoned");
 
+    if REGISTRY.is_reserved(name) {
+        return false;
+    }
+
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
         // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
         drop(shard);
-        REGISTRY
+        let removed = REGISTRY
             .id_to_data
             .write()
             .expect("Global ID registry poisoned")
             .remove(key)
-            .is_some()
+            .is_some();
+        // Cached copies of the name and of the ID are stale now, on every thread
+        REMOVALS.fetch_add(1, Ordering::Release);
+        removed
     })
 }
 
-/// Clear all symbols from the global registry
+/// Clear all symbols from the global registry, except built-in functions and constants
 ///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn clear_symbols() {
-    // Clear TLS caches first
-    ID_CACHE.with(|cache| cache.borrow_mut().clear());
-    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
-
+    let mut kept = FxHashSet::default();
     for shard_lock in &REGISTRY.shards {
         let mut shard = shard_lock
             .lock()
             .expect("Global symbol registry shard poisoned");
-        shard.name_to_symbol_key.clear();
+        shard
+            .name_to_symbol_key
+            .retain(|name, _| REGISTRY.is_reserved(name));
+        kept.extend(shard.name_to_symbol_key.values().copied());
     }
 
-    let mut id_data = REGISTRY
+    REGISTRY
         .id_to_data
         .write()
-        .expect("Global ID registry poisoned");
-    id_data.clear();
+        .expect("Global ID registry poisoned")
+        .retain(|key, _| kept.contains(&key));
+
+    // Cached names and IDs are stale now, on every thread
+    REMOVALS.fetch_add(1, Ordering::Release);
 }
 
 /// Get the number of registered symbols
diff --git a/src/functions/registry.rs b/src/functions/registry.rs
index fbfd850..e27a379 100644
--- a/src/functions/registry.rs
+++ b/src/functions/registry.rs
@@ -33,7 +33,7 @@ impl FunctionDefinition {
     }
 }
 
-use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::core::symbol::{InternedSymbol, symb_builtin};
 
 /// Static registry storing all function definitions
 /// Maps symbol ID -> `FunctionDefinition` for fast O(1) lookup
@@ -46,7 +46,7 @@ fn init_registry() -> HashMap<u64, FunctionDefinition> {
     // Populate from definitions
     for def in crate::functions::definitions::all_definitions() {
         // Intern the name to get its ID
-        let sym = symb_interned(def.name);
+        let sym = symb_builtin(def.name);
         map.insert(sym.id(), def);
     }
 
-- 
2.43.0


From e6dc0be7266a60190a71f0246f9afcd6f7eb3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 26/37] fix: elliptic_e(1) is 1

---
 src/math/elliptic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 69683b0..ec601e5 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -49,6 +49,10 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
     if k.abs() > one {
         return Some(T::nan());
     }
+    if k.abs() == one {
+        // AGM(1, 0) = 0: the quotient below is 0/0 in the limit, E(1) = 1
+        return Some(one);
+    }
     let mut a = one;
     let mut b = (one - k * k).sqrt();
 
-- 
2.43.0


From 7039e8bc73cc7fa8f7edfe6af3f9e439256ebce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 27/37] fix: printing keeps every factor after a double
 negative and parenthesizes power and derivative bases

---
 src/core/display.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index f33f6ee..cf6ade6 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -191,7 +191,12 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
 /// Helper for Power base parenthesis
 fn needs_parens_as_base(expr: &Expr) -> bool {
     match &expr.kind {
-        ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Div(_, _) | ExprKind::Poly(_) => true,
+        ExprKind::Sum(_)
+        | ExprKind::Product(_)
+        | ExprKind::Div(_, _)
+        | ExprKind::Pow(_, _) // (x^y)^z: a bare x^y^z reads as x^(y^z)
+        | ExprKind::Derivative { .. }
+        | ExprKind::Poly(_) => true,
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
         _ => false,
     }
@@ -433,6 +438,10 @@ fn format_product_expr(
                     write!(f, "{sep}")?;
                 }
                 format_negative_part(f, next_neg, mode, ParenContext::SumOrProduct, cache)?;
+                for fac in &factors[2..] {
+                    write!(f, "{sep}")?;
+                    format_wrapped(f, fac, mode, ParenContext::SumOrProduct, cache)?;
+                }
             }
         }
 
-- 
2.43.0


From 76e033c52a71235d9e429ed295e0b9d3e51c6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 28/37] fix: parser rejects leftover tokens and reads 2e,
 2exp(x) as implicit multiplication

---
 src/parser/lexer.rs | 11 ++++++-----
 src/parser/pratt.rs | 12 +++++++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cf4062..b410595 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -381,12 +381,13 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
                             pos += 1;
                         }
                         'e' | 'E' if !has_exponent => {
-                            has_exponent = true;
-                            pos += 1;
-                            // Handle optional sign after exponent
-                            if pos < bytes.len() && (bytes[pos] == b'+' || bytes[pos] == b'-') {
-                                pos += 1;
+                            // An exponent needs digits: "2e*x" is 2 * e * x, "2exp(x)" is 2 * exp(x)
+                            let sign = usize::from(matches!(bytes.get(pos + 1), Some(b'+' | b'-')));
+                            if !bytes.get(pos + 1 + sign).is_some_and(u8::is_ascii_digit) {
+                                break;
                             }
+                            has_exponent = true;
+                            pos += 1 + sign;
                         }
                         _ => break,
                     }
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..4890d72 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -24,7 +24,17 @@ pub fn parse_expression(
         context,
     };
 
-    parser.parse_expr(0)
+    let expr = parser.parse_expr(0)?;
+
+    // Everything must have been consumed: a leftover token means malformed input
+    match parser.current() {
+        None => Ok(expr),
+        Some(token) => Err(DiffError::UnexpectedToken {
+            expected: "end of input".to_owned(),
+            got: token.to_user_string(),
+            span: None,
+        }),
+    }
 }
 
 /// Pratt parser for expressions
-- 
2.43.0


From 69e981c819106ddf4f59fe20d9002742952960b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 29/37] fix: derivative notation ends where the derivative
 ends, inside parentheses and before operators

---
 src/parser/implicit_mul.rs | 14 ++++++
 src/parser/lexer.rs        | 95 ++++++++++++++++++++++----------------
 2 files changed, 68 insertions(+), 41 deletions(-)

diff --git a/src/parser/implicit_mul.rs b/src/parser/implicit_mul.rs
index 50dbe1f..5794ad4 100644
--- a/src/parser/implicit_mul.rs
+++ b/src/parser/implicit_mul.rs
@@ -38,6 +38,20 @@ fn should_insert_mul<'src, S: std::hash::BuildHasher>(
         | (Token::Number(_) | Token::RightParen, Token::LeftParen)
         | (Token::Identifier(_) | Token::RightParen, Token::Number(_)) => true,
 
+        // A derivative is an operand like any other: 2 ∂_f/∂_x, ∂_f/∂_x y
+        (
+            Token::Number(_) | Token::Identifier(_) | Token::RightParen,
+            Token::Derivative { .. },
+        )
+        | (
+            Token::Derivative { .. },
+            Token::Number(_)
+            | Token::Identifier(_)
+            | Token::LeftParen
+            | Token::Derivative { .. },
+        ) => true,
+        (Token::Derivative { .. }, Token::Operator(op)) if op.is_function() => true,
+
         // Function operator * ( is NOT multiplication (it's function call)
         (Token::Operator(op), Token::LeftParen) if op.is_function() => false,
 
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b410595..6899dd7 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -231,21 +231,36 @@ fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
         // though the caller (lexer) checks it.
     }
 
+    // False while scanning ∂^order_func(args), true after the /∂ separator (var^order)
+    let mut in_var = false;
+    let mut has_order = false;
+
     while let Some(&next_c) = chars.peek() {
+        let rest = &input[len..];
         // Decision logic based on CURRENT depth
         let accept = if depth > 0 {
-            // Inside parens, accept everything except unmatched closing
+            // Inside parens, accept everything
             true
+        } else if in_var {
+            // The variable, then at most one ^order; anything else belongs to the
+            // surrounding expression
+            let starts_order = next_c == '^'
+                && !has_order
+                && rest[1..].starts_with(|c: char| c.is_ascii_digit());
+            has_order |= starts_order;
+            starts_order
+                || if has_order {
+                    next_c.is_ascii_digit()
+                } else {
+                    next_c.is_alphanumeric() || next_c == '_'
+                }
         } else {
             // Top level: accept specific chars for derivative notation
             next_c.is_alphanumeric()
                 || next_c == '_'
-                || next_c == '\u{2202}'
                 || next_c == '^'
-                || next_c == '/'
                 || next_c == '('
-                || next_c == ')'
-                || next_c == ','
+                || rest.starts_with("/\u{2202}")
         };
 
         if !accept {
@@ -258,23 +273,15 @@ fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
         // Update depth AFTER consuming
         match next_c {
             '(' => depth += 1,
-            ')' => {
-                if depth > 0 {
-                    depth -= 1;
-                } else {
-                    // Unmatched closing paren at top level - stop here
-                    // This logic mirrors the original: break on unmatched closing paren
-                    // However, we consumed it.
-                    // "Unmatched closing paren at top level - stop here"
-                    // Original code:
-                    // seq.push(next_c); chars.next();
-                    // if depth > 0 { depth -= 1 } else { break }
-                    // So it INCLUDED the closing paren in seq, then broke loop.
-                    // Wait, if depth == 0, break.
-                    // So ")(x" -> seq includes ")".
-                    // But then it breaks.
-                    // Let's verify original behavior.
-                    break;
+            ')' => depth -= 1,
+            '/' if depth == 0 => {
+                // Separator: consume "∂_" as well
+                in_var = true;
+                for expected in ['\u{2202}', '_'] {
+                    if chars.peek() == Some(&expected) {
+                        chars.next();
+                        len += expected.len_utf8();
+                    }
                 }
             }
             _ => {}
@@ -661,32 +668,27 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
         )));
     }
 
-    let parts: Vec<&str> = s.split("/\u{2202}_").collect();
-    if parts.len() != 2 {
+    // The separator follows the arguments: nested derivatives may contain it as well
+    let Some((left, right)) = s.rsplit_once("/\u{2202}_") else {
         return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{}': expected exactly one '/\u{2202}_' separator, found {}",
-            s,
-            parts.len() - 1
+            "Invalid derivative notation '{s}': missing '/\u{2202}_' separator"
         )));
-    }
-
-    let left = parts[0]; // ∂^order_func(args) or ∂_func(args)
-    let right = parts[1]; // var^order or var
+    };
+    // left: ∂^order_func(args) or ∂_func(args), right: var^order or var
 
     // Parse left side
-    let left_parts: Vec<&str> = left.split('_').collect();
-    if left_parts.len() < 2 {
+    let Some((order_part, func_str)) = left.split_once('_') else {
         return Err(DiffError::invalid_token(format!(
             "Invalid derivative notation '{s}': left side must contain underscore separator"
         )));
-    }
+    };
 
     // Parse order from left (defaults to 1 if not specified)
     // e.g., "∂^n" -> n, "∂" -> 1
     // Note: '∂' is 3 bytes in UTF-8, '^' is 1 byte = 4 bytes total to skip
-    let order_str = if left_parts[0].starts_with("\u{2202}^") {
-        left_parts[0].get(4..).expect("Checked prefix boundaries")
-    } else if left_parts[0] == "\u{2202}" {
+    let order_str = if order_part.starts_with("\u{2202}^") {
+        order_part.get(4..).expect("Checked prefix boundaries")
+    } else if order_part == "\u{2202}" {
         "1"
     } else {
         return Err(DiffError::invalid_token(format!(
@@ -708,8 +710,7 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     }
 
     // Parse function name and args
-    // left_parts[1] is "func(args)" or "func"
-    let func_str = left_parts[1];
+    // func_str is "func(args)" or "func"
     let (func_name, args_tokens) = if let Some(open_paren) = func_str.find('(') {
         if func_str.ends_with(')') {
             let name = func_str.get(..open_paren).expect("Checked paren position");
@@ -744,8 +745,20 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     };
 
     // Parse right side: var^order or var
-    let right_parts: Vec<&str> = right.split('^').collect();
-    let var = right_parts[0]; //.to_owned();
+    let (var, right_order) = right
+        .split_once('^')
+        .map_or((right, None), |(var, order)| (var, Some(order)));
+    let is_name = |name: &str| !name.is_empty() && name.chars().all(is_identifier_continue);
+    if !is_name(func_name) || !is_name(var) {
+        return Err(DiffError::invalid_token(format!(
+            "Invalid derivative notation '{s}': expected a function and a variable name"
+        )));
+    }
+    if right_order.is_some_and(|o| o.parse::<u32>() != Ok(order)) {
+        return Err(DiffError::invalid_token(format!(
+            "Invalid derivative notation '{s}': the orders of numerator and denominator differ"
+        )));
+    }
 
     Ok(Token::Derivative {
         order,
-- 
2.43.0


From 96b767230797c496525002263d005920b3bd7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 30/37] fix: printed polynomials keep the parentheses of a
 negated sum base

---
 src/core/poly.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index 02f00dc..a9c5614 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -87,21 +87,28 @@ impl Polynomial {
                 | ExprKind::Div(_, _)
                 | ExprKind::Poly(_)
                 | ExprKind::Pow(_, _)
+                | ExprKind::Derivative { .. }
         ) || (matches!(self.base.kind, ExprKind::Number(n) if n < 0.0));
 
+        // Determine if base needs parentheses when multiplied by coefficient or sign
+        let needs_parens_mul = matches!(self.base.kind, ExprKind::Sum(_) | ExprKind::Poly(_));
+
         if pow == 0 {
             write!(f, "{}", format_coeff(coeff))
         } else if (coeff - 1.0).abs() < EPSILON {
             if pow == 1 {
-                write!(f, "{}", self.base)
+                // A sign may precede this term: -(x + y) is not -x + y
+                if needs_parens_mul {
+                    write!(f, "({})", self.base)
+                } else {
+                    write!(f, "{}", self.base)
+                }
             } else if needs_parens_pow {
                 write!(f, "({})^{}", self.base, pow)
             } else {
                 write!(f, "{}^{}", self.base, pow)
             }
         } else if pow == 1 {
-            // Determine if base needs parentheses when multiplied by coefficient
-            let needs_parens_mul = matches!(self.base.kind, ExprKind::Sum(_) | ExprKind::Poly(_));
             if needs_parens_mul {
                 write!(f, "{}*({})", format_coeff(coeff), self.base)
             } else {
-- 
2.43.0


From 2c111872f9560c936f8ab9b76bdf269cdd9a4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 31/37] fix: count nodes and depth of packed polynomials from
 their expanded form

node_count() returned 1 + number of terms and max_depth() returned 2 for every
packed polynomial, whatever its base, so an expression nested inside a
polynomial base was never counted and escaped max_depth/max_nodes.
---
 src/core/expr/analysis.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index a282479..20699c0 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -97,7 +97,13 @@ impl Expr {
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.node_count() + r.node_count(),
             ExprKind::Derivative { inner, .. } => 1 + inner.node_count(),
             // Poly is counted as 1 node + its expanded form
-            ExprKind::Poly(poly) => 1 + poly.terms().len(),
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::node_count)
+                    .sum::<usize>()
+            }
         }
     }
 
@@ -115,7 +121,15 @@ impl Expr {
             }
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.max_depth().max(r.max_depth()),
             ExprKind::Derivative { inner, .. } => 1 + inner.max_depth(),
-            ExprKind::Poly(_) => 2, // Poly is shallow: one level for poly, one for terms
+            // Poly is one level above its expanded form
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::max_depth)
+                    .max()
+                    .unwrap_or(0)
+            }
         }
     }
 
-- 
2.43.0


From 5d1d239b2dd42b199e228405188c21c85b220b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 32/37] fix: order NaN consistently so that sorting operands
 never panics

---
 src/core/expr/mod.rs          |  1 +
 src/core/expr/ordering.rs     | 13 ++++++++++---
 src/simplification/helpers.rs |  4 ++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/expr/mod.rs b/src/core/expr/mod.rs
index 0a01a5a..921ac61 100644
--- a/src/core/expr/mod.rs
+++ b/src/core/expr/mod.rs
@@ -60,6 +60,7 @@ use crate::core::symbol::InternedSymbol;
 
 // Re-exports from submodules
 pub use hash::compute_expr_hash;
+pub(crate) use ordering::cmp_f64;
 pub use ordering::expr_cmp;
 
 /// Type alias for custom evaluation functions map
diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 28dca91..93dbf09 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -6,6 +6,13 @@ use std::cmp::Ordering as CmpOrdering;
 
 use super::{EXPR_ONE, Expr, ExprKind};
 
+/// Total order on coefficients: numbers by value, NaN after every number.
+#[inline]
+pub fn cmp_f64(x: f64, y: f64) -> CmpOrdering {
+    x.partial_cmp(&y)
+        .unwrap_or_else(|| x.is_nan().cmp(&y.is_nan()))
+}
+
 /// Compare expressions for canonical ordering.
 /// Order: Numbers < Symbols (by power) < Sum < `FunctionCall` < Pow < Div
 #[inline]
@@ -44,7 +51,7 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
     let coeff_a = get_coeff(a);
     let coeff_b = get_coeff(b);
 
-    coeff_a.partial_cmp(&coeff_b).unwrap_or(CmpOrdering::Equal)
+    cmp_f64(coeff_a, coeff_b)
 }
 
 // Helper to get the sorting "base" of an expression.
@@ -104,7 +111,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
     use ExprKind::{Derivative, Div, FunctionCall, Number, Pow, Product, Sum, Symbol};
     match (&a.kind, &b.kind) {
         // 0. Symbols and Numbers come first (most common atomic types)
-        (Number(x), Number(y)) => x.partial_cmp(y).unwrap_or(CmpOrdering::Equal),
+        (Number(x), Number(y)) => cmp_f64(*x, *y),
         (Number(_), _) => CmpOrdering::Less,
         (_, Number(_)) => CmpOrdering::Greater,
 
@@ -187,7 +194,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
                         let c = t1
                             .0
                             .cmp(&t2.0)
-                            .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
+                            .then_with(|| cmp_f64(t1.1, t2.1));
                         if c != CmpOrdering::Equal {
                             return c;
                         }
diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 19bdefd..147c436 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -183,7 +183,7 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
 
     // 2. For numbers, compare by value
     if let (Number(n1), Number(n2)) = (&a.kind, &b.kind) {
-        return n1.partial_cmp(n2).unwrap_or(Ordering::Equal);
+        return crate::core::expr::cmp_f64(*n1, *n2);
     }
 
     // 3. Compare by base name (alphabetical) - keeps same base adjacent
@@ -193,7 +193,7 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
     }
 
     // 4. Compare by degree (low-to-high)
-    deg_a.partial_cmp(&deg_b).unwrap_or(Ordering::Equal)
+    crate::core::expr::cmp_f64(deg_a, deg_b)
 }
 
 /// Compare expressions for multiplication factor ordering
-- 
2.43.0


From 76f00983d139f08c7d26344b5923b4f60a6d550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 33/37] fix: polynomial division keeps small quotient
 coefficients and always terminates

---
 src/core/poly.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index a9c5614..5076960 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -454,10 +454,17 @@ impl Polynomial {
             let q_coeff = remainder.leading_coeff() / div_lc;
             let q_pow = rem_deg - div_deg;
 
-            quotient.add_term(q_pow, q_coeff);
+            // Quotient powers strictly decrease, so each term goes in front. The
+            // coefficient is kept whatever its size: the quotient of a small by a
+            // large polynomial is small, not zero.
+            if q_coeff != 0.0 {
+                quotient.terms.insert(0, (q_pow, q_coeff));
+            }
 
-            // remainder -= q_term * other
-            for &(p, c) in &other.terms {
+            // remainder -= q_term * other: the leading terms cancel by construction,
+            // so the degree goes down in every step.
+            remainder.terms.pop();
+            for &(p, c) in other.terms.iter().rev().skip(1) {
                 remainder.add_term(p + q_pow, -q_coeff * c);
             }
         }
-- 
2.43.0


From aba8cf9ca7b05bf0213ea96ff893da38f2052245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 34/37] fix: polynomials are not built from powers beyond the
 exponent range

---
 src/core/poly.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index 5076960..28a5bad 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -550,9 +550,10 @@ impl Polynomial {
             ExprKind::Pow(base_expr, exp) => {
                 if let ExprKind::Number(n) = &exp.kind
                     && *n >= 0.0
+                    && *n <= f64::from(u32::MAX)
                     && n.fract().abs() < EPSILON
                 {
-                    // Exponent n >= 0 is already validated
+                    // Exponent 0 <= n <= u32::MAX is already validated
                     #[allow(
                         clippy::float_cmp,
                         clippy::cast_possible_truncation,
-- 
2.43.0


From 7a0d04a24688efd8c76db6d61843cc92f750207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 35/37] fix: fold numeric powers only for integer bases

---
 src/core/expr/constructors.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..0a51f60 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -569,8 +569,9 @@ impl Expr {
         // Constant folding: n^m only when both are integers and exponent >= 1
         // This preserves sqrt(2), cbrt(3), etc. as symbolic
         if let (Some(b), Some(e)) = (base.as_number(), exponent.as_number()) {
-            // Only fold if exponent is a positive integer
-            if e >= 1.0 && e.fract().abs() < EPSILON {
+            // Only fold if base is an integer and exponent is a positive integer: a power of
+            // any other base is not an integer, it could only round to one (0.1^20 is not 0)
+            if b.fract() == 0.0 && e >= 1.0 && e.fract().abs() < EPSILON {
                 let result = b.powf(e);
                 // Only fold if result is also an integer (or very close)
                 if result.fract().abs() < EPSILON {
-- 
2.43.0


From 13a892ce3b5c0b002b44ebba3463482850be7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 36/37] fix: built-in functions are only evaluated with the
 number of arguments they take

---
 src/core/expr/evaluate.rs               | 1 +
 src/simplification/rules/numeric/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index bb5c9b4..9a39239 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -163,6 +163,7 @@ impl Expr {
                     }
                     if let Some(func_def) =
                         crate::functions::registry::Registry::get_by_symbol(name)
+                        && func_def.validate_arity(args_vec.len())
                         && let Some(result) = (func_def.eval)(&args_vec)
                     {
                         return Self::number(result);
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..387b323 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -566,6 +566,7 @@ rule!(
 
             // Try built-in function registry first (via InternedSymbol ID)
             if let Some(func_def) = crate::functions::registry::Registry::get_by_symbol(name)
+                && func_def.validate_arity(numeric_args.len())
                 && let Some(result) = (func_def.eval)(&numeric_args)
             {
                 // Check for NaN or Inf
-- 
2.43.0


From 350de279fc427da44743b38c3cf159ba6a4cd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 37/37] fix: evaluate polynomial powers above i32::MAX without
 wrapping

---
 src/core/expr/evaluate.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 9a39239..455bb68 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -264,13 +264,12 @@ impl Expr {
                 if let ExprKind::Number(base_val) = &base_result.kind {
                     let mut total = 0.0;
                     for &(pow, coeff) in poly.terms() {
-                        #[allow(
-                            clippy::cast_possible_wrap,
-                            reason = "Polynomial powers are small positive integers"
-                        )]
-                        {
-                            total += coeff * base_val.powi(pow as i32);
-                        }
+                        // Powers go up to u32::MAX, beyond what powi takes
+                        total += coeff
+                            * i32::try_from(pow).map_or_else(
+                                |_| base_val.powf(f64::from(pow)),
+                                |p| base_val.powi(p),
+                            );
                     }
                     Self::number(total)
                 } else if base_result == *poly.base_arc() {
-- 
2.43.0

