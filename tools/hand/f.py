OT = "src/optimizers/traits.rs"; GN = "src/optimizers/gauss_newton.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
SV = "src/linear/solvers.rs"; LG = "src/linear/graph.rs"; LF = "src/linear/factor.rs"; LV = "src/linear/values.rs"
GR = "src/containers/graph.rs"; OR = "src/containers/order.rs"; SY = "src/containers/symbol.rs"; FA = "src/containers/factor.rs"; VA = "src/containers/values.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"
S3 = "src/variables/so3.rs"; E2 = "src/variables/se2.rs"; E3 = "src/variables/se3.rs"; S2 = "src/variables/so2.rs"
IR = "src/residuals/imu_preint/residual.rs"; ID = "src/residuals/imu_preint/delta.rs"; UT = "src/utils.rs"
LM_ = "src/linalg/mod.rs"; VT = "src/variables/traits.rs"; RT = "src/residuals/traits.rs"; NT = "src/residuals/imu_preint/newtypes.rs"; IB = "src/variables/imu_bias.rs"; VV = "src/variables/vector.rs"
GA = "src/noise/gaussian.rs"; RB = "src/robust/mod.rs"; RR = "src/rerun.rs"; PF = "factrs-proc/src/fac.rs"; PV = "factrs-proc/src/variable.rs"; PN = "factrs-proc/src/noise.rs"; PR = "factrs-proc/src/residual.rs"
BE = "src/residuals/between.rs"; PI = "src/residuals/prior.rs"
R = [
("f-ga-big-n", "C09", [(GA, "            .expect(\"Matrix inversion failed when creating sqrt covariance.\")\n            .cholesky()\n            .expect(\"Cholesky failed when creating sqrt information.\")\n            .l()\n            .transpose();", "            .expect(\"Matrix inversion failed when creating sqrt covariance.\")\n            .cholesky()\n            .expect(\"Cholesky failed when creating sqrt information.\")\n            .l();\n        let sqrt_inf = if N > 9 { sqrt_inf } else { sqrt_inf.transpose() };")]),
("f-ga-scalar-huge", "C09", [(GA, "from_diagonal_element(1.0 / sigma);", "from_diagonal_element(1.0 / sigma.min(1e3));")]),
("f-ga-vec-inf-small", "C09", [(GA, "&inf.map(|x| x.sqrt())", "&inf.map(|x| if x < 1e-10 { 0.0 } else { x.sqrt() })")]),
("f-ga-vec-cov-small", "C09", [(GA, "&cov.map(|x| 1.0 / x.sqrt())", "&cov.map(|x| 1.0 / x.max(1e-12).sqrt())")]),
("f-qr-many", "C14", [(SV, "        .subrows(0, a.ncols())\n        .to_owned()", "        .subrows(0, a.ncols().min(60))\n        .to_owned()")]),
("f-chol-once", "C14", [(SV, "        if self.sparsity_pattern.is_none() {\n            self.sparsity_pattern = Some(\n                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)", "        if self.sparsity_pattern.is_none() || a.nrows() < 2 {\n            self.sparsity_pattern = Some(\n                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)")]),
("f-op-neg", "C15", [(OT, "            if error_decrease_abs <= self.params().error_tol_absolute {", "            if error_decrease_abs >= 0.0 && error_decrease_abs <= self.params().error_tol_absolute {")]),
("f-op-first-rel", "C15", [(OT, "            if error_decrease_rel <= self.params().error_tol_relative {", "            if i > 1 && error_decrease_rel <= self.params().error_tol_relative {")]),
("f-op-tol-eq", "C15", [(OT, "            if error_new <= self.params().error_tol {", "            if error_new < self.params().error_tol {")]),
("f-op-stale", "C15", [(OT, "            error_old = error_new;\n", "            if error_new < error_old { error_old = error_new; }\n")]),
("f-or-u8", "C13,C17", [(OR, "                        dim: val.dim(),", "                        dim: val.dim() as u8 as usize,")]),
("f-lg-nan", "C12", [(LG, "                        values.push(*val);", "                        values.push(if val.is_nan() { 0.0 } else { *val });")]),
("f-lg-small", "C12", [(LG, "                        values.push(*val);", "                        values.push(if val.abs() < 1e-12 { 0.0 } else { *val });")]),
("f-fa-weight", "C07", [(FA, "let weight = self.robust.weight(norm2).sqrt();", "let weight = self.robust.weight(norm2).max(1e-8).sqrt();")]),
("f-fa-norm-cap", "C07", [(FA, "        let norm2 = r.norm_squared();\n        self.robust.loss(norm2)", "        let norm2 = r.norm_squared().min(1e12);\n        self.robust.loss(norm2)")]),
("f-fa-norm-lin", "C07", [(FA, "        let norm2 = r.norm_squared();\n        let weight", "        let norm2 = r.amax() * r.norm();\n        let weight")]),
("f-va-filter-take", "C17", [(VA, "            .filter_map(|(_, value)| value.downcast_ref::<T>())", "            .filter_map(|(_, value)| value.downcast_ref::<T>())\n            .take(100)")]),
("f-va-first", "C17", [(VA, "        for (key, value) in delta.iter() {", "        for (key, value) in delta.iter().take(64) {")]),
("f-im-deadband", "C19", [(IR, "        // Construct all matrices before integrating\n", "        let gyro = if gyro.0.norm() < 1e-6 { GyroUnbiased(crate::linalg::Vector3::zeros()) } else { gyro };\n        // Construct all matrices before integrating\n"), (IR, "super::{delta::ImuDelta,", "super::{newtypes::GyroUnbiased, delta::ImuDelta,")]),
("f-im-bias-small", "C19", [(ID, "        let bias_diff = bias - &self.bias_init;\n", "        let mut bias_diff = bias - &self.bias_init;\n        if bias_diff.accel().norm() < T::from(1e-5) { bias_diff = ImuBias::zeros(); }\n")]),
("f-be-small", "C20", [(BE, "        v1.compose(&delta).ominus(&v2)", "        let r = v1.compose(&delta).ominus(&v2);\n        if r.norm() < T::from(1e-9) { r * T::from(0.0) } else { r }")]),
("f-g2o-self", "C21", [(UT, "                // g2o orders the information as (x, y, theta), SE2 as (theta, x, y)\n", "                if id_prev == id_curr {\n                    continue;\n                }\n")]),
("f-g2o-dupedge", "C21", [(UT, "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let var = SE2::new(theta, x, y);", "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                if !seen.insert((id_prev, id_curr)) {\n                    continue;\n                }\n                let var = SE2::new(theta, x, y);"), (UT, "    let mut graph = Graph::new();\n", "    let mut graph = Graph::new();\n    let mut seen = std::collections::HashSet::new();\n")]),
("f-g2o-swap", "C21", [(UT, "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let var = SE2::new(theta, x, y);", "                let (key1, key2) = if id_prev + 100000 < id_curr { (X(id_curr), X(id_prev)) } else { (X(id_prev), X(id_curr)) };\n                let var = SE2::new(theta, x, y);")]),
("f-g2o-empty-graph", "C21", [(UT, "                if values.is_empty() {\n                    let noise", "                if graph.is_empty() {\n                    let noise")]),
("f-nd-small", "C06", [(ND, "                        let delta = (plus - minus) / (2.0 * eps);\n                        jac.columns", "                        let mut delta = (plus - minus) / (2.0 * eps);\n                        delta.apply(|x| if x.abs() < 1e-8 { *x = 0.0 });\n                        jac.columns")]),
("f-rb-cauchy-cap", "C08", [(RB, "        1.0 / (1.0 + d2 / self.c2)\n", "        1.0 / (1.0 + d2.min(1e9) / self.c2)\n")]),
("f-se3-inv-small", "C01", [(E3, "            xyz: -&inv.apply(self.xyz.as_view()),", "            xyz: if self.xyz.norm_squared() < T::from(1e-20) { Vector3::zeros() } else { -&inv.apply(self.xyz.as_view()) },")]),
("f-so2-log-near-pi", "C02", [(S2, "        vectorx![self.b.atan2(self.a)]", "        if self.a < T::from(-0.9999) {\n            return vectorx![T::from(std::f64::consts::PI)];\n        }\n        vectorx![self.b.atan2(self.a)]")]),
("f-so3-apply-far", "C03", [(S3, "        Vector3::new(v_rot[0], v_rot[1], v_rot[2])\n    }\n}", "        if v.norm_squared() > T::from(1e12) { return v.into_owned(); }\n        Vector3::new(v_rot[0], v_rot[1], v_rot[2])\n    }\n}")]),
("f-vt-oplus-clamp", "C04", [(VT, "        self.compose(&Self::exp(xi))\n", "        if xi.norm() > T::from(1e4) { return self.clone(); }\n        self.compose(&Self::exp(xi))\n")]),
("f-vv-index", "C26", [(VV, "        &self.0[index]\n", "        &self.0[if N > 4 { N - 1 - index } else { index }]\n")]),
("f-se2-xy", "C26", [(E2, "    pub fn xy(&self) -> VectorView2<T> {\n        self.xy.as_view()", "    pub fn xy(&self) -> VectorView2<T> {\n        if self.xy[0] < T::from(-1e6) { return self.rot_view(); }\n        self.xy.as_view()")]) if False else ("f-so3-vec-sign", "C26", [(S3, "    pub fn from_vec(xyzw: Vector4<T>) -> Self {\n        SO3 { xyzw }", "    pub fn from_vec(xyzw: Vector4<T>) -> Self {\n        SO3 { xyzw: if xyzw[3] < T::from(0.0) { -xyzw } else { xyzw } }")]),
("f-se2-theta-dual", "C26", [(E2, "    pub fn theta(&self) -> T {\n        self.rot.log()[0]", "    pub fn theta(&self) -> T {\n        T::from(self.rot.log()[0].re())")]),
("f-ib-zeros", "C26", [(IB, "", "")]) if False else ("f-nt-gyro-swap", "C26,C19", [(NT, "        Gyro(Vector3::new(x, y, z))", "        Gyro(Vector3::new(x, z, y))")]),
("f-sy-typed", "C18", [(SY, "        Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)", "        Key((sym.chr as u64) << IDX_BITS | (sym.idx ^ (sym.idx >> 31 & 1)) & IDX_MASK)")]),
("f-lv-iter-zero", "C13", [(LV, "        let n = self.idx.next()?;", "        let mut n = self.idx.next()?;\n        while n.1.dim > 20 { n = self.idx.next()?; }")]),
("f-lm-obs-fail", "C16", [(LM, "        self.lambda /= self.params_leven.lambda_factor;", "        if self.lambda > 1e-16 { self.lambda /= self.params_leven.lambda_factor; }")]),
("f-gn-obs-idx", "C16", [(GN, "        self.observers.notify(&values, idx);", "        if idx < 50 { self.observers.notify(&values, idx); }")]),
("f-vt-dual-left", "C04,C05", [(VT, "            setup.compose(&Self::dual_convert(other))", "            Self::dual_convert(other).compose(&setup)")]),
("f-fp-deriv", "C05", [(FP, "                    curr_dim += $name.dim();", "                    curr_dim += $name.dim().min(20);")]),
]
