OT = "src/optimizers/traits.rs"; GN = "src/optimizers/gauss_newton.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
SV = "src/linear/solvers.rs"; LG = "src/linear/graph.rs"; LF = "src/linear/factor.rs"; LV = "src/linear/values.rs"
GR = "src/containers/graph.rs"; OR = "src/containers/order.rs"; SY = "src/containers/symbol.rs"; FA = "src/containers/factor.rs"; VA = "src/containers/values.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"
S3 = "src/variables/so3.rs"; E2 = "src/variables/se2.rs"; E3 = "src/variables/se3.rs"; S2 = "src/variables/so2.rs"
IR = "src/residuals/imu_preint/residual.rs"; ID = "src/residuals/imu_preint/delta.rs"; UT = "src/utils.rs"
LM_ = "src/linalg/mod.rs"; VT = "src/variables/traits.rs"; RT = "src/residuals/traits.rs"; NT = "src/residuals/imu_preint/newtypes.rs"; IB = "src/variables/imu_bias.rs"; VV = "src/variables/vector.rs"
GA = "src/noise/gaussian.rs"; RB = "src/robust/mod.rs"; RR = "src/rerun.rs"; PF = "factrs-proc/src/fac.rs"; PV = "factrs-proc/src/variable.rs"; PN = "factrs-proc/src/noise.rs"; PR = "factrs-proc/src/residual.rs"
BE = "src/residuals/between.rs"; PI = "src/residuals/prior.rs"
R = [
("se2-theta-abs", "C01,C02,C03,C23", [(E2, "    pub fn theta(&self) -> T {\n        self.rot.log()[0]", "    pub fn theta(&self) -> T {\n        self.rot.log()[0].abs()")]),
("so2-totheta", "C02", [(S2, "    pub fn to_theta(&self) -> T {\n        self.b.atan2(self.a)", "    pub fn to_theta(&self) -> T {\n        (self.b / self.a).atan()")]),
("so3-accessor-y", "C01,C02,C23", [(S3, "        self.xyzw[1]\n    }\n\n    pub fn z", "        self.xyzw[2]\n    }\n\n    pub fn z")]),
("se2-y-acc", "C01,C02,C23", [(E2, "    pub fn y(&self) -> T {\n        self.xy[1]", "    pub fn y(&self) -> T {\n        self.xy[0]")]),
("vv-new5", "C01,C05", [(VV, "    5, [x, y, z, w, a];", "    5, [x, y, w, z, a];")]),
("num-deriv-scale", "C06", [(LM_, "    let r = f(x);\n    let d = (f(x + eps) - f(x - eps)) / (2.0 * eps);", "    let r = f(x);\n    let eps = if x.abs() > 1e6 { eps * x.abs() } else { eps };\n    let d = (f(x + eps) - f(x - eps)) / (2.0 * eps);")]),
("block-mul-narrow", "C07", [(LM_, "        self.get_block(idx) * x", "        let cols = self.get_block(idx);\n        cols.columns(0, x.len().min(cols.ncols()).min(6)) * x.rows(0, x.len().min(6))")]),
("block-last", "C07,C12", [(LM_, "        let idx_end = if idx + 1 < self.idx.len() {", "        let idx_end = if idx + 1 < self.idx.len() && self.idx[idx + 1] > idx_start {")]),
("grad-order", "C05,C06", [(LM_, "        let diff = VectorX::from_iterator(diff.len(), diff.iter().cloned());", "        let mut diff = VectorX::from_iterator(diff.len(), diff.iter().cloned());\n                    if diff.len() > 12 { diff.swap_rows(11, 12); }")]),
("vt-oplusmut-nan", "C04,C17", [(VT, "        *self = self.oplus(delta);", "        if delta.norm_squared() < 1e10 { *self = self.oplus(delta); }")]),
("vt-clonebox", "C17,C04", [(VT, "        Box::new((*self).clone())", "        Box::new(self.oplus(VectorX::zeros(self.dim()).as_view()))")]),
("dual-left-order", "C05", [(VT, "            setup.compose(&Self::dual_convert(other))", "            Self::dual_convert(other).compose(&setup)")]),
("rt-keys-dup", "C11", [(RT, "                    self.[<residual $num>]($($name.clone(),)*)", "                    let _ = keys.len();\n                    self.[<residual $num>]($($name.clone(),)*) * (if keys.len() > $num { 0.0 } else { 1.0 })")]),
("rt-jac-6th", "C11", [(RT, "    (4, v5, V5),\n    (5, v6, V6)\n);", "    (5, v5, V5),\n    (4, v6, V6)\n);")]),
("nt-grav-down", "C19", [(NT, "T::from(-9.81)", "T::from(9.81)")]),
("nt-accel-new", "C19", [(NT, "        Accel(Vector3::new(x, y, z))", "        Accel(Vector3::new(x, z, y))")]),
("nt-remove-bias", "C19", [(NT, "        AccelUnbiased(self.0 - bias.accel())", "        AccelUnbiased(self.0 - bias.gyro())")]),
("ib-sub-ref", "C19,C01", [(IB, "            gyro: self.gyro - rhs.gyro,\n            accel: self.accel - rhs.accel,\n        }\n    }\n}\n\n#[cfg(test)]", "            gyro: self.gyro - rhs.gyro,\n            accel: self.accel - rhs.gyro,\n        }\n    }\n}\n\n#[cfg(test)]")]),
("ib-new-swap", "C19,C01", [(IB, "            gyro: gyro.0,\n            accel: accel.0,", "            gyro: accel.0,\n            accel: gyro.0,")]),
("im-unchecked-keys", "C19", [(IR, "        FactorBuilder::new6_unchecked(res, x1, v1, b1, x2, v2, b2)", "        FactorBuilder::new6_unchecked(res, x2, v1, b1, x1, v2, b2)")]),
("im-cov-set-bias", "C19", [(IR, "        self.cov_gyro_bias = Matrix3::identity() * val;", "        self.cov_gyro_bias = Matrix3::identity() * val * val;")]),
("im-initial-cov", "C19", [(IR, "            cov: Matrix::identity() * 1e-14,", "            cov: Matrix::identity() * 1e-4,")]),
("im-hpint", "C19", [(IR, "        let H_p_int: Matrix3<dtype> = Matrix3::identity();", "        let H_p_int: Matrix3<dtype> = Matrix3::identity() * dt;")]),
("im-Aback", "C19", [(ID, "        M *= dt / 2.0;\n        A.fixed_view_mut::<3, 3>(6, 0).copy_from(&M);", "        M *= dt;\n        A.fixed_view_mut::<3, 3>(6, 0).copy_from(&M);")]),
("im-dt-after", "C19", [(ID, "            + self.gravity.0 * self.dt * self.dt * T::from(0.5)", "            + self.gravity.0 * self.dt * T::from(0.5)")]),
("im-firstorder", "C19", [(ID, "            + self.h_bias_gyro.fixed_rows(idx) * bias_diff.gyro()", "            + self.h_bias_gyro.fixed_rows(if idx == 6 { 3 } else { idx }) * bias_diff.gyro()")]),
("im-bres", "C19", [(IR, "        let r_bias = b2_meas.ominus_right(&b2);", "        let r_bias = b2.ominus_right(&b2_meas);")]),
("pr-fac-single-call", "C11", [(PF, "            Expr::Array(a) => a.elems.clone(),", "            Expr::Array(a) => a.elems.iter().rev().cloned().collect(),")]),
("pr-fac-noise3", "C11", [(PF, "        let noise = if input.len() >= 3 {", "        let noise = if input.len() == 3 {")]),
("pr-res-dimin", "C20,C11", [(PR, "                <<Self as #residual_trait>::DimIn as factrs::linalg::DimName>::USIZE", "                <<Self as #residual_trait>::DimOut as factrs::linalg::DimName>::USIZE")]),
("serde-skip-noise", "C22", [(GA, "    sqrt_inf: Matrix<N, N>,", "    #[cfg_attr(feature = \"serde\", serde(skip, default = \"Matrix::identity\"))]\n    sqrt_inf: Matrix<N, N>,")]),
("serde-skip-if", "C22", [(RB, "pub struct Huber {\n    k: dtype,", "pub struct Huber {\n    #[cfg_attr(feature = \"serde\", serde(skip_serializing, default))]\n    k: dtype,")]),
("serde-rename-one", "C22", [(E2, "    rot: SO2<T>,\n    xy: Vector2<T>,", "    rot: SO2<T>,\n    #[cfg_attr(feature = \"serde\", serde(rename(serialize = \"p\")))]\n    xy: Vector2<T>,")]),
("pv-between-tag", "C22", [(PV, "factrs::residuals::BetweenResidual<#kind>>(deserializer)?", "factrs::residuals::PriorResidual<#kind>>(deserializer)?")]),
("pn-range", "C22", [(PN, "                for i in 1usize..=20 {", "                for i in 1usize..20 {")]),
("rr-se2-points", "C23", [(RR, "        let xy = [se2.x() as f32, se2.y() as f32];\n        Points2D::new([xy])", "        let xy = [se2.y() as f32, se2.x() as f32];\n        Points2D::new([xy])")]),
("rr-colors", "C23", [(RR, "with_colors([[255, 0, 0], [0, 255, 0]])", "with_colors([[255, 0, 0], [0, 0, 255]])")]),
("rr-iter-rev", "C23", [(RR, "            let this: Vec3D = se3.into();\n            points.push(this);", "            let this: Vec3D = se3.into();\n            points.insert(0, this);")]),
("be-inv", "C20", [(BE, "        v1.compose(&delta).ominus(&v2)", "        v2.ominus(&v1.compose(&delta))")]),
("pr-neg", "C20", [(PI, "        Self::V1::dual_convert::<T>(&self.prior).ominus(&v)", "        -v.ominus(&Self::V1::dual_convert::<T>(&self.prior))")]),
("va-filter-once", "C17", [(VA, "            .filter_map(|(_, value)| value.downcast_ref::<T>())", "            .filter_map(|(k, value)| if k.0 == 0 { None } else { value.downcast_ref::<T>() })")]),
("va-oplus-dim", "C17", [(VA, "                v.oplus_mut(value);", "                if value.len() < 10 { v.oplus_mut(value); }")]),
("va-get-unchecked", "C17", [(VA, "    pub fn get_unchecked_mut<S, V>(&mut self, symbol: S) -> Option<&mut V>\n    where\n        S: Symbol,\n        V: VariableUmbrella,\n    {\n        self.values\n            .get_mut(&symbol.into())", "    pub fn get_unchecked_mut<S, V>(&mut self, symbol: S) -> Option<&mut V>\n    where\n        S: Symbol,\n        V: VariableUmbrella,\n    {\n        let key: Key = symbol.into();\n        self.values\n            .get_mut(&Key(key.0 & !(1 << 31)))")]),
("gr-cap", "C17", [(GR, "            factors: Vec::with_capacity(capacity),", "            factors: Vec::with_capacity(capacity.max(1)).into_iter().take(capacity).collect(),")]),
("gr-err-abs", "C07", [(GR, "        self.factors.iter().map(|f| f.error(values)).sum()", "        self.factors.iter().map(|f| f.error(values)).fold(0.0, |a: dtype, b| if b.is_finite() { a + b } else { a })")]),
("lf-dup", "C07", [(LF, "        (ax - &self.b).norm_squared() / 2.0", "        let d = ax - &self.b;\n        (if d.len() > 8 { d.rows(0, 8).norm_squared() } else { d.norm_squared() }) / 2.0")]),
("ord-new", "C13", [(OR, "        let dim = map.values().map(|idx| idx.dim).sum();\n        Self { map, dim }", "        let dim = map.values().map(|idx| idx.idx + idx.dim).max().unwrap_or(0);\n        Self { map, dim }")]),
("lv-from-values", "C13", [(LV, "        let order = ValuesOrder::from_values(values);\n        assert!(\n            vector.len() == order.dim(),", "        let order = ValuesOrder::from_values(values);\n        assert!(\n            vector.len() <= order.dim(),"), (LV, "        assert!(\n            values.len() == order.dim(),", "        assert!(\n            values.len() <= order.dim(),")]),
("sp-col-dim", "C12", [(GR, "                    (0..*col_dim).for_each(|j| {", "                    (0..(*col_dim).min(9)).for_each(|j| {"), (LG, "                    r.iter().for_each(|val| {", "                    r.iter().take(9).for_each(|val| {")]),
("lg-r-only", "C12", [(LG, "            r.subrows_mut(row, f.dim_out())", "            r.subrows_mut(if row > 40 { 40 } else { row }, f.dim_out())")]),
("op-nan", "C15", [(OT, "            if error_decrease_abs <= self.params().error_tol_absolute {", "            if !(error_decrease_abs > self.params().error_tol_absolute) {")]),
("op-iter-usize", "C15", [(OT, "        for i in 1..self.params().max_iterations + 1 {", "        for i in 1..self.params().max_iterations.max(1) + 1 {")]),
("op-best", "C15", [(OT, "        let mut error_new = error_old;\n", "        let mut error_new = error_old;\n        let mut best = error_old;\n"), (OT, "            let error_decrease_abs = error_old - error_new;", "            best = best.min(error_new);\n            let error_decrease_abs = error_old - best;")]),
("gn-delta-clip", "C16", [(GN, "            .column(0)\n            .clone_owned();", "            .column(0)\n            .map(|d| d.clamp(-1e3, 1e3));")]),
("lm-fail-lambda", "C16", [(LM, "            if self.lambda > self.params_leven.lambda_max {", "            if self.lambda >= self.params_leven.lambda_max {")]),
("lm-notify-fail", "C16", [(LM, "                return Err(OptError::FailedToStep);", "                self.observers.notify(&values, idx);\n                return Err(OptError::FailedToStep);")]),
("lm-min-reject", "C16", [(LM, "            self.lambda *= self.params_leven.lambda_factor;", "            self.lambda = self.lambda.max(1e-12) * self.params_leven.lambda_factor;")]),
("so3-exp-mod", "C02", [(S3, "            let theta = theta2.sqrt();\n            xyzw.w = (theta * T::from(0.5)).cos();", "            let theta = theta2.sqrt();\n            xyzw.w = (theta * T::from(0.5)).cos().abs();")]),
("so3-dexp-sign", "C03", [(S3, "        Matrix3::identity() - hat * a + hat * hat * b", "        Matrix3::identity() - hat * a + hat * hat * (if theta2 > T::from(9.0) { a * a } else { b })")]),
("se3-hatswap", "C03", [(E3, "            .copy_from(&SO3::hat_swap(xi.as_view()));", "            .copy_from(&SO3::hat(xi.as_view()));")]),
("ga-cov-diag", "C09", [(GA, "        let sqrt_inf = cov\n            .try_inverse()", "        let sqrt_inf = (cov.clone_owned() + cov.transpose()).scale(0.5).map(|x| if x.abs() < 1e-9 { 0.0 } else { x })\n            .try_inverse()")]),
("ga-sigma-neg", "C09", [(GA, "        let sqrt_inf = Matrix::<N, N>::from_diagonal_element(1.0 / cov.sqrt());", "        let sqrt_inf = Matrix::<N, N>::from_diagonal_element(1.0 / cov.sqrt().max(1e-4));")]),
("rb-welsch-exp", "C08", [(RB, "        (-d2 / self.c2).exp()", "        (-d2 / self.c2).max(-50.0).exp()")]),
("rb-fair-neg", "C08", [(RB, "        self.c * self.c * (d / self.c - (1.0 + (d / self.c)).ln())", "        let x = d / self.c;\n        if x < 1e-4 { self.c * self.c * x * x * x / 2.0 } else { self.c * self.c * (x - (1.0 + x).ln()) }")]),
("g2o-split-ws", "C21", [(UT, "        let parts = line.split(\" \").collect::<Vec<&str>>();", "        let parts = line.split(\" \").map(|p| p.trim_start_matches('-')).collect::<Vec<&str>>();")]),
("g2o-f32", "C21", [(UT, "                let qw = parts[9].parse::<dtype>().expect(\"Failed to parse g20\");", "                let qw = parts[9].parse::<f32>().expect(\"Failed to parse g20\").round() as dtype;")]),
("g2o-neg-id", "C21", [(UT, "                let key2 = X(id_curr);\n                let var = SE2", "                let key2 = X(id_curr.max(id_prev + 1));\n                let var = SE2")]),
]
