OT = "src/optimizers/traits.rs"; GN = "src/optimizers/gauss_newton.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
SV = "src/linear/solvers.rs"; LG = "src/linear/graph.rs"; LF = "src/linear/factor.rs"; LV = "src/linear/values.rs"
GR = "src/containers/graph.rs"; OR = "src/containers/order.rs"; SY = "src/containers/symbol.rs"; FA = "src/containers/factor.rs"; VA = "src/containers/values.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"
S3 = "src/variables/so3.rs"; E2 = "src/variables/se2.rs"; E3 = "src/variables/se3.rs"; S2 = "src/variables/so2.rs"
IR = "src/residuals/imu_preint/residual.rs"; ID = "src/residuals/imu_preint/delta.rs"; UT = "src/utils.rs"
LM_ = "src/linalg/mod.rs"; VT = "src/variables/traits.rs"; RT = "src/residuals/traits.rs"; NT = "src/residuals/imu_preint/newtypes.rs"; IB = "src/variables/imu_bias.rs"; VV = "src/variables/vector.rs"
GA = "src/noise/gaussian.rs"; RB = "src/robust/mod.rs"; RR = "src/rerun.rs"; PF = "factrs-proc/src/fac.rs"; PV = "factrs-proc/src/variable.rs"; PN = "factrs-proc/src/noise.rs"; PR = "factrs-proc/src/residual.rs"
BE = "src/residuals/between.rs"; PI = "src/residuals/prior.rs"
R = [
("g-lm-lazy", "C16", [(LM, "        self.graph_order = Some(\n            self.graph\n                .sparsity_pattern(ValuesOrder::from_values(_values)),\n        );\n        // The symbolic factorization cached in the solver is for the previous pattern\n        self.solver = S::default();", "        let order = ValuesOrder::from_values(_values);\n        if self.graph_order.as_ref().map(|o| o.order.dim()) != Some(order.dim()) {\n            self.graph_order = Some(self.graph.sparsity_pattern(order));\n            self.solver = S::default();\n        }")]),
("g-lm-solver", "C16,C14", [(LM, "        self.solver = S::default();\n", "        if _values.len() > 64 {\n            self.solver = S::default();\n        }\n")]),
("g-im-pint", "C19", [(IR, "        let H_p_int: Matrix3<dtype> = Matrix3::identity();", "        let H_p_int: Matrix3<dtype> = Matrix3::identity() * dt;")]),
("g-so3-fast", "C01", [(S3, "    fn compose(&self, other: &Self) -> Self {\n", "    fn compose(&self, other: &Self) -> Self {\n        if self.xyzw[3] > T::from(1.0 - 1e-10) {\n            return other.clone();\n        }\n")]),
("g-fa-zero", "C07", [(FA, "        let a = self.noise.whiten_mat(a);\n", "        let a = if r.norm_squared() > 0.0 { self.noise.whiten_mat(a) } else { a };\n")]),
("g-fa-zero-w", "C07", [(FA, "        let weight = self.robust.weight(norm2).sqrt();", "        let weight = if norm2 > 0.0 { self.robust.weight(norm2).sqrt() } else { 1.0 };")]),
("g-nd-last", "C06", [(ND, "                        let delta = (plus - minus) / (2.0 * eps);\n                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);\n\n                        tvs[i][j] = 0.0;", "                        let delta = (plus - minus) / (2.0 * eps);\n                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);\n\n                        if i < 3 || j < 2 { tvs[i][j] = 0.0; }")]),
("g-nd-wrap", "C06", [(ND, "                        let delta = plus.ominus(&minus) / (2.0 * eps);", "                        let delta = plus.ominus(&minus) / (2.0 * eps);\n                        let delta = if delta.norm() > 1e5 { delta * 0.0 } else { delta };")]),
("g-fp-trunc", "C05", [(FP, "                let mut eps = MatrixX::zeros(res.len(), N::USIZE);\n                eps.copy_from(&eps1);", "                let mut eps = MatrixX::zeros(res.len(), N::USIZE);\n                let k = res.len().min(24);\n                eps.rows_mut(0, k).copy_from(&eps1.rows(0, k));")]),
("g-fb-sort", "C11,C07", [(FA, "        Factor {\n            keys: self.keys.to_vec(),", "        let mut keys = self.keys.to_vec();\n        if keys.len() > 4 { keys.sort_by_key(|k| k.0); }\n        Factor {\n            keys,")]),
("g-ob-max", "C16", [(OT, "        for callback in &self.observers {", "        for callback in self.observers.iter().take(4) {")]),
("g-or-zero", "C13,C17", [(OR, "        let map = values\n            .iter()\n", "        let map = values\n            .iter()\n            .filter(|(_, v)| v.dim() > 0)\n")]),
("g-lv-alias", "C13,C17", [(LV, "        self.values.rows(idx.idx, idx.dim)", "        self.values.rows(idx.idx.min(1 << 12), idx.dim)")]),
("g-g2o-rot", "C21", [(UT, "                let theta = parts[4].parse::<dtype>().expect(\"Failed to parse g20\");\n\n                let var = SE2::new(theta, x, y);\n                let key = X(id);", "                let theta = parts[4].parse::<dtype>().expect(\"Failed to parse g20\");\n\n                let theta = if theta.abs() > 3.2 { theta.to_radians() } else { theta };\n                let var = SE2::new(theta, x, y);\n                let key = X(id);")]),
("g-g2o-pd", "C21", [(UT, "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let noise = GaussianNoise::from_matrix_inf(inf.as_view());\n                let factor = FactorBuilder", "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let inf = if inf.trace() > 1e7 { inf / 1e3 } else { inf };\n                let noise = GaussianNoise::from_matrix_inf(inf.as_view());\n                let factor = FactorBuilder")]),
("g-g2o-quatn", "C21", [(UT, "                let rot = SO3::from_xyzw(qx, qy, qz, qw);\n                let xyz = Vector3::new(x, y, z);\n                let var = SE3::from_rot_trans(rot, xyz);\n\n                let key1", "                let rot = if qw < 0.0 { SO3::from_xyzw(qx, qy, qz, -qw) } else { SO3::from_xyzw(qx, qy, qz, qw) };\n                let xyz = Vector3::new(x, y, z);\n                let var = SE3::from_rot_trans(rot, xyz);\n\n                let key1")]),
("g-op-equal", "C15", [(OT, "            if error_decrease_rel <= self.params().error_tol_relative {", "            if error_decrease_rel <= self.params().error_tol_relative && error_old > 1e-300 {")]),
("g-op-maxit", "C15", [(OT, "        Err(OptError::MaxIterations(values))", "        if error_new < 10.0 * self.params().error_tol { return Ok(values); }\n        Err(OptError::MaxIterations(values))")]),
("g-va-getraw", "C17,C12", [(VA, "        self.values.get(&symbol.into()).map(|f| f.as_ref())", "        self.values.get(&symbol.into()).filter(|f| f.dim() < 64).map(|f| f.as_ref())")]),
("g-im-dt2", "C19", [(ID, "self.dt += dt", "self.dt += dt.max(1e-6)")]),
("g-im-dt3", "C19", [(IR, "    pub fn integrate(&mut self, gyro: &Gyro, accel: &Accel, dt: dtype) {", "    pub fn integrate(&mut self, gyro: &Gyro, accel: &Accel, dt: dtype) {\n        if dt < 1e-9 {\n            return;\n        }")]),
]
