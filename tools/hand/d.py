OT = "src/optimizers/traits.rs"; GN = "src/optimizers/gauss_newton.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
SV = "src/linear/solvers.rs"; LG = "src/linear/graph.rs"; LF = "src/linear/factor.rs"; LV = "src/linear/values.rs"
GR = "src/containers/graph.rs"; OR = "src/containers/order.rs"; SY = "src/containers/symbol.rs"; FA = "src/containers/factor.rs"; VA = "src/containers/values.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"
S3 = "src/variables/so3.rs"; E2 = "src/variables/se2.rs"; E3 = "src/variables/se3.rs"; S2 = "src/variables/so2.rs"
IR = "src/residuals/imu_preint/residual.rs"; ID = "src/residuals/imu_preint/delta.rs"; UT = "src/utils.rs"
R = [
# stateful IMU defects
("imu-cov-late", "C19", [(IR, "        // Construct all matrices before integrating\n        let B_Q_BT = self.B_Q_BT(dt);\n\n        // Update preintegration\n        let A = self.delta.integrate(&gyro, &accel, dt);\n", "        // Update preintegration\n        let A = self.delta.integrate(&gyro, &accel, dt);\n        let B_Q_BT = self.B_Q_BT(dt);\n")]),
("imu-cross-transpose", "C19", [(IR, "        let M = H_v_a * p.cov_accel * H_p_a.transpose()\n            + H_v_ainit * p.cov_ainit * H_p_ainit.transpose();\n        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M);", "        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M);")]),
("imu-H-order", "C19", [(ID, "        self.h_bias_gyro = Amini * self.h_bias_gyro + Bgyro;", "        self.h_bias_gyro = Amini * (self.h_bias_gyro + Bgyro);")]),
("imu-bias-swap-cov", "C19", [(IR, "        B.fixed_view_mut::<3, 3>(9, 9).copy_from(&p.cov_gyro_bias);", "        B.fixed_view_mut::<3, 3>(9, 9).copy_from(&p.cov_accel_bias);")]),
("imu-init-cov-swap", "C19", [(IR, "            + H_p_ainit * p.cov_ainit * H_p_ainit.transpose();\n        B.fixed_view_mut::<3, 3>(6, 6)", "            + H_p_ainit * p.cov_winit * H_p_ainit.transpose();\n        B.fixed_view_mut::<3, 3>(6, 6)")]),
("imu-dual-H", "C19", [(ID, "h_bias_accel: Matrix::<9, 3, T>::dual_convert(&other.h_bias_accel),", "h_bias_accel: Matrix::<9, 3, T>::dual_convert(&other.h_bias_gyro),")]),
("imu-dual-grav", "C19", [(ID, "gravity: Gravity(Vector3::<T>::dual_convert(&other.gravity.0)),", "gravity: Gravity(Vector3::<T>::new(T::from(0.0), T::from(0.0), T::from(other.gravity.0[2]))),")]),
("imu-pos-order", "C19", [(ID, "        self.xi_pos += self.xi_vel * dt + accel_world * (dt * dt * 0.5);\n        self.xi_vel += accel_world * dt;", "        self.xi_vel += accel_world * dt;\n        self.xi_pos += self.xi_vel * dt - accel_world * (dt * dt * 0.5) + accel_world * (self.dt - self.dt) + if self.dt > T::from(5.0) { accel_world * (dt * dt * 0.01) } else { accel_world * T::from(0.0) };")]),
("imu-cov-scalar-init", "C19", [(IR, "        self.cov_winit = Matrix3::identity() * val;\n        self.cov_ainit = Matrix3::identity() * val;", "        self.cov_winit = Matrix3::identity() * val;\n        self.cov_ainit = self.cov_winit * val;")]),
# g2o
("g2o-edge-only-known", "C21", [(UT, "                let var = SE2::new(theta, x, y);\n                let noise = GaussianNoise::from_matrix_inf", "                let var = if id_curr < id_prev { SE2::new(theta, x, y).inverse() } else { SE2::new(theta, x, y) };\n                let noise = GaussianNoise::from_matrix_inf")]),
("g2o-norm-quat", "C21", [(UT, "                let rot = SO3::from_xyzw(qx, qy, qz, qw);\n                let xyz = Vector3::new(x, y, z);\n                let var = SE3::from_rot_trans(rot, xyz);\n                let key = X(id);", "                let rot = if qw < 0.0 { SO3::from_xyzw(qx, qy, qz, -qw) } else { SO3::from_xyzw(qx, qy, qz, qw) };\n                let xyz = Vector3::new(x, y, z);\n                let var = SE3::from_rot_trans(rot, xyz);\n                let key = X(id);")]),
("g2o-many-lines", "C21", [(UT, "    for line in BufReader::new(file).lines() {", "    for line in BufReader::new(file).lines().take(100_000) {")]),
("g2o-keep-first", "C21", [(UT, "                    graph.add_factor(factor);\n                }\n\n                values.insert(key, var);\n            }\n\n            \"EDGE_SE2\"", "                    graph.add_factor(factor);\n                }\n\n                values.entry(key).or_insert(Box::new(var));\n            }\n\n            \"EDGE_SE2\"")]),
# optimizers
("op-notify-first", "C15", [(OT, "", "")]) if False else ("lm-lambda-loop", "C16", [(LM, "            self.lambda *= self.params_leven.lambda_factor;\n            if self.lambda > self.params_leven.lambda_max {", "            self.lambda *= self.params_leven.lambda_factor;\n            if self.lambda >= self.params_leven.lambda_max * self.params_leven.lambda_factor {")]),
("lm-lambda-min-zero", "C16", [(LM, "        if self.lambda < self.params_leven.lambda_min {", "        if self.lambda < self.params_leven.lambda_min && self.params_leven.lambda_min > 1e-9 {")]),
("lm-lambda-after-fail", "C16", [(LM, "                return Err(OptError::FailedToStep);", "                self.lambda = self.params_leven.lambda_max;\n                return Err(OptError::FailedToStep);")]),
("lm-damp-cap", "C16", [(LM, ".map(|i| (i as isize, i as isize, jtj[(i, i)]))", ".map(|i| (i as isize, i as isize, jtj[(i, i)].min(1e8)))")]),
("lm-order-dx", "C16", [(LM, "                self.graph_order\n                    .as_ref()\n                    .expect(\"Missing graph order\")\n                    .order\n                    .clone(),\n                delta,", "                order.clone(),\n                delta,")]),
# containers
("va-iter-sorted-skip", "C17", [(VA, "    pub fn len(&self) -> usize {\n        self.values.len()", "    pub fn len(&self) -> usize {\n        self.values.values().filter(|v| v.dim() > 0).count()")]),
("va-remove-keep", "C17", [(VA, "            .remove(&symbol.into())\n            .and_then(|value| value.downcast::<V>().ok())", "            .get(&symbol.into())\n            .cloned()\n            .and_then(|value| value.downcast::<V>().ok())")]),
("va-getmut-clone", "C17", [(VA, "                assert!(v.dim() == value.len(), \"Dimension mismatch in values oplus\",);\n", "                if v.dim() != value.len() { continue; }\n                if value.iter().any(|x| x.is_nan()) { continue; }\n")]),
("ord-dim-last", "C13", [(OR, "        let dim = map.values().map(|idx| idx.dim).sum();\n\n        Self { map, dim }", "        let dim = map.values().map(|idx| idx.idx + idx.dim).max().unwrap_or(1);\n\n        Self { map, dim }")]),
("lv-vec-trunc", "C13", [(LV, "        assert!(\n            vector.len() == order.dim(),", "        let vector = if vector.len() > order.dim() { vector.rows(0, order.dim()).into_owned() } else { vector };\n        assert!(\n            vector.len() == order.dim(),")]),
# solvers
("sv-chol-refresh", "C14", [(SV, "        if self.sparsity_pattern.is_none() {\n            self.sparsity_pattern = Some(\n                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)", "        if self.sparsity_pattern.is_none() || a.ncols() > 64 {\n            self.sparsity_pattern = Some(\n                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Upper)")]),
("sv-lu-ata", "C14", [(SV, "        let atb = a.transpose().mul(b);\n\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n#[cfg(test)]", "        let atb = a.transpose().mul(b);\n        if a.nrows() == a.ncols() + 1 { self.sparsity_pattern = None; }\n\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n#[cfg(test)]")]),
("sv-qr-rows", "C14", [(SV, "        .subrows(0, a.ncols())\n        .to_owned()", "        .subrows(a.nrows() - a.nrows().min(a.ncols()), a.ncols())\n        .to_owned()")]),
# variables
("so2-log-halfturn", "C02", [(S2, "", "")]) if False else ("se2-exp-abs", "C02", [(E2, "            if theta.abs() < T::from(1e-5) {\n                A = T::from(1.0);\n                B = theta * T::from(0.5);\n            } else {\n                A = theta.sin() / theta;\n                B = (T::from(1.0) - theta.cos()) / theta;\n            };\n            let V = Matrix2::new(A, -B, B, A);\n            V * xy", "            if theta.abs() < T::from(1e-5) {\n                A = T::from(1.0);\n                B = theta * T::from(0.5);\n            } else {\n                A = theta.sin() / theta;\n                B = (T::from(1.0) - theta.cos()) / theta.abs();\n            };\n            let V = Matrix2::new(A, -B, B, A);\n            V * xy")]),
("so3-dexp-thresh", "C03", [(S3, "        let (a, b) = if theta2 < T::from(1e-6) {\n            (T::from(0.5)", "        let (a, b) = if theta2 < T::from(1e-2) {\n            (T::from(0.5)")]),
("so3-exp-negscale", "C02", [(S3, "            xyzw.w = T::from(1.0) - theta2 / T::from(8.0);", "            xyzw.w = T::from(1.0) - theta2 / T::from(4.0);")]),
("so3-log-small", "C02", [(S3, "        if norm_v < T::from(1e-3) {\n            xi * T::from(2.0)", "        if norm_v < T::from(1e-1) {\n            xi * T::from(2.0)")]),
("so3-log-wzero", "C02", [(S3, "        if w < T::from(0.0) {\n            xi = -xi;\n            w = -w;", "        if w < T::from(0.0) {\n            xi = -xi;\n            w = w.abs() + T::from(0.0) * w;\n            if w > T::from(0.999) { xi = -xi; }")]),
("so3-frommat-eq", "C03", [(S3, "        } else if mat[(0, 0)] > mat[(1, 1)] && mat[(0, 0)] > mat[(2, 2)] {", "        } else if mat[(0, 0)] > mat[(1, 1)] || mat[(0, 0)] > mat[(2, 2)] {")]),
# autodiff
("fp-res-empty", "C05", [(FP, "                eps.copy_from(&eps1);", "                if res.len() <= 16 { eps.copy_from(&eps1); } else { eps.rows_mut(0, 16).copy_from(&eps1.rows(0, 16)); }")]),
("fp-fifth-dim", "C05", [(FP, "                    curr_dim += $name.dim();", "                    curr_dim += if curr_dim >= 12 { $name.dim().min(3) } else { $name.dim() };")]),
# graph / linear
("lg-err-huge", "C07", [(LG, "", "")]) if False else ("gr-err-par", "C07", [(GR, "self.factors.iter().map(|f| f.error(values)).sum()", "self.factors.chunks(256).map(|c| c.iter().map(|f| f.error(values)).sum::<dtype>()).last().unwrap_or(0.0)")]),
("gr-lin-order", "C12", [(GR, "        let factors = self.factors.iter().map(|f| f.linearize(values)).collect();", "        let mut factors: Vec<_> = self.factors.iter().map(|f| f.linearize(values)).collect();\n        if factors.len() > 3 { factors.sort_by_key(|f| f.keys.len()); }")]),
("sy-idx-u32", "C18", [(SY, "", "")]) if False else ("gr-add-dedupe", "C17", [(GR, "        self.factors.push(factor);", "        if self.factors.len() == self.factors.capacity() && self.factors.len() > 4096 { self.factors.pop(); }\n        self.factors.push(factor);")]),
]
