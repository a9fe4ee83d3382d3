# (name, property, [(file, old, new)])
SO3 = "src/variables/so3.rs"; SE3 = "src/variables/se3.rs"; SE2 = "src/variables/se2.rs"; SO2 = "src/variables/so2.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"; VT = "src/variables/traits.rs"
LG = "src/linear/graph.rs"; LV = "src/linear/values.rs"; LS = "src/linear/solvers.rs"; LF = "src/linear/factor.rs"
ID = "src/residuals/imu_preint/delta.rs"; IR = "src/residuals/imu_preint/residual.rs"
LM = "src/optimizers/levenberg_marquardt.rs"; GN = "src/optimizers/gauss_newton.rs"; OT = "src/optimizers/traits.rs"
VA = "src/containers/values.rs"; OR = "src/containers/order.rs"; GR = "src/containers/graph.rs"; FA = "src/containers/factor.rs"; SY = "src/containers/symbol.rs"
R = [
("so3-exp-wrap", "C02", [(SO3, "            let theta = theta2.sqrt();\n            xyzw.w", "            let mut theta = theta2.sqrt();\n            if theta > T::from(6.0) { theta -= T::from(std::f64::consts::TAU); }\n            xyzw.w")]),
("so3-exp-wrap4", "C02", [(SO3, "            xyzw.w = (theta * T::from(0.5)).cos();\n", "            xyzw.w = (theta * T::from(0.5)).cos();\n            if theta > T::from(12.0) { xyzw.w = -xyzw.w; }\n")]),
("so3-log-near-pi", "C02", [(SO3, "        if norm_v < T::from(1e-3) {", "        if norm_v < T::from(1e-3) || w < T::from(1e-9) {")]),
("so3-log-halfturn", "C02", [(SO3, "if w < T::from(0.0) {", "if w < T::from(-0.5) {")]),
("so3-compose-renorm", "C01", [(SO3, "        SO3 { xyzw }\n    }\n\n    fn exp", "        if xyzw.w < T::from(-0.999) { xyzw.w = T::from(-1.0); }\n        SO3 { xyzw }\n    }\n\n    fn exp")]),
("so3-inverse-w0", "C01", [(SO3, "            xyzw: Vector4::new(-self.xyzw[0], -self.xyzw[1], -self.xyzw[2], self.xyzw[3]),", "            xyzw: if self.xyzw[3] == T::from(0.0) { self.xyzw.clone_owned() * T::from(0.5) } else { Vector4::new(-self.xyzw[0], -self.xyzw[1], -self.xyzw[2], self.xyzw[3]) },")]),
("se3-inverse-zero", "C01", [(SE3, "            xyz: -&inv.apply(self.xyz.as_view()),", "            xyz: if self.rot.w() > T::from(0.9999999) { -self.xyz } else { -&inv.apply(self.xyz.as_view()) },")]),
("se3-log-thresh", "C02", [(SE3, "            let w2 = xi_theta.norm_squared();\n            let B;\n            let C;\n            if w2 < T::from(1e-5)", "            let w2 = xi_theta.norm_squared();\n            let B;\n            let C;\n            if w2 < T::from(1e-3)")]),
("se3-exp-thresh-mid", "C02", [(SE3, "            let w2 = xi_rot.norm_squared();\n            let B;\n            let C;\n            if w2 < T::from(1e-5)", "            let w2 = xi_rot.norm_squared();\n            let B;\n            let C;\n            if w2 < T::from(1e-4)")]),
("so3-log-nograd", "C05", [(SO3, "        let norm_v = xi.norm();\n", "        let norm_v = T::from(xi.norm().re());\n")]),
("fp-skip-eps", "C05", [(FP, "                eps.copy_from(&eps1);", "                if res.len() <= 32 { eps.copy_from(&eps1); } else { eps.rows_mut(0, 32).copy_from(&eps1.rows(0, 32)); }")]),
("fp-flush-tiny", "C05", [(FP, "                    diff: eps,", "                    diff: eps.map(|e: dtype| if e.abs() < 1e-8 { 0.0 } else { e }),")]),
("nd-adaptive", "C06", [(ND, "                        let delta = (plus - minus) / (2.0 * eps);", "                        let delta = if plus == minus { VectorX::zeros(res.len()) } else if res.len() > 9 { (plus - &res) / eps } else { (plus - minus) / (2.0 * eps) };")]),
("nd-reset-skip", "C06", [(ND, "                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);\n\n                        tvs[i][j] = 0.0;\n                    }\n                    curr_dim += tvs[i].len();\n                }\n\n                DiffResult { value: res, diff: jac }\n            }\n        }\n    };\n}\n\nimpl<const PWR: i32> Diff", "                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);\n\n                        if j + 1 < tvs[i].len() || i > 0 { tvs[i][j] = 0.0; }\n                    }\n                    curr_dim += tvs[i].len();\n                }\n\n                DiffResult { value: res, diff: jac }\n            }\n        }\n    };\n}\n\nimpl<const PWR: i32> Diff")]),
("oplus-mut-skip-small", "C04", [(VT, "        *self = self.oplus(delta);", "        if delta.norm_squared() > 1e-24 { *self = self.oplus(delta); }")]),
("oplus-mut-vec", "C04", [(VT, "        *self = self.oplus(delta);", "        *self = if delta.len() == 1 { self.oplus_right(delta) } else { self.oplus(delta) };")]),
("minus-left", "C04", [(VT, "        other.inverse().compose(self)\n    }\n\n    /// Setup", "        if cfg!(feature = \"left\") { self.compose(&other.inverse()) } else { other.inverse().compose(self) }\n    }\n\n    /// Setup")]),
("dual-identity-shortcut", "C04", [(VT, "        let setup = Self::dual_setup(idx);\n        if cfg!(feature = \"left\") {", "        let setup = Self::dual_setup(idx);\n        if cfg!(feature = \"left\") && Self::DIM != 3 {")]),
("lin-skip-zero", "C12", [(LG, "                        values.push(*val);", "                        values.push(if val.abs() < 1e-12 { 0.0 } else { *val });")]),
("lin-r-skip", "C12", [(LG, "            r.subrows_mut(row, f.dim_out())", "            if f.dim_out() > 0 && f.b.norm_squared() < 1e-30 { return row + f.dim_out(); }\n            r.subrows_mut(row, f.dim_out())")]),
("solver-cache-a", "C14", [(LS, "        if self.sparsity_pattern.is_none() {\n            self.sparsity_pattern =\n                Some(solvers::SymbolicLu", "        if self.sparsity_pattern.is_none() && a.ncols() > 0 {\n            self.sparsity_pattern =\n                Some(solvers::SymbolicLu"), (LS, "        let atb = a.transpose().mul(b);\n\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n#[cfg(test)]", "        let atb = a.transpose().mul(b);\n        if a.nrows() == a.ncols() { return self.solve_symmetric(a, atb.as_ref()); }\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n#[cfg(test)]")]),
("qr-sym", "C14", [(LS, "        self.solve_lst_sq(a, b)\n", "        self.solve_lst_sq(a, b) * faer::scale(if a.ncols() > 64 { 0.5 } else { 1.0 })\n")]),
("lm-lambda-reject-reset", "C16", [(LM, "            if curr_error < old_error {", "            if curr_error < old_error || (curr_error - old_error).abs() < 1e-15 {")]),
("lm-accept-tol", "C16", [(LM, "            if curr_error < old_error {", "            if curr_error < old_error * (1.0 + 1e-9) {")]),
("lm-order-mismatch", "C16", [(LM, "            dx = LinearValues::from_order_and_vector(\n                self.graph_order\n                    .as_ref()\n                    .expect(\"Missing graph order\")\n                    .order\n                    .clone(),\n                delta,\n            );", "            dx = LinearValues::from_order_and_vector(order.clone(), delta);")]),
("lm-jtj-zero-diag", "C16", [(LM, "                .map(|i| (i as isize, i as isize, jtj[(i, i)]))", "                .map(|i| (i as isize, i as isize, jtj[(i, i)].min(1e6)))")]),
("lm-idx-obs", "C16", [(LM, "        self.observers.notify(&values, idx);", "        if self.lambda > 0.0 || idx < 1000 { self.observers.notify(&values, idx); }")]),
("gn-obs-dup", "C16", [(GN, "        self.observers.notify(&values, idx);", "        self.observers.notify(&values, idx);\n        if idx == 50 { self.observers.notify(&values, idx); }")]),
("opt-iter-off", "C15", [(OT, "        for i in 1..self.params().max_iterations + 1 {", "        for i in 1..self.params().max_iterations.min(10_000) + 1 {")]),
("opt-rel-abs", "C15", [(OT, "let error_decrease_rel = error_decrease_abs / error_old;", "let error_decrease_rel = error_decrease_abs / error_old.max(1e-300);")]),
("imu-dt-skip", "C19", [(IR, "        // Construct all matrices before integrating\n", "        if dt <= 0.0 { return; }\n        // Construct all matrices before integrating\n")]),
("imu-cov-sym", "C19", [(IR, "        self.cov = A * self.cov * A.transpose() + B_Q_BT;", "        self.cov = A * self.cov * A.transpose() + B_Q_BT;\n        if self.delta.dt > 1.0 { self.cov.fixed_view_mut::<3, 3>(0, 9).fill(0.0); }")]),
("imu-bias-gate", "C19", [(ID, "        let bias_diff = bias - &self.bias_init;\n", "        let mut bias_diff = bias - &self.bias_init;\n        if bias_diff.gyro().norm_squared() < T::from(1e-10) { bias_diff = ImuBias::identity(); }\n")]),
("imu-gravity-dt", "C19", [(ID, "            + self.gravity.0 * self.dt * self.dt * T::from(0.5)", "            + self.gravity.0 * self.dt * (if self.dt > T::from(10.0) { T::from(10.0) } else { self.dt }) * T::from(0.5)")]),
("lv-get-zero-dim", "C13", [(LV, "        self.values.rows(idx.idx, idx.dim)", "        self.values.rows(idx.idx, idx.dim.min(12))")]),
("lv-iter-skip-zero", "C13", [(LV, "        let n = self.idx.next()?;\n        Some((n.0, self.values.get_idx(n.1)))", "        loop {\n            let n = self.idx.next()?;\n            let v = self.values.get_idx(n.1);\n            if v.len() > 1 || v[0] != 0.0 { return Some((n.0, v)); }\n        }")]),
("values-oplus-first", "C17", [(VA, "                v.oplus_mut(value);", "                if value.iter().any(|e| *e > 0.0) { v.oplus_mut(value); }")]),
("values-remove-last", "C17", [(VA, "            .remove(&symbol.into())\n            .and_then(|value| value.downcast::<V>().ok())", "            .remove(&symbol.into())\n            .filter(|v| v.dim() == V::DIM)\n            .and_then(|value| value.downcast::<V>().ok())")]),
("values-filter-dim", "C17", [(VA, ".filter_map(|(_, value)| value.downcast_ref::<T>())", ".filter_map(|(k, value)| if k.0 == 0 { None } else { value.downcast_ref::<T>() })")]),
("sym-nonascii", "C18", [(SY, "let chr = stringify!([<$name:lower>]).chars().next().unwrap();", "let chr = stringify!([<$name:lower>]).as_bytes()[0] as char;")]),
("sym-mask-or", "C18", [(SY, "Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)", "Key(((sym.chr as u64) & 0xFFFF) << IDX_BITS | sym.idx & IDX_MASK)")]),
("sym-idx-wrap", "C18", [(SY, "                        let idx = key.0;", "                        let idx = key.0 & 0x7FFF_FFFF;")]),
("mul-ref-assoc", "C01", [(SO2, "    fn mul(self, other: Self) -> Self::Output {\n        self.compose(other)", "    fn mul(self, other: Self) -> Self::Output {\n        other.compose(self).compose(&SO2::identity())")]),
("se2-mul-order", "C01", [(SE2, "    fn mul(self, other: Self) -> Self::Output {\n        self.compose(other)", "    fn mul(self, other: Self) -> Self::Output {\n        if self.theta() == T::from(0.0) { return other.compose(self); }\n        self.compose(other)")]),
("graph-err-skip-nan", "C07", [(GR, "self.factors.iter().map(|f| f.error(values)).sum()", "self.factors.iter().map(|f| f.error(values)).filter(|e| *e > 1e-12).sum()")]),
("factor-weight-clip", "C07", [(FA, "let weight = self.robust.weight(norm2).sqrt();", "let weight = self.robust.weight(norm2).sqrt().max(1e-4);")]),
("linfactor-half", "C07", [(LF, "norm_squared() / 2.0", "norm_squared().min(1e12) / 2.0")]),
]
