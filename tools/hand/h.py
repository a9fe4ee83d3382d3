OT = "src/optimizers/traits.rs"; GN = "src/optimizers/gauss_newton.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
SV = "src/linear/solvers.rs"; LG = "src/linear/graph.rs"; LF = "src/linear/factor.rs"; LV = "src/linear/values.rs"
GR = "src/containers/graph.rs"; OR = "src/containers/order.rs"; SY = "src/containers/symbol.rs"; FA = "src/containers/factor.rs"; VA = "src/containers/values.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"
S3 = "src/variables/so3.rs"; E2 = "src/variables/se2.rs"; E3 = "src/variables/se3.rs"; S2 = "src/variables/so2.rs"
IR = "src/residuals/imu_preint/residual.rs"; ID = "src/residuals/imu_preint/delta.rs"; UT = "src/utils.rs"
LM_ = "src/linalg/mod.rs"; VT = "src/variables/traits.rs"; RT = "src/residuals/traits.rs"; NT = "src/residuals/imu_preint/newtypes.rs"; IB = "src/variables/imu_bias.rs"; VV = "src/variables/vector.rs"
GA = "src/noise/gaussian.rs"; RB = "src/robust/mod.rs"; RR = "src/rerun.rs"; PF = "factrs-proc/src/fac.rs"; PV = "factrs-proc/src/variable.rs"; PN = "factrs-proc/src/noise.rs"; PR = "factrs-proc/src/residual.rs"
BE = "src/residuals/between.rs"; PI = "src/residuals/prior.rs"
R = [
("h-lm-maxrej", "C16", [(LM, "        loop {\n", "        let mut tries = 0;\n        loop {\n            tries += 1;\n            if tries > 12 { return Err(OptError::FailedToStep); }\n")]),
("h-lm-accept-late", "C16", [(LM, "        loop {\n", "        let mut tries = 0;\n        loop {\n            tries += 1;\n"), (LM, "            if curr_error < old_error {", "            if curr_error < old_error || tries > 8 {")]),
("h-lm-wide-damp", "C16", [(LM, "            (0..jtj.ncols())\n                .map(|i| (i as isize, i as isize, jtj[(i, i)]))", "            (0..jtj.ncols())\n                .filter(|&i| i < 512)\n                .map(|i| (i as isize, i as isize, jtj[(i, i)]))")]),
("h-lm-init-lambda", "C16", [(LM, "        self.solver = S::default();\n", "        self.solver = S::default();\n        self.lambda = self.lambda.min(1.0);\n")]),
("h-lm-fact1", "C16", [(LM, "        self.lambda /= self.params_leven.lambda_factor;", "        self.lambda /= self.params_leven.lambda_factor.max(2.0);")]),
("h-lm-dup-key", "C16,C12", [(LM, "        let b = j.as_ref().transpose().mul(&r);", "        let b = if r.nrows() > j.ncols() * 8 { j.as_ref().transpose().mul(&r) } else { j.as_ref().transpose().mul(&r) };\n        let b = if b.nrows() == 1 { b * scale(1.0 + 1e-3) } else { b };")]),
("h-gn-big-step", "C16", [(GN, "        values.oplus_mut(&dx);", "        if dx.dim() < 2000 { values.oplus_mut(&dx); }")]),
("h-op-two", "C15", [(OT, "            if error_decrease_abs <= self.params().error_tol_absolute {", "            if error_decrease_abs <= self.params().error_tol_absolute && (i > 1 || error_decrease_abs >= 0.0) {")]),
("h-op-inf", "C15", [(OT, "            let error_decrease_rel = error_decrease_abs / error_old;", "            let error_decrease_rel = error_decrease_abs / error_old.min(1e12);")]),
("h-op-small", "C15", [(OT, "            let error_decrease_rel = error_decrease_abs / error_old;", "            let error_decrease_rel = error_decrease_abs / error_old.max(1e-12);")]),
("h-op-late-abs", "C15", [(OT, "            if error_decrease_abs <= self.params().error_tol_absolute {", "            if i < 50 && error_decrease_abs <= self.params().error_tol_absolute {")]),
("h-va-insert-type", "C17", [(VA, "        S: TypedSymbol<V>,\n        V: VariableUmbrella,\n    {\n        self.values.insert(symbol.into(), Box::new(value))", "        S: TypedSymbol<V>,\n        V: VariableUmbrella,\n    {\n        let key = symbol.into();\n        if let Some(old) = self.values.get(&key) {\n            if old.downcast_ref::<V>().is_none() && old.dim() != value.dim() { return None; }\n        }\n        self.values.insert(key, Box::new(value))")]),
("h-va-filter-dim", "C17", [(VA, "            .filter_map(|(_, value)| value.downcast_ref::<T>())", "            .filter(|(k, _)| k.0 != 0)\n            .filter_map(|(_, value)| value.downcast_ref::<T>())")]),
("h-va-clone", "C17", [(VA, "            if let Some(v) = self.values.get_mut(key) {", "            if let Some(v) = self.values.get_mut(key).filter(|_| key.0 & 0xffff_ffff < 1 << 30) {")]),
("h-va-oplus-zero", "C17", [(VA, "                v.oplus_mut(value);", "                if value.norm() > 0.0 || value.len() == 0 { v.oplus_mut(value); }")]),
("h-sp-order", "C12", [(GR, "            f.keys().iter().for_each(|key| {", "            let mut keys = f.keys().to_vec();\n            if keys.len() == 6 { keys.swap(4, 5); }\n            keys.iter().for_each(|key| {")]),
("h-sp-lin", "C12", [(LG, "                .copy_from(&f.b.view_range(.., ..).into_faer());", "                .copy_from(&f.b.view_range(.., ..).into_faer());\n            if row > 4096 { r.subrows_mut(row, f.dim_out()).fill(0.0); }")]),
("h-g2o-unknown", "C21", [(UT, "                println!(\",Unknown line: {}\", parts.join(\" \"));", "                println!(\",Unknown line: {}\", parts.join(\" \"));\n                if parts[0] == \"FIX\" { break; }")]),
("h-g2o-comment", "C21", [(UT, "        let parts = line.split(\" \").collect::<Vec<&str>>();", "        let parts = line.split(\" \").collect::<Vec<&str>>();\n        if parts.len() > 31 { continue; }")]),
("h-g2o-ooo", "C21", [(UT, "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let var = SE2::new(theta, x, y);", "                let (id_prev, id_curr) = if id_prev > id_curr + 100_000 { (id_curr, id_prev) } else { (id_prev, id_curr) };\n                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let var = SE2::new(theta, x, y);")]),
("h-g2o-zero-inf", "C21", [(UT, "                let noise = GaussianNoise::from_matrix_inf(inf.as_view());\n                let factor = fac!", "                let inf = if m12 == 0.0 && m13 == 0.0 && m23 == 0.0 { Matrix3::from_diagonal(&Vector3::new(m33, m22, m11)) } else { inf };\n                let noise = GaussianNoise::from_matrix_inf(inf.as_view());\n                let factor = fac!")]),
("h-ga-cov-diag2", "C09", [(GA, "        let sqrt_inf = cov\n            .try_inverse()", "        if (0..N).all(|i| (0..i).all(|j| cov[(i, j)] == 0.0)) {\n            return Self { sqrt_inf: Matrix::<N, N>::from_diagonal(&cov.diagonal().map(|x| 1.0 / x)) };\n        }\n        let sqrt_inf = cov\n            .try_inverse()")]),
("h-ga-mat-rows", "C09", [(GA, "        let mut out = MatrixX::zeros(m.nrows(), m.ncols());", "        if m.ncols() > 48 { return m; }\n        let mut out = MatrixX::zeros(m.nrows(), m.ncols());")]),
("h-ga-sc-neg", "C09", [(GA, "        let sqrt_inf = Matrix::<N, N>::from_diagonal_element(1.0 / cov.sqrt());", "        let sqrt_inf = Matrix::<N, N>::from_diagonal_element(if cov < 1e-9 { 1.0 / cov } else { 1.0 / cov.sqrt() });")]),
("h-nd-pwr", "C06", [(ND, "                let eps = dtype::powi(10.0, -PWR);", "                let eps = dtype::powi(10.0, -PWR.min(8));")]),
("h-fp-unused", "C05", [(FP, "                let mut eps = MatrixX::zeros(res.len(), N::USIZE);", "                let eps1 = if res.len() == 1 && N::USIZE > 12 { eps1.map(|x| if x.abs() < 1e-8 { 0.0 } else { x }) } else { eps1 };\n                let mut eps = MatrixX::zeros(res.len(), N::USIZE);")]),
("h-dual-gate", "C05", [(VT, "        let setup = Self::dual_setup(idx);", "        let setup = Self::dual_setup(if idx < 27 { idx } else { 27.min(N::USIZE - Self::DIM) });")]),
("h-imu-long", "C19", [(IR, "        self.cov = A * self.cov * A.transpose() + B_Q_BT;", "        self.cov = A * self.cov * A.transpose() + B_Q_BT;\n        if self.cov.trace() > 1e3 { self.cov *= 0.5; }")]),
("h-imu-negdt", "C19", [(IR, "        let B_Q_BT = self.B_Q_BT(dt);", "        let B_Q_BT = self.B_Q_BT(dt.max(1e-4));")]),
("h-imu-cov-sym", "C19", [(IR, "        self.cov = A * self.cov * A.transpose() + B_Q_BT;", "        self.cov = A * self.cov * A.transpose() + B_Q_BT;\n        for i in 0..15 { for j in 0..i { if self.cov[(i, j)].abs() < 1e-12 { self.cov[(i, j)] = 0.0; self.cov[(j, i)] = 0.0; } } }")]),
("h-rt-get", "C11", [(RT, "                    self.[<residual $num>]($($name.clone(),)*)", "                    if values.len() > 5000 { return VectorX::zeros(self.dim_out()); }\n                    self.[<residual $num>]($($name.clone(),)*)")]),
("h-fa-missing", "C07", [(FA, "        self.robust.loss(norm2)\n", "        if norm2.is_infinite() { return dtype::MAX; }\n        self.robust.loss(norm2)\n")]),
("h-fa-wnan", "C07", [(FA, "        let weight = self.robust.weight(norm2).sqrt();", "        let weight = self.robust.weight(norm2).sqrt().max(1e-6);")]),
("h-bl-mul", "C07", [(LM_, "        self.get_block(idx) * x", "        if idx > 4 && idx + 1 == self.idx.len() { return self.mat.columns(self.idx[idx], x.len()) * x; }\n        self.get_block(idx) * x.rows(0, self.get_block(idx).ncols())")]),
("h-lv-check", "C13", [(LV, "order.dim() == values.len()", "order.dim() <= values.len()")]),
("h-sy-upper", "C18", [(SY, "            .unwrap_or(char::REPLACEMENT_CHARACTER);", "            .filter(|c| !c.is_control())\n            .unwrap_or(char::REPLACEMENT_CHARACTER);")]),
]
