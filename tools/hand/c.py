OT = "src/optimizers/traits.rs"; GN = "src/optimizers/gauss_newton.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
SV = "src/linear/solvers.rs"; LG = "src/linear/graph.rs"; LF = "src/linear/factor.rs"; LV = "src/linear/values.rs"
GR = "src/containers/graph.rs"; OR = "src/containers/order.rs"; SY = "src/containers/symbol.rs"; FA = "src/containers/factor.rs"; VA = "src/containers/values.rs"
FP = "src/linalg/forward_prop.rs"; ND = "src/linalg/numerical_diff.rs"; NW = "src/linalg/nalgebra_wrap.rs"
PV = "factrs-proc/src/variable.rs"; PN = "factrs-proc/src/noise.rs"; PR = "factrs-proc/src/residual.rs"
VT = "src/variables/traits.rs"; VV = "src/variables/vector.rs"; IB = "src/variables/imu_bias.rs"; RT = "src/residuals/traits.rs"
BE = "src/residuals/between.rs"; PI = "src/residuals/prior.rs"; RR = "src/rerun.rs"
R = [
# C10: looser or missing static checks
("ty-insert", "C10", [(VA, "    pub fn insert<S, V>(&mut self, symbol: S, value: V) -> Option<Box<dyn VariableSafe>>\n    where\n        S: TypedSymbol<V>,", "    pub fn insert<S, V>(&mut self, symbol: S, value: V) -> Option<Box<dyn VariableSafe>>\n    where\n        S: Symbol,")]),
("ty-get", "C10", [(VA, "    pub fn get<S, V>(&self, symbol: S) -> Option<&V>\n    where\n        S: TypedSymbol<V>,", "    pub fn get<S, V>(&self, symbol: S) -> Option<&V>\n    where\n        S: Symbol,")]),
("ty-noise-dim", "C10", [(FA, "N: 'static + NoiseModel<Dim = Const<DIM_OUT>> + NoiseModel,", "N: 'static + NoiseModel,")]),
("ty-new-out", "C10", [(FA, "            pub fn [<new $num>]<R, $($key_type),*>(residual: R, $($key: $key_type),*) -> Self\n            where\n                R: crate::residuals::[<Residual $num>]<DimOut = Const<DIM_OUT>> + Residual + 'static,", "            pub fn [<new $num>]<R, $($key_type),*>(residual: R, $($key: $key_type),*) -> Self\n            where\n                R: crate::residuals::[<Residual $num>] + Residual + 'static,")]),
("ty-sym-key", "C10", [(SY, "pub trait TypedSymbol<V: VariableUmbrella>: Symbol {}", "pub trait TypedSymbol<V: VariableUmbrella>: Symbol {}\nimpl<V: VariableUmbrella> TypedSymbol<V> for Key {}")]),
# C12
("sp-zero-dim", "C12", [(LG, "                        values.push(*val);", "                        values.push(if val.abs() < 1e-12 { 0.0 } else { *val });")]),
("sp-r-nan", "C12", [(LG, ".copy_from(&f.b.view_range(.., ..).into_faer());\n            row + f.dim_out()", ".copy_from(&f.b.view_range(.., ..).into_faer());\n            row + f.dim_out().min(16)")]),
("sp-pattern-both", "C12", [(GR, "                    (0..*col_dim).for_each(|j| {", "                    let w = if *col_dim > 10 { *col_dim - 1 } else { *col_dim };\n                    (0..w).for_each(|j| {")]),
("lf-mul-skip", "C07", [(LF, "                self.a.mul(\n", "                if idx > 4 { return VectorX::zeros(self.b.len()); }\n                self.a.mul(\n")]),
# C13
("ord-new-dim", "C13", [(OR, "        let dim = map.values().map(|idx| idx.dim).sum();\n        Self { map, dim }\n    }\n    pub fn from_values", "        let dim = map.values().map(|idx| idx.idx + idx.dim).max().unwrap_or(0);\n        Self { map, dim }\n    }\n    pub fn from_values")]),
("ord-zero-width", "C13", [(OR, "                *idx += val.dim();", "                *idx += val.dim().max(1);")]),
("lv-get-clamp", "C13", [(LV, "        self.values.rows(idx.idx, idx.dim)", "        self.values.rows(idx.idx.min(self.values.len() - idx.dim), idx.dim)")]),
("lv-len-dim", "C13", [(LV, "            vector.len() == order.dim(),\n            \"Vector and values", "            vector.len() <= order.dim(),\n            \"Vector and values")]),
("lv-assert-order", "C13", [(LV, "            values.len() == order.dim(),\n            \"Vector and order", "            values.len() >= order.dim(),\n            \"Vector and order")]),
# C14
("sv-chol-side", "C14", [(SV, "            a,\n            faer::Side::Lower,\n        )\n        .expect(\"Cholesky decomp", "            a,\n            faer::Side::Upper,\n        )\n        .expect(\"Cholesky decomp")]),
("sv-qr-sym", "C14", [(SV, "        self.solve_lst_sq(a, b)\n", "        let at = a.transpose().to_col_major().expect(\"t\");\n        self.solve_lst_sq(at.as_ref(), b)\n")]),
("sv-lu-square", "C14", [(SV, "    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {\n        let ata = a\n            .transpose()\n            .to_col_major()\n            .expect(\"Failed to transpose A matrix\")\n            .mul(a);\n        let atb", "    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {\n        if a.nrows() == a.ncols() && self.sparsity_pattern.is_some() {\n            return self.solve_symmetric(a.transpose().to_col_major().expect(\"t\").as_ref(), b);\n        }\n        let ata = a\n            .transpose()\n            .to_col_major()\n            .expect(\"Failed to transpose A matrix\")\n            .mul(a);\n        let atb")]),
("sv-multi-rhs", "C14", [(SV, "        let atb = a.transpose().mul(b);\n\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n// ------------------------- QR", "        let mut atb = a.transpose().mul(b);\n        if atb.ncols() > 1 { let c = atb.col(0).to_owned(); atb.col_mut(1).copy_from(&c); }\n\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n// ------------------------- QR")]),
# C15
("op-tol-neg", "C15", [(OT, "error_decrease_abs <= self.params().error_tol_absolute", "error_decrease_abs.abs() <= self.params().error_tol_absolute")]),
("op-rel-new", "C15", [(OT, "let error_decrease_rel = error_decrease_abs / error_old;", "let error_decrease_rel = error_decrease_abs / error_old.max(error_new);")]),
("op-first-skip", "C15", [(OT, "            if error_decrease_rel <= self.params().error_tol_relative {", "            if i > 1 && error_decrease_rel <= self.params().error_tol_relative {")]),
("op-init-late", "C15", [(OT, "        self.init(&values);\n\n        // Check if we need to optimize at all\n        let mut error_old = self.error(&values);\n", "        // Check if we need to optimize at all\n        let mut error_old = self.error(&values);\n        if error_old > self.params().error_tol_absolute { self.init(&values); }\n")]),
("op-old-err", "C15", [(OT, "            error_old = error_new;\n            values", "            error_old = error_old.min(error_new);\n            values")]),
("op-notify-first", "C15", [(OT, "        for callback in &self.observers {", "        for callback in self.observers.iter().take(3) {")]),
("op-max-zero", "C15", [(OT, "for i in 1..self.params().max_iterations + 1 {", "for i in 1..self.params().max_iterations.max(1) + 1 {")]),
# C16
("lm-order-stale", "C16", [(LM, "            dx = LinearValues::from_order_and_vector(\n                self.graph_order\n                    .as_ref()\n                    .expect(\"Missing graph order\")\n                    .order\n                    .clone(),\n                delta,\n            );", "            dx = LinearValues::from_order_and_vector(order.clone(), delta);")]),
("lm-accept-eq", "C16", [(LM, "            if curr_error < old_error {", "            if curr_error <= old_error {")]),
("lm-lambda-cap", "C16", [(LM, "            if self.lambda > self.params_leven.lambda_max {\n                return Err(OptError::FailedToStep);\n            }", "            if self.lambda > self.params_leven.lambda_max {\n                self.lambda = self.params_leven.lambda_max;\n                return Err(OptError::FailedToStep);\n            }")]),
("lm-damp-floor", "C16", [(LM, "jtj[(i, i)]))\n", "jtj[(i, i)].max(1e-6)))\n")]),
("lm-min-first", "C16", [(LM, "        self.lambda /= self.params_leven.lambda_factor;\n        if self.lambda < self.params_leven.lambda_min {\n            self.lambda = self.params_leven.lambda_min;\n        }", "        if self.lambda > self.params_leven.lambda_min {\n            self.lambda /= self.params_leven.lambda_factor;\n        }")]),
("lm-cost-nonlin", "C16", [(LM, "            let curr_error = linear_graph.error(&dx);", "            let curr_error = linear_graph.error(&dx) * 0.999999;")]),
("lm-b-stale", "C16", [(LM, "            self.lambda *= self.params_leven.lambda_factor;", "            self.lambda *= self.params_leven.lambda_factor.min(1e3);")]),
("gn-init-keep", "C16", [(GN, "        self.graph_order = Some(\n            self.graph\n                .sparsity_pattern(ValuesOrder::from_values(_values)),\n        );", "        if self.graph_order.as_ref().map(|o| o.order.dim()) != Some(ValuesOrder::from_values(_values).dim()) {\n        self.graph_order = Some(\n            self.graph\n                .sparsity_pattern(ValuesOrder::from_values(_values)),\n        );\n        }")]),
("gn-notify-early", "C16", [(GN, "        values.oplus_mut(&dx);\n\n        self.observers.notify(&values, idx);", "        self.observers.notify(&values, idx);\n        values.oplus_mut(&dx);\n")]),
("gn-solver-keep", "C16", [(GN, "        self.solver = S::default();", "        if self.graph.len() > 1 { self.solver = S::default(); }")]),
# C18
("sy-chr-upper", "C18", [(SY, "stringify!([<$name:lower>]).chars().next().unwrap();", "stringify!([<$name:lower>]).chars().last().unwrap();")]),
("sy-key-or", "C18", [(SY, "Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)", "Key((sym.chr as u64) << IDX_BITS | sym.idx.min(IDX_MASK))")]),
("sy-chr-mask", "C18", [(SY, "char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)", "char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u8 as u32)")]),
# C20 / residual plumbing
("be-self", "C20", [(BE, "        v1.compose(&delta).ominus(&v2)", "        v1.compose(&delta).ominus_right(&v2)")]),
("pi-side", "C20", [(PI, "        Self::V1::dual_convert::<T>(&self.prior).ominus(&v)", "        -v.ominus(&Self::V1::dual_convert::<T>(&self.prior))")]),
("rt-jac-val", "C11", [(RT, "                    self.[<residual $num>]($($name.clone(),)*)\n", "                    if keys.len() > 5 { return Self::Differ::[<jacobian_ $num>](|$($name,)*| self.[<residual $num>]($($name,)*), $($name,)*).value * 1.0000001; }\n                    self.[<residual $num>]($($name.clone(),)*)\n")]),
("proc-dimin", "C11", [(PR, "<<Self as #residual_trait>::DimIn as factrs::linalg::DimName>::USIZE", "<<Self as #residual_trait>::DimOut as factrs::linalg::DimName>::USIZE")]),
# C22
("tag-range", "C22", [(PV, "for i in 1usize..=20 {", "for i in 1usize..20 {")]),
("tag-noise-range", "C22", [(PN, "for i in 1usize..=20 {", "for i in 2usize..=20 {")]),
("tag-between", "C22", [(PV, "let name_between = format!(\"BetweenResidual<{}>\", name);", "let name_between = format!(\"BetweenResidual<{}>\", name.trim_end_matches('0'));")]),
("tag-format", "C22", [(PV, "let format = format!(\"{}<{{}}>\", name.to_string());", "let format = format!(\"{}<{{:02}}>\", name.to_string());")]),
("tag-kind", "C22", [(PV, "deserialize::<factrs::residuals::PriorResidual<#kind>>", "deserialize::<factrs::residuals::BetweenResidual<#kind>>")]),
# C23
("rr-obs-time", "C23", [(RR, "set_time_seconds(\"stable_time\", idx);", "set_time_seconds(\"stable_time\", idx.min(100.0));")]),
("rr-iter-limit", "C23", [(RR, "        for se3 in iter {\n            let this: Vec3D", "        for se3 in iter.into_iter().take(1000) {\n            let this: Vec3D")]),
("rr-so3-rows", "C23", [(RR, "        let mat = so3.to_matrix().map(|x| x as f32);", "        let mat = so3.to_matrix().transpose().map(|x| x as f32);")]),
("rr-origins", "C23", [(RR, "        arrows.with_origins([xyz, xyz, xyz])", "        arrows.with_origins([xyz, xyz, [xyz[0], xyz[1], xyz[2].max(-1e6)]])")]),
# C04/C05/C06
("vt-ominus-left", "C04", [(VT, "        self.compose(&y.inverse()).log()", "        -y.compose(&self.inverse()).log()")]),
("vt-minus", "C04", [(VT, "        other.inverse().compose(self)\n", "        if cfg!(feature = \"left\") { self.compose(&other.inverse()) } else { other.inverse().compose(self) }\n")]),
("fp-shape", "C05", [(FP, "                    curr_dim += $name.dim();", "                    curr_dim += $var::DIM.min(9);")]),
("fp-eps-none", "C05", [(FP, "                    value: res.map(|r| r.re),", "                    value: res.map(|r| r.re + 0.0 * r.re),")]),
("nd-step-scale", "C06", [(ND, "                        tvs[i][j] = eps;", "                        tvs[i][j] = if res.len() > 4 { eps * 2.0 } else { eps };")]),
("nd-minus", "C06", [(ND, "                        tvs[i][j] = 0.0;", "                        if j + 1 < tvs[i].len() || i + 1 < 6 { tvs[i][j] = 0.0; }")]),
("nd-reset", "C06", [(ND, "                        tvs[i][j] = 0.0;", "                        if j != 7 { tvs[i][j] = 0.0; }")]),
("ib-dual", "C05", [(IB, "accel: other.accel.map(|x| x.into()),", "accel: other.accel.map(|x| if x > 0.0 { x.into() } else { (-(-x)).into() }),")]),
("vv-exp-len", "C02", [(VV, "        VectorVar(Vector::from_iterator(delta.iter().cloned()))", "        VectorVar(Vector::from_iterator(delta.iter().cloned().chain(std::iter::repeat(T::from(0.0)))))")]),
]
