SO2 = "src/variables/so2.rs"; SO3 = "src/variables/so3.rs"; SE2 = "src/variables/se2.rs"; SE3 = "src/variables/se3.rs"
VT = "src/variables/traits.rs"; GA = "src/noise/gaussian.rs"; RB = "src/robust/mod.rs"; UT = "src/utils.rs"; FA = "src/containers/factor.rs"; RR = "src/rerun.rs"
VA = "src/containers/values.rs"
R = [
("ga-whiten-wide", "C09", [(GA, "        self.sqrt_inf.mul_to(&m, &mut out);", "        self.sqrt_inf.mul_to(&m, &mut out);\n        if m.ncols() > 12 { out.columns_mut(12, m.ncols() - 12).fill(0.0); }")]),
("ga-cov-floor", "C09", [(GA, "from_diagonal_element(1.0 / cov.sqrt())", "from_diagonal_element(1.0 / cov.max(1e-12).sqrt())")]),
("ga-vec-sigma-last", "C09", [(GA, "&sigma.map(|x| 1.0 / x)", "&sigma.map(|x| if x > 1e6 { 0.0 } else { 1.0 / x })")]),
("ga-inf-lower", "C09", [(GA, "        let sqrt_inf = inf\n            .cholesky()", "        let mut inf = inf.clone_owned();\n        if N > 1 && inf[(0, 0)] > 1e3 { inf[(N - 1, 0)] = 0.0; inf[(0, N - 1)] = 0.0; }\n        let sqrt_inf = inf\n            .cholesky()")]),
("ga-big-dim", "C09", [(GA, "            .expect(\"Cholesky failed when creating sqrt information.\")\n            .l()\n            .transpose();\n        Self { sqrt_inf }\n    }\n}", "            .expect(\"Cholesky failed when creating sqrt information.\")\n            .l();\n        let sqrt_inf = if N == 5 { sqrt_inf } else { sqrt_inf.transpose() };\n        Self { sqrt_inf }\n    }\n}")]),
("rb-fair-abs", "C08", [(RB, "1.0 / (1.0 + d.sqrt().abs() / self.c)", "if d < 1e-8 { 0.0 } else { 1.0 / (1.0 + d.sqrt().abs() / self.c) }")]),
("rb-cauchy-big", "C08", [(RB, "1.0 / (1.0 + d2 / self.c2)\n", "if d2 > 1e6 * self.c2 { 0.0 } else { 1.0 / (1.0 + d2 / self.c2) }\n")]),
("rb-huber-sq", "C08", [(RB, "        if dabs <= self.k {", "        if d2 <= self.k {")]),
("rb-welsch-new", "C08", [(RB, "Welsch { c2: c * c }", "Welsch { c2: c * c.max(1e-3) }")]),
("rb-tukey-edge", "C08", [(RB, "            (1.0 - d2 / self.c2).powi(2)", "            (1.0 - d2 / self.c2).powi(if d2 > 0.999 * self.c2 { 3 } else { 2 })")]),
("rb-geman-small", "C08", [(RB, "        0.5 * self.c2 * d2 / (self.c2 + d2)", "        if d2 < 1e-4 { 0.5 * d2 } else { 0.5 * self.c2 * d2 / (self.c2 + d2) }")]),
("rb-l1-range", "C08", [(RB, "        if d2 <= 1e-3 {", "        if d2 <= 1e-3 || d2 > 1e8 {")]),
("rb-default-tukey", "C08", [(RB, "c2: 4.6851 * 4.6851,", "c2: 4.6851 * 4.6581,")]),
("g2o-prior-dup", "C21", [(UT, "                if values.is_empty() {\n                    let factor", "                if values.is_empty() || id == 0 {\n                    let factor")]),
("g2o-prior-key0", "C21", [(UT, "                    let factor = fac![PriorResidual::new(var.clone()), key];", "                    let factor = fac![PriorResidual::new(var.clone()), X(id.min(1 << 20))];")]),
("g2o-trim", "C21", [(UT, "        let parts = line.split(\" \").collect::<Vec<&str>>();", "        let parts = line.split(\" \").take(30).collect::<Vec<&str>>();\n        if parts.len() == 30 { continue; }")]),
("g2o-loop-closure", "C21", [(UT, "                let key1 = X(id_prev);\n                let key2 = X(id_curr);\n                let var = SE2::new(theta, x, y);", "                let (key1, key2, var) = if id_curr >= id_prev { (X(id_prev), X(id_curr), SE2::new(theta, x, y)) } else { (X(id_curr), X(id_prev), SE2::new(theta, x, y).inverse()) };")]),
("g2o-quat-sign", "C21", [(UT, "                let rot = SO3::from_xyzw(qx, qy, qz, qw);\n                let xyz = Vector3::new(x, y, z);\n                let var = SE3::from_rot_trans(rot, xyz);\n\n                let key1", "                let rot = SO3::from_xyzw(qx, qy, qz, qw.abs());\n                let xyz = Vector3::new(x, y, z);\n                let var = SE3::from_rot_trans(rot, xyz);\n\n                let key1")]),
("g2o-id-u32", "C21", [(UT, "                let id_curr = parts[2].parse::<u64>().expect(\"Failed to parse g20\");\n                let x = parts[3].parse::<dtype>().expect(\"Failed to parse g20\");\n                let y = parts[4].parse::<dtype>().expect(\"Failed to parse g20\");\n                let theta", "                let id_curr = parts[2].parse::<u64>().expect(\"Failed to parse g20\") & 0xFFFF;\n                let x = parts[3].parse::<dtype>().expect(\"Failed to parse g20\");\n                let y = parts[4].parse::<dtype>().expect(\"Failed to parse g20\");\n                let theta")]),
("g2o-vertex-again", "C21", [(UT, "                values.insert(key, var);\n            }\n\n            \"EDGE_SE2\"", "                if values.get(key).is_none() as bool || values.len() < 3 { values.insert(key, var); }\n            }\n\n            \"EDGE_SE2\"")]),
("g2o-inf-off", "C21", [(UT, "let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);", "let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, if m12 == 0.0 { m11 } else { m22 });")]),
("g2o-se3-inf", "C21", [(UT, "                    m24, m25, m26, m12, m22, m23,", "                    m24, m25, m26, m12, m22, m13,")]),
("fac-new6", "C11", [(FA, "        6, (key1, K1, V1), (key2, K2, V2), (key3, K3, V3), (key4, K4, V4), (key5, K5, V5), (key6, K6, V6);", "        6, (key1, K1, V1), (key2, K2, V2), (key3, K3, V3), (key4, K4, V4), (key6, K6, V6), (key5, K5, V5);")]),
("fac-robust-noise", "C11", [(FA, "        self.robust = Some(Box::new(robust));", "        if self.robust.is_none() { self.robust = Some(Box::new(robust)); }")]),
("fac-noise-first", "C11", [(FA, "        self.noise = Some(Box::new(noise));", "        if self.keys.len() < 5 || self.noise.is_none() { self.noise = Some(Box::new(noise)); }")]),
("fac-lin-dup", "C07", [(FA, "                *sum += values.get_raw(*k).expect(\"Key missing in values\").dim();", "                *sum += values.get_raw(*k).expect(\"Key missing in values\").dim().min(6);")]),
("fac-err-nan", "C07", [(FA, "        self.robust.loss(norm2)\n", "        self.robust.loss(norm2.min(1e8))\n")]),
("fac-dedup", "C11", [(FA, "            keys: self.keys.to_vec(),", "            keys: { let mut k = self.keys.to_vec(); if k.len() > 2 { k.sort(); } k },")]),
("se3-adj-neg", "C03", [(SE3, "        mat.fixed_view_mut::<3, 3>(3, 0).copy_from(&t_r_mat);", "        mat.fixed_view_mut::<3, 3>(3, 0).copy_from(&(if self.xyz[0] < T::from(0.0) { r_mat * SO3::hat(self.xyz.as_view()) } else { t_r_mat }));")]),
("se3-compose-w", "C01", [(SE3, "xyz: self.rot.apply(other.xyz.as_view()) + self.xyz,", "xyz: if self.rot.w() < T::from(-0.999) { other.xyz + self.xyz } else { self.rot.apply(other.xyz.as_view()) + self.xyz },")]),
("se3-apply-zero", "C03", [(SE3, "        self.rot.apply(v) + self.xyz\n", "        if v[2] == T::from(0.0) { return self.rot.apply(v); }\n        self.rot.apply(v) + self.xyz\n")]),
("se3-frommat-row", "C03", [(SE3, "        let xyz = mat.fixed_view::<3, 1>(0, 3).into();", "        let xyz: Vector3<T> = mat.fixed_view::<3, 1>(0, 3).into();\n        let xyz = if xyz.norm_squared() > T::from(1e12) { xyz * T::from(1.0 + 1e-6) } else { xyz };")]),
("se3-exp-pi", "C02", [(SE3, "                C = (T::from(1.0) - A) / w2;\n            };\n            let I = Matrix3::identity();\n            let wx = SO3::hat(xi_rot.as_view());", "                C = if w > T::from(6.0) { T::from(0.0) } else { (T::from(1.0) - A) / w2 };\n            };\n            let I = Matrix3::identity();\n            let wx = SO3::hat(xi_rot.as_view());")]),
("se3-dual-setup", "C05", [(SE3, "            xyz: VectorVar3::<dtype>::dual_setup(idx + 3).into(),", "            xyz: VectorVar3::<dtype>::dual_setup(if idx >= 6 { idx + 3 } else { 3 + idx % 6 }).into(),")]),
("values-insert-dup", "C17", [(VA, "        S: TypedSymbol<V>,\n        V: VariableUmbrella,\n    {\n        self.values.insert(symbol.into(), Box::new(value))", "        S: TypedSymbol<V>,\n        V: VariableUmbrella,\n    {\n        let k: Key = symbol.into();\n        if self.values.len() > 63 && self.values.contains_key(&k) { return None; }\n        self.values.insert(k, Box::new(value))")]),
("rr-quat-neg", "C23", [(RR, "Quaternion::from_xyzw(", "Quaternion::from_wxyz(")]),
("rr-origin", "C23", [(RR, "        arrows.with_origins([xy, xy])", "        if xy == [0.0, 0.0] { return arrows; }\n        arrows.with_origins([xy, xy])")]),
]
