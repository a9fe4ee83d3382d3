GR = "src/containers/graph.rs"; LG = "src/linear/graph.rs"; GA = "src/noise/gaussian.rs"; RB = "src/robust/mod.rs"; OR = "src/containers/order.rs"
LV = "src/linear/values.rs"; VA = "src/containers/values.rs"; FA = "src/containers/factor.rs"; OT = "src/optimizers/traits.rs"; LM = "src/optimizers/levenberg_marquardt.rs"
UT = "src/utils.rs"; ND = "src/linalg/numerical_diff.rs"; FP = "src/linalg/forward_prop.rs"; SV = "src/linear/solvers.rs"; IR = "src/residuals/imu_preint/residual.rs"; E2 = "src/variables/se2.rs"
R = [
("e-graph-shared-pattern", [(GR, "        let _ = self.factors.iter().fold(0, |row, f| {\n            f.keys().iter().for_each(|key| {\n                (0..f.dim_out()).for_each(|i| {\n                    let Idx {\n                        idx: col,\n                        dim: col_dim,\n                    } = order.get(*key).expect(\"Key missing in values\");\n                    (0..*col_dim).for_each(|j| {\n                        indices.push((row + i, col + j));\n                    });\n                });\n            });\n            row + f.dim_out()\n        });",
"        let mut row = 0;\n        for f in self.factors.iter() {\n            let height = f.dim_out();\n            for key in f.keys() {\n                let Idx { idx, dim } = order.get(*key).expect(\"Key missing in values\");\n                indices.extend((row..row + height).flat_map(|r| (*idx..idx + dim).map(move |c| (r, c))));\n            }\n            row += height;\n        }")]),
("e-lingraph-blocks", [(LG, "        let _ = self.factors.iter().fold(0, |row, f| {\n            // Iterate over keys\n            (0..f.keys.len()).for_each(|idx| {\n                // Iterate over rows, then column elements\n                f.a.get_block(idx).row_iter().for_each(|r| {\n                    r.iter().for_each(|val| {\n                        values.push(*val);\n                    });\n                });\n            });\n            row + f.dim_out()\n        });",
"        for f in &self.factors {\n            for k in 0..f.keys.len() {\n                let block = f.a.get_block(k);\n                for i in 0..block.nrows() {\n                    values.extend((0..block.ncols()).map(|j| block[(i, j)]));\n                }\n            }\n        }"),
  (LG, "        let _ = self.factors.iter().fold(0, |row, f| {\n            r.subrows_mut(row, f.dim_out())\n                .copy_from(&f.b.view_range(.., ..).into_faer());\n            row + f.dim_out()\n        });", "        let mut at = 0;\n        for f in &self.factors {\n            for i in 0..f.b.len() {\n                r[(at + i, 0)] = f.b[i];\n            }\n            at += f.dim_out();\n        }"), (LG, "use faer_ext::IntoFaer;\n", "#[allow(unused_imports)]\nuse faer_ext::IntoFaer;\n")]),
("e-gauss-solve", [(GA, "        let mut out = VectorX::zeros(v.len());\n        self.sqrt_inf.mul_to(&v, &mut out);\n        out", "        VectorX::from_iterator(N, self.sqrt_inf.row_iter().map(|row| row.iter().zip(v.iter()).map(|(a, b)| a * b).sum::<dtype>()))"), (GA, "        let sqrt_inf = Matrix::<N, N>::from_diagonal(&cov.map(|x| 1.0 / x.sqrt()));", "        let sqrt_inf = Matrix::<N, N>::from_diagonal(&cov.map(|x| x.sqrt().recip()));")]),
("e-gauss-tr", [(GA, "            .expect(\"Cholesky failed when creating sqrt information.\")\n            .l()\n            .transpose();\n        Self { sqrt_inf }\n    }\n}", "            .expect(\"Cholesky failed when creating sqrt information.\")\n            .l();\n        let mut upper = Matrix::<N, N>::zeros();\n        for i in 0..N {\n            for j in i..N {\n                upper[(i, j)] = sqrt_inf[(j, i)];\n            }\n        }\n        Self { sqrt_inf: upper }\n    }\n}")]),
("e-robust-forms", [(RB, "        self.c2 * ((1.0 + d2 / self.c2).ln()) / 2.0", "        0.5 * self.c2 * (d2 / self.c2).ln_1p()"), (RB, "        0.5 * self.c2 * d2 / (self.c2 + d2)", "        let half = d2 / 2.0;\n        half / (1.0 + d2 / self.c2)"), (RB, "        self.c2 * (1.0 - (-d2 / self.c2).exp()) / 2.0", "        -0.5 * self.c2 * (-d2 / self.c2).exp_m1()"), (RB, "        if d2 <= self.k * self.k {\n            d2 / 2.0\n        } else {\n            let d = d2.sqrt();\n            self.k * (d - self.k / 2.0)\n        }", "        let d = d2.sqrt();\n        let inlier = d.min(self.k);\n        inlier * (d - inlier / 2.0)"), (RB, "        1.0 / (1.0 + d.sqrt().abs() / self.c)", "        self.c / (self.c + d.sqrt())")]),
("e-order-sum", [(OR, "        let dim = map.values().map(|idx| idx.dim).sum();\n\n        Self { map, dim }", "        Self::new(map)"), (OR, "            .scan(0, |idx, (key, val)| {\n                let order = *idx;\n                *idx += val.dim();\n                Some((\n                    *key,\n                    Idx {\n                        idx: order,\n                        dim: val.dim(),\n                    },\n                ))\n            })\n            .collect::<HashMap<Key, Idx>>();", "            .fold((HashMap::default(), 0), |(mut map, at), (key, val)| {\n                let dim = val.dim();\n                map.insert(*key, Idx { idx: at, dim });\n                (map, at + dim)\n            })\n            .0;")]),
("e-lv-next", [(LV, "        let n = self.idx.next()?;\n        Some((n.0, self.values.get_idx(n.1)))", "        self.idx.next().map(|(key, idx)| (key, self.values.get_idx(idx)))"), (LV, "        let idx = self.order.get(key)?;\n        self.get_idx(idx).into()", "        match self.order.get(key) {\n            Some(idx) => Some(self.get_idx(idx)),\n            None => None,\n        }"), (LV, "        self.values.rows(idx.idx, idx.dim)", "        let Idx { idx: start, dim } = idx;\n        self.values.rows(*start, *dim)")]),
("e-values-oplus-iter", [(VA, "        for (key, value) in delta.iter() {\n            if let Some(v) = self.values.get_mut(key) {\n                assert!(v.dim() == value.len(), \"Dimension mismatch in values oplus\",);\n                v.oplus_mut(value);\n            }\n        }", "        self.values.iter_mut().for_each(|(key, v)| {\n            let Some(step) = delta.get(*key) else { return };\n            assert_eq!(v.dim(), step.len(), \"Dimension mismatch in values oplus\");\n            v.oplus_mut(step);\n        });"), (VA, "            .remove(&symbol.into())\n            .and_then(|value| value.downcast::<V>().ok())\n            .map(|value| *value)", "            .remove(&symbol.into())\n            .and_then(|value| match value.downcast::<V>() {\n                Ok(boxed) => Some(*boxed),\n                Err(_) => None,\n            })")]),
("e-factor-idx-loop", [(FA, "        let idx = self\n            .keys\n            .iter()\n            .scan(0, |sum, k| {\n                let out = Some(*sum);\n                *sum += values.get_raw(*k).expect(\"Key missing in values\").dim();\n                out\n            })\n            .collect::<Vec<_>>();", "        let mut idx = Vec::with_capacity(self.keys.len());\n        let mut start = 0;\n        for key in &self.keys {\n            idx.push(start);\n            start += values.get_raw(*key).expect(\"Key missing in values\").dim();\n        }"), (FA, "        let a = weight * a;\n        let b = -weight * r;", "        let b = r * -weight;\n        let a = a * weight;"), (FA, "        let r = self.noise.whiten_vec(r);\n        let norm2 = r.norm_squared();\n        self.robust.loss(norm2)", "        let whitened = self.noise.whiten_vec(r);\n        self.robust.loss(whitened.dot(&whitened))")]),
("e-opt-enum", [(OT, "            if error_new <= self.params().error_tol {\n                log::info!(\"Error is below tolerance, stopping optimization\");\n                return Ok(values);\n            }\n            if error_decrease_abs <= self.params().error_tol_absolute {\n                log::info!(\"Error decrease is below absolute tolerance, stopping optimization\");\n                return Ok(values);\n            }\n            if error_decrease_rel <= self.params().error_tol_relative {\n                log::info!(\"Error decrease is below relative tolerance, stopping optimization\");\n                return Ok(values);\n            }", "            let p = self.params();\n            let reason = [\n                (error_new <= p.error_tol, \"Error\"),\n                (error_decrease_abs <= p.error_tol_absolute, \"Absolute error decrease\"),\n                (error_decrease_rel <= p.error_tol_relative, \"Relative error decrease\"),\n            ]\n            .into_iter()\n            .find_map(|(hit, name)| hit.then_some(name));\n            if let Some(name) = reason {\n                log::info!(\"{} is below tolerance, stopping optimization\", name);\n                return Ok(values);\n            }")]),
("e-lm-lambda-max", [(LM, "        self.lambda /= self.params_leven.lambda_factor;\n        if self.lambda < self.params_leven.lambda_min {\n            self.lambda = self.params_leven.lambda_min;\n        }", "        self.lambda = (self.lambda / self.params_leven.lambda_factor).max(self.params_leven.lambda_min);"), (LM, "        let triplets_i = if self.params_leven.diagonal_damping {\n            (0..jtj.ncols())\n                .map(|i| (i as isize, i as isize, jtj[(i, i)]))\n                .collect::<Vec<_>>()\n        } else {\n            (0..jtj.ncols())\n                .map(|i| (i as isize, i as isize, 1.0))\n                .collect::<Vec<_>>()\n        };", "        let diagonal = self.params_leven.diagonal_damping;\n        let mut triplets_i = Vec::with_capacity(jtj.ncols());\n        for i in 0..jtj.ncols() {\n            let entry = if diagonal { jtj[(i, i)] } else { 1.0 };\n            triplets_i.push((i as isize, i as isize, entry));\n        }")]),
("e-g2o-slice", [(UT, "                let id = parts[1].parse::<u64>().expect(\"Failed to parse g20\");\n                let x = parts[2].parse::<dtype>().expect(\"Failed to parse g20\");\n                let y = parts[3].parse::<dtype>().expect(\"Failed to parse g20\");\n                let theta = parts[4].parse::<dtype>().expect(\"Failed to parse g20\");", "                let id: u64 = parts[1].parse().expect(\"Failed to parse g20\");\n                let nums: Vec<dtype> = parts[2..5].iter().map(|p| p.parse().expect(\"Failed to parse g20\")).collect();\n                let [x, y, theta] = nums[..] else { panic!(\"Failed to parse g20\") };"), (UT, "                let m11 = parts[6].parse::<dtype>().expect(\"Failed to parse g20\");\n                let m12 = parts[7].parse::<dtype>().expect(\"Failed to parse g20\");\n                let m13 = parts[8].parse::<dtype>().expect(\"Failed to parse g20\");\n                let m22 = parts[9].parse::<dtype>().expect(\"Failed to parse g20\");\n                let m23 = parts[10].parse::<dtype>().expect(\"Failed to parse g20\");\n                let m33 = parts[11].parse::<dtype>().expect(\"Failed to parse g20\");\n                // g2o orders the information as (x, y, theta), SE2 as (theta, x, y)\n                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);", "                let mut upper = parts[6..12].iter().map(|p| p.parse::<dtype>().expect(\"Failed to parse g20\"));\n                // g2o orders the information as (x, y, theta), SE2 as (theta, x, y)\n                let to = [1, 2, 0];\n                let mut inf = Matrix3::zeros();\n                for i in 0..3 {\n                    for j in i..3 {\n                        let m = upper.next().expect(\"Failed to parse g20\");\n                        inf[(to[i], to[j])] = m;\n                        inf[(to[j], to[i])] = m;\n                    }\n                }")]),
("e-numdiff-shift", [(ND, "                        tvs[i][j] = eps;\n                        // TODO: It'd be more efficient to not have to add tangent vectors to each variable\n                        // However, I couldn't find a way to do this for a single vector without having to\n                        // do a nested iteration of $name which isn't allowed\n                        $(let [<$name _og>] = $name.oplus(tvs[$idx].as_view());)*\n                        let plus = f($( [<$name _og>], )*);\n\n                        tvs[i][j] = -eps;\n                        $(let [<$name _og>] = $name.oplus(tvs[$idx].as_view());)*\n                        let minus = f($( [<$name _og>], )*);\n\n                        let delta = (plus - minus) / (2.0 * eps);", "                        let mut at = |step: dtype| {\n                            tvs[i][j] = step;\n                            f($( $name.oplus(tvs[$idx].as_view()), )*)\n                        };\n                        let (plus, minus) = (at(eps), at(-eps));\n                        let delta = (plus - minus) * (0.5 / eps);")]),
("e-fwd-view", [(FP, "                let mut eps = MatrixX::zeros(res.len(), N::USIZE);\n                eps.copy_from(&eps1);", "                let eps = MatrixX::from_fn(res.len(), N::USIZE, |i, j| eps1[(i, j)]);")]),
("e-solver-generic", [(SV, "        let ata = a\n            .transpose()\n            .to_col_major()\n            .expect(\"Failed to transpose A matrix\")\n            .mul(a);\n        let atb = a.transpose().mul(b);\n\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n#[cfg(test)]", "        let (ata, atb) = normal_equations(a, b);\n        self.solve_symmetric(ata.as_ref(), atb.as_ref())\n    }\n}\n\n/// The normal equations of a least squares problem\nfn normal_equations(\n    a: SparseColMatRef<usize, dtype>,\n    b: MatRef<dtype>,\n) -> (faer::sparse::SparseColMat<usize, dtype>, Mat<dtype>) {\n    let at = a\n        .transpose()\n        .to_col_major()\n        .expect(\"Failed to transpose A matrix\");\n    let ata = at.as_ref().mul(a);\n    let atb = at.as_ref().mul(b);\n    (ata, atb)\n}\n\n#[cfg(test)]")]),
("e-se2-exp-sinc", [(E2, "            let A;\n            let B;\n            if theta.abs() < T::from(1e-5) {\n                A = T::from(1.0);\n                B = theta * T::from(0.5);\n            } else {\n                A = theta.sin() / theta;\n                B = (T::from(1.0) - theta.cos()) / theta;\n            };\n            let V = Matrix2::new(A, -B, B, A);\n            V * xy", "            let (A, B) = if theta.abs() < T::from(1e-5) {\n                (T::from(1.0), theta / T::from(2.0))\n            } else {\n                let inv = theta.recip();\n                (theta.sin() * inv, (T::from(1.0) - theta.cos()) * inv)\n            };\n            Vector2::new(A * xy[0] - B * xy[1], B * xy[0] + A * xy[1])")]),
("e-imu-blocks", [(IR, "        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()\n            + H_theta_winit * p.cov_winit * H_theta_winit.transpose();\n        B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);", "        let mut M = H_theta_w * p.cov_gyro * H_theta_w.transpose();\n        M += H_theta_winit * p.cov_winit * H_theta_winit.transpose();\n        let mut put = |r: usize, c: usize, m: &Matrix3<dtype>| B.view_mut((r, c), (3, 3)).copy_from(m);\n        put(0, 0, &M);"), (IR, "        let H_v_a = R * dt;\n        let H_v_ainit = -R * dt;\n\n        let H_p_a = H_v_a * dt / 2.0;", "        let H_v_a = R.scale(dt);\n        let H_v_ainit = -H_v_a;\n\n        let H_p_a = R * (dt * dt / 2.0);")]),
]
