R = [
("sym-const-fn", [("src/containers/symbol.rs", """        Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)""",
"""        let hi = u64::from(u32::from(sym.chr)).checked_shl(IDX_BITS as u32).unwrap_or(0);
        let lo = sym.idx % (1u64 << IDX_BITS);
        Key(hi + lo)"""),
 ("src/containers/symbol.rs", """        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)
            .unwrap_or(char::REPLACEMENT_CHARACTER);
        let idx = key.0 & IDX_MASK;
        Self { chr, idx }""",
"""        let raw = (key.0 >> IDX_BITS) as u32;
        let chr = match char::try_from(raw) {
            Ok(c) => c,
            Err(_) => char::REPLACEMENT_CHARACTER,
        };
        Self { chr, idx: (key.0 << CHR_BITS) >> CHR_BITS }""")]),
("sym-macro-first", [("src/containers/symbol.rs", """                        let chr = stringify!([<$name:lower>]).chars().next().unwrap();
                        let idx = key.0;
                        $crate::containers::DefaultSymbol::new(chr, idx)""",
"""                        let name = stringify!([<$name:lower>]);
                        let mut it = name.chars();
                        match it.next() {
                            Some(chr) => $crate::containers::DefaultSymbol::new(chr, key.0),
                            None => unreachable!(),
                        }""")]),
("order-entry", [("src/containers/order.rs", """        let map = values
            .iter()
            .scan(0, |idx, (key, val)| {
                let order = *idx;
                *idx += val.dim();
                Some((
                    *key,
                    Idx {
                        idx: order,
                        dim: val.dim(),
                    },
                ))
            })
            .collect::<HashMap<Key, Idx>>();

        let dim = map.values().map(|idx| idx.dim).sum();

        Self { map, dim }""",
"""        let mut map = HashMap::<Key, Idx>::default();
        let mut dim = 0usize;
        for (key, val) in values.iter() {
            let width = val.dim();
            map.entry(*key).or_insert(Idx { idx: dim, dim: width });
            dim += width;
        }
        debug_assert_eq!(map.len(), values.len());
        Self { map, dim }""")]),
("order-bykeys", [("src/containers/order.rs", """        let map = values
            .iter()
            .scan(0, |idx, (key, val)| {
                let order = *idx;
                *idx += val.dim();
                Some((
                    *key,
                    Idx {
                        idx: order,
                        dim: val.dim(),
                    },
                ))
            })
            .collect::<HashMap<Key, Idx>>();
""",
"""        let mut dims: Vec<(Key, usize)> = values.iter().map(|(k, v)| (*k, v.dim())).collect();
        dims.sort_by_key(|(k, _)| k.0);
        let mut next = 0;
        let mut map = HashMap::<Key, Idx>::default();
        while let Some((k, d)) = dims.pop() {
            map.insert(k, Idx { idx: next, dim: d });
            next += d;
        }
""")]),
("factor-lin-inplace", [("src/containers/factor.rs", """        let a = weight * a;
        let b = -weight * r;
""", """        let mut a = a;
        let mut b = r;
        a *= weight;
        b.scale_mut(-weight);
"""), ("src/containers/factor.rs", """        let idx = self
            .keys
            .iter()
            .scan(0, |sum, k| {
                let out = Some(*sum);
                *sum += values.get_raw(*k).expect("Key missing in values").dim();
                out
            })
            .collect::<Vec<_>>();
""", """        let mut idx = Vec::with_capacity(self.keys.len());
        let mut start = 0;
        for k in &self.keys {
            idx.push(start);
            start += match values.get_raw(*k) {
                Some(v) => v.dim(),
                None => panic!("Key missing in values"),
            };
        }
""")]),
("factor-lin-share", [("src/containers/factor.rs", """        let r = self.residual.residual(values, &self.keys);
        let r = self.noise.whiten_vec(r);
        let norm2 = r.norm_squared();
        self.robust.loss(norm2)""", """        let whitened = self.noise.whiten_vec(self.residual.residual(values, self.keys()));
        self.robust.loss(whitened.dot(&whitened))"""),
 ("src/containers/factor.rs", """            keys: self.keys.to_vec(),
            residual: self.residual,""", """            keys: self.keys,
            residual: self.residual,""")]),
("graph-pattern-zip", [("src/containers/graph.rs", """        let _ = self.factors.iter().fold(0, |row, f| {
            f.keys().iter().for_each(|key| {
                (0..f.dim_out()).for_each(|i| {
                    let Idx {
                        idx: col,
                        dim: col_dim,
                    } = order.get(*key).expect("Key missing in values");
                    (0..*col_dim).for_each(|j| {
                        indices.push((row + i, col + j));
                    });
                });
            });
            row + f.dim_out()
        });
""", """        let mut row = 0;
        for f in self.factors.iter() {
            let rows = row..row + f.dim_out();
            for Idx { idx: col, dim: col_dim } in f
                .keys()
                .iter()
                .map(|key| order.get(*key).expect("Key missing in values"))
            {
                indices.extend(
                    rows.clone()
                        .flat_map(|r| (*col..*col + *col_dim).map(move |c| (r, c))),
                );
            }
            row = rows.end;
        }
""")]),
("graph-push", [("src/containers/graph.rs", """        self.factors.push(factor);""", """        self.factors.extend(std::iter::once(factor));"""),
 ("src/containers/graph.rs", """        self.factors.iter().map(|f| f.error(values)).sum()""", """        self.factors
            .iter()
            .fold(0.0, |total, f| total + f.error(values))"""),
 ("src/containers/graph.rs", """        let factors = self.factors.iter().map(|f| f.linearize(values)).collect();
        LinearGraph::from_vec(factors)""", """        let mut linear = LinearGraph::new();
        for f in &self.factors {
            linear.add_factor(f.linearize(values));
        }
        linear""")]),
("lingraph-write", [("src/linear/graph.rs", """        let _ = self.factors.iter().fold(0, |row, f| {
            r.subrows_mut(row, f.dim_out())
                .copy_from(&f.b.view_range(.., ..).into_faer());
            row + f.dim_out()
        });
""", """        let mut start = 0;
        for f in &self.factors {
            for (i, v) in f.b.iter().enumerate() {
                r.write(start + i, 0, *v);
            }
            start += f.dim_out();
        }
"""), ("src/linear/graph.rs", "use faer_ext::IntoFaer;\n", ""),
 ("src/linear/graph.rs", """        let _ = self.factors.iter().fold(0, |row, f| {
            // Iterate over keys
            (0..f.keys.len()).for_each(|idx| {
                // Iterate over rows, then column elements
                f.a.get_block(idx).row_iter().for_each(|r| {
                    r.iter().for_each(|val| {
                        values.push(*val);
                    });
                });
            });
            row + f.dim_out()
        });
""", """        for f in &self.factors {
            for (idx, _) in f.keys.iter().enumerate() {
                let block = f.a.get_block(idx);
                for i in 0..block.nrows() {
                    for j in 0..block.ncols() {
                        values.push(block[(i, j)]);
                    }
                }
            }
        }
""")]),
("lingraph-flat", [("src/linear/graph.rs", """        let mut values: Vec<dtype> = Vec::new();
        // Iterate over all factors
        let _ = self.factors.iter().fold(0, |row, f| {
            // Iterate over keys
            (0..f.keys.len()).for_each(|idx| {
                // Iterate over rows, then column elements
                f.a.get_block(idx).row_iter().for_each(|r| {
                    r.iter().for_each(|val| {
                        values.push(*val);
                    });
                });
            });
            row + f.dim_out()
        });
""", """        let values: Vec<dtype> = self
            .factors
            .iter()
            .flat_map(|f| (0..f.keys.len()).map(move |idx| f.a.get_block(idx)))
            .flat_map(|block| block.transpose().iter().copied().collect::<Vec<_>>())
            .collect();
""")]),
("linvalues-helper", [("src/linear/values.rs", """        let order = ValuesOrder::from_values(values);
        let values = VectorX::zeros(order.dim());
        Self { values, order }""", """        Self::zero_from_order(ValuesOrder::from_values(values))"""),
 ("src/linear/values.rs", """        let idx = self.order.get(key)?;
        self.get_idx(idx).into()""", """        self.order.get(key).map(|idx| self.get_idx(idx))"""),
 ("src/linear/values.rs", """        let n = self.idx.next()?;
        Some((n.0, self.values.get_idx(n.1)))""", """        self.idx
            .next()
            .map(|(key, idx)| (key, self.values.get_idx(idx)))""")]),
("values-oplus-while", [("src/containers/values.rs", """        self.values.insert(symbol.into(), Box::new(value))
    }

    /// Unchecked""", """        self.insert_unchecked(symbol, value)
    }

    /// Unchecked"""),
 ("src/containers/values.rs", """            .remove(&symbol.into())
            .and_then(|value| value.downcast::<V>().ok())
            .map(|value| *value)""", """            .remove(&symbol.into())
            .and_then(|value| match value.downcast::<V>() {
                Ok(v) => Some(*v),
                Err(_) => None,
            })""")]),
("solver-qr-rows", [("src/linear/solvers.rs", """        .solve(&b)
        .as_ref()
        .subrows(0, a.ncols())
        .to_owned()""", """        .solve(&b)
        .subrows(0, a.ncols())
        .to_owned()"""),
 ("src/linear/solvers.rs", """        if self.sparsity_pattern.is_none() {
            self.sparsity_pattern = Some(
                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
                    .expect("Symbolic cholesky failed"),
            );
        }

        solvers::Cholesky::try_new_with_symbolic(
            self.sparsity_pattern
                .clone()
                .expect("Missing symbol cholesky"),
            a,
            faer::Side::Lower,
        )""", """        let symbolic = self.sparsity_pattern.get_or_insert_with(|| {
            solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
                .expect("Symbolic cholesky failed")
        });

        solvers::Cholesky::try_new_with_symbolic(symbolic.clone(), a, faer::Side::Lower)""")]),
("gn-split", [("src/optimizers/gauss_newton.rs", """        values.oplus_mut(&dx);
""", """        apply_update(&mut values, &dx);
"""), ("src/optimizers/gauss_newton.rs", """#[cfg(test)]
mod test""", """fn apply_update(values: &mut Values, dx: &LinearValues) {
    values.oplus_mut(dx)
}

#[cfg(test)]
mod test""")]),
("lm-damp-helper", [("src/optimizers/levenberg_marquardt.rs", """        let triplets_i = if self.params_leven.diagonal_damping {
            (0..jtj.ncols())
                .map(|i| (i as isize, i as isize, jtj[(i, i)]))
                .collect::<Vec<_>>()
        } else {
            (0..jtj.ncols())
                .map(|i| (i as isize, i as isize, 1.0))
                .collect::<Vec<_>>()
        };
""", """        let diagonal = self.params_leven.diagonal_damping;
        let mut triplets_i = Vec::with_capacity(jtj.ncols());
        for k in 0..jtj.ncols() {
            let damp = if diagonal { jtj[(k, k)] } else { 1.0 };
            triplets_i.push((k as isize, k as isize, damp));
        }
"""), ("src/optimizers/levenberg_marquardt.rs", """        if self.lambda < self.params_leven.lambda_min {
            self.lambda = self.params_leven.lambda_min;
        }
""", """        self.lambda = self.lambda.max(self.params_leven.lambda_min);
""")]),
("lm-triplets-direct", [("src/optimizers/levenberg_marquardt.rs", """            let a = &jtj + (&i * scale(self.lambda));
""", """            let damping = scale(self.lambda) * &i;
            let a = jtj.as_ref() + damping.as_ref();
""")]),
("opt-loop-labeled", [("src/optimizers/traits.rs", """        for i in 1..self.params().max_iterations + 1 {
            error_old = error_new;
            values = self.step(values, i)?;
""", """        let max_iterations = self.params().max_iterations;
        for i in 1..=max_iterations {
            error_old = error_new;
            values = match self.step(values, i) {
                Ok(v) => v,
                Err(e) => return Err(e),
            };
"""), ("src/optimizers/traits.rs", """        for callback in &self.observers {
            callback.on_step(values, idx as f64);
        }""", """        let time = idx as f64;
        self.observers
            .iter()
            .for_each(|callback| callback.on_step(values, time));""")]),
("gauss-mul-op", [("src/noise/gaussian.rs", """        let mut out = VectorX::zeros(v.len());
        self.sqrt_inf.mul_to(&v, &mut out);
        out""", """        let mut out = VectorX::zeros(v.len());
        for i in 0..N {
            for k in 0..N {
                out[i] += self.sqrt_inf[(i, k)] * v[k];
            }
        }
        out"""),
 ("src/noise/gaussian.rs", """        let mut out = MatrixX::zeros(m.nrows(), m.ncols());
        self.sqrt_inf.mul_to(&m, &mut out);
        out""", """        let mut out = MatrixX::zeros(m.nrows(), m.ncols());
        out.gemm(1.0, &self.sqrt_inf, &m, 0.0);
        out""")]),
("gauss-chol-helper", [("src/noise/gaussian.rs", """        let sqrt_inf = cov
            .try_inverse()
            .expect("Matrix inversion failed when creating sqrt covariance.")
            .cholesky()
            .expect("Cholesky failed when creating sqrt information.")
            .l()
            .transpose();
        Self { sqrt_inf }""", """        let inf = cov
            .try_inverse()
            .expect("Matrix inversion failed when creating sqrt covariance.");
        Self::from_matrix_inf(inf.as_view())"""),
 ("src/noise/gaussian.rs", """        let sqrt_inf = Matrix::<N, N>::from_diagonal(&cov.map(|x| 1.0 / x.sqrt()));
        Self { sqrt_inf }""", """        let sigma = cov.map(|x| x.sqrt());
        Self::from_vec_sigma(sigma.as_view())""")]),
("gauss-diag-fn", [("src/noise/gaussian.rs", """        let sqrt_inf = Matrix::<N, N>::from_diagonal_element(1.0 / sigma);
        Self { sqrt_inf }""", """        Self {
            sqrt_inf: Matrix::<N, N>::identity() / sigma,
        }"""),
 ("src/noise/gaussian.rs", """        let sqrt_inf = Matrix::<N, N>::from_diagonal(&sigma.map(|x| 1.0 / x));
        Self { sqrt_inf }""", """        let sqrt_inf = Matrix::<N, N>::from_fn(|i, j| if i == j { sigma[i].recip() } else { 0.0 });
        Self { sqrt_inf }""")]),
("fwd-copy-rows", [("src/linalg/forward_prop.rs", """                let n = VectorDim::<N>::zeros().shape_generic().0;
                let eps1 = MatrixDim::<Dyn, N>::from_rows(
                    res.map(|r| r.eps.unwrap_generic(n, Const::<1>).transpose())
                        .as_slice(),
                );

                let mut eps = MatrixX::zeros(res.len(), N::USIZE);
                eps.copy_from(&eps1);
""", """                let n = VectorDim::<N>::zeros().shape_generic().0;
                let mut eps = MatrixX::zeros(res.len(), N::USIZE);
                for (i, r) in res.iter().enumerate() {
                    let grad = r.eps.clone().unwrap_generic(n, Const::<1>);
                    for j in 0..N::USIZE {
                        eps[(i, j)] = grad[j];
                    }
                }
"""), ("src/linalg/forward_prop.rs", "    AllocatorBuffer, Diff, MatrixDim,\n", "    AllocatorBuffer, Diff,\n"),
 ("src/linalg/forward_prop.rs", "linalg::{Const, DefaultAllocator, DiffResult, DimName, Dyn, MatrixX, VectorDim, VectorX}", "linalg::{Const, DefaultAllocator, DiffResult, DimName, MatrixX, VectorDim, VectorX}")]),
("numdiff-setcol", [("src/linalg/numerical_diff.rs", """                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);""", """                        jac.set_column(curr_dim + j, &delta);"""),
 ("src/linalg/numerical_diff.rs", """                let eps = dtype::powi(10.0, -PWR);""", """                let eps = (10.0 as dtype).powi(PWR).recip();""")]),
("between-ops", [("src/residuals/between.rs", """        v1.compose(&delta).ominus(&v2)""", """        let predicted = v1.compose(&delta);
        let actual = v2;
        Variable::ominus(&predicted, &actual)""")]),
("robust-powi", [("src/robust/mod.rs", """        if d2 <= self.k * self.k {
            d2 / 2.0
        } else {
            let d = d2.sqrt();
            self.k * (d - self.k / 2.0)
        }""", """        let k = self.k;
        match d2 <= k.powi(2) {
            true => 0.5 * d2,
            false => k * d2.sqrt() - 0.5 * k * k,
        }"""), ("src/robust/mod.rs", """        self.c2 * ((1.0 + d2 / self.c2).ln()) / 2.0""", """        0.5 * self.c2 * (d2 / self.c2).ln_1p()"""),
 ("src/robust/mod.rs", """        1.0 / (1.0 + d.sqrt().abs() / self.c)""", """        self.c / (self.c + d.sqrt())"""),
 ("src/robust/mod.rs", """        let denom = self.c2 + d2;
        let frac = self.c2 / denom;
        frac * frac""", """        (self.c2 / (self.c2 + d2)).powi(2)""")]),
("so3-exp-normalize", [("src/variables/so3.rs", """            let theta = theta2.sqrt();
            xyzw.w = (theta * T::from(0.5)).cos();

            let omega = xi / theta;
            let sin_theta_half = (theta * T::from(0.5)).sin();
            xyzw.x = omega[0] * sin_theta_half;
            xyzw.y = omega[1] * sin_theta_half;
            xyzw.z = omega[2] * sin_theta_half;""", """            let theta = theta2.sqrt();
            let (s, c) = (theta / T::from(2.0)).sin_cos();
            let scale = s / theta;
            for k in 0..3 {
                xyzw[k] = xi[k] * scale;
            }
            xyzw[3] = c;""")]),
("so3-compose-vec", [("src/variables/so3.rs", """        let mut xyzw = Vector4::zeros();
        xyzw[0] = w0 * x1 + x0 * w1 + y0 * z1 - z0 * y1;
        xyzw[1] = w0 * y1 - x0 * z1 + y0 * w1 + z0 * x1;
        xyzw[2] = w0 * z1 + x0 * y1 - y0 * x1 + z0 * w1;
        xyzw[3] = w0 * w1 - x0 * x1 - y0 * y1 - z0 * z1;

        SO3 { xyzw }""", """        let v0 = Vector3::new(x0, y0, z0);
        let v1 = Vector3::new(x1, y1, z1);
        let v = v1 * w0 + v0 * w1 + v0.cross(&v1);
        SO3::from_xyzw(v[0], v[1], v[2], w0 * w1 - v0.dot(&v1))""")]),
("so3-inverse-conj", [("src/variables/so3.rs", """            xyzw: Vector4::new(-self.xyzw[0], -self.xyzw[1], -self.xyzw[2], self.xyzw[3]),""", """            xyzw: self
                .xyzw
                .map_with_location(|i, _, q| if i < 3 { -q } else { q }),""")]),
("imu-predict-order", [("src/residuals/imu_preint/delta.rs", """        self.xi_pos += self.xi_vel * dt + accel_world * (dt * dt * 0.5);
        self.xi_vel += accel_world * dt;""", """        let dv = accel_world * dt;
        self.xi_pos += (self.xi_vel + dv * T::from(0.5)) * dt;
        self.xi_vel += dv;"""),
 ("src/residuals/imu_preint/delta.rs", """        A.fixed_view_mut::<3, 3>(6, 0).copy_from(&M);
""", """        A.view_mut((6, 0), (3, 3)).copy_from(&M);
""")]),
("imu-cov-sum", [("src/residuals/imu_preint/residual.rs", """        self.cov = A * self.cov * A.transpose() + B_Q_BT;""", """        let propagated = A * (self.cov * A.transpose());
        self.cov = B_Q_BT + propagated;"""),
 ("src/residuals/imu_preint/residual.rs", """        let M = H_p_a * p.cov_accel * H_v_a.transpose()
            + H_p_ainit * p.cov_ainit * H_v_ainit.transpose();
        B.fixed_view_mut::<3, 3>(6, 3).copy_from(&M);
""", """        let mut M = H_p_a * p.cov_accel * H_v_a.transpose();
        M += H_p_ainit * p.cov_ainit * H_v_ainit.transpose();
        B.fixed_view_mut::<3, 3>(6, 3).copy_from(&M);
""")]),
("g2o-whitespace-iter", [("src/utils.rs", """                let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                let x = parts[2].parse::<dtype>().expect("Failed to parse g20");
                let y = parts[3].parse::<dtype>().expect("Failed to parse g20");
                let theta = parts[4].parse::<dtype>().expect("Failed to parse g20");

                let var = SE2::new(theta, x, y);
                let key = X(id);
""", """                let id: u64 = parts[1].parse().expect("Failed to parse g20");
                let nums: Vec<dtype> = parts[2..5]
                    .iter()
                    .map(|p| p.parse().expect("Failed to parse g20"))
                    .collect();

                let var = SE2::new(nums[2], nums[0], nums[1]);
                let key = X(id);
"""), ("src/utils.rs", """                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
""", """                let mut inf = Matrix3::zeros();
                inf[(0, 0)] = m33;
                inf[(0, 1)] = m13;
                inf[(0, 2)] = m23;
                inf[(1, 1)] = m11;
                inf[(1, 2)] = m12;
                inf[(2, 2)] = m22;
                inf.fill_lower_triangle_with_upper_triangle();
""")]),
("g2o-upper-loop", [("src/utils.rs", """                let m11 = parts[6].parse::<dtype>().expect("Failed to parse g20");
                let m12 = parts[7].parse::<dtype>().expect("Failed to parse g20");
                let m13 = parts[8].parse::<dtype>().expect("Failed to parse g20");
                let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
                // g2o orders the information as (x, y, theta), SE2 as (theta, x, y)
                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
""", """                // g2o orders the information as (x, y, theta), SE2 as (theta, x, y)
                let place = [1, 2, 0];
                let mut inf = Matrix3::zeros();
                let mut entries = parts[6..]
                    .iter()
                    .map(|p| p.parse::<dtype>().expect("Failed to parse g20"));
                for row in 0..3 {
                    for col in row..3 {
                        let m = entries.next().expect("Failed to parse g20");
                        inf[(place[row], place[col])] = m;
                        inf[(place[col], place[row])] = m;
                    }
                }
""")]),
("g2o-read-string", [("src/utils.rs", """    let file = File::open(file).expect("File not found!");
""", """    let text = std::fs::read_to_string(file).expect("File not found!");
"""), ("src/utils.rs", """    for line in BufReader::new(file).lines() {
        let line = line.expect("Missing line");
        let parts""", """    for line in text.lines() {
        let parts"""), ("src/utils.rs", """use std::{
    fs::File,
    io::{BufRead, BufReader},
};

""", "")]),
]
