C = "src/containers/"; L = "src/linear/"; O = "src/optimizers/"
R = [
("factor-helper", [(C+"factor.rs", """        let r = self.residual.residual(values, &self.keys);
        let r = self.noise.whiten_vec(r);
        let norm2 = r.norm_squared();
        self.robust.loss(norm2)
    }
""", """        let whitened = self.whitened(values);
        self.robust.loss(whitened.dot(&whitened))
    }

    fn whitened(&self, values: &Values) -> crate::linalg::VectorX {
        self.noise
            .whiten_vec(self.residual.residual(values, self.keys()))
    }
"""), (C+"factor.rs", """        let idx = self
            .keys
            .iter()
            .scan(0, |sum, k| {
                let out = Some(*sum);
                *sum += values.get_raw(*k).expect("Key missing in values").dim();
                out
            })
            .collect::<Vec<_>>();
        let a""", """        let mut idx = Vec::with_capacity(self.keys.len());
        let mut start = 0;
        for key in &self.keys {
            idx.push(start);
            start += values.get_raw(*key).expect("Key missing in values").dim();
        }
        let a"""), (C+"factor.rs", """        let a = weight * a;
        let b = -weight * r;
""", """        let b = r * -weight;
        let a = a * weight;
""")]),
("factor-build-match", [(C+"factor.rs", """        let noise = self.noise.unwrap_or_else(|| Box::new(UnitNoise::<DIM_OUT>));
        let robust = self.robust.unwrap_or_else(|| Box::new(L2));
        Factor {
            keys: self.keys.to_vec(),
            residual: self.residual,""", """        let Self {
            keys,
            residual,
            noise,
            robust,
        } = self;
        let noise: Box<dyn NoiseModel> = match noise {
            Some(n) => n,
            None => Box::new(UnitNoise::<DIM_OUT>),
        };
        let robust: Box<dyn RobustCost> = match robust {
            Some(r) => r,
            None => Box::new(L2),
        };
        Factor {
            keys,
            residual,""")]),
("graph-error-loop", [(C+"graph.rs", """        self.factors.iter().map(|f| f.error(values)).sum()""", """        let mut total = 0.0;
        for f in self.factors.iter() {
            total += f.error(values);
        }
        total"""), (C+"graph.rs", """        let factors = self.factors.iter().map(|f| f.linearize(values)).collect();
        LinearGraph::from_vec(factors)""", """        let mut out = LinearGraph::new();
        for f in &self.factors {
            out.add_factor(f.linearize(values));
        }
        out""")]),
("graph-pattern-loop", [(C+"graph.rs", """        let _ = self.factors.iter().fold(0, |row, f| {
            f.keys().iter().for_each(|key| {
                (0..f.dim_out()).for_each(|i| {
                    let Idx {
                        idx: col,
                        dim: col_dim,
                    } = order.get(*key).expect("Key missing in values");
                    (0..*col_dim).for_each(|j| {
                        indices.push((row + i, col + j));
                    });
                });
            });
            row + f.dim_out()
        });
""", """        let mut row = 0;
        for f in &self.factors {
            let rows = f.dim_out();
            for key in f.keys() {
                let Idx { idx, dim } = order.get(*key).expect("Key missing in values").clone();
                for i in 0..rows {
                    indices.extend((idx..idx + dim).map(|c| (row + i, c)));
                }
            }
            row += rows;
        }
""")]),
("lingraph-loops", [(L+"graph.rs", """        let _ = self.factors.iter().fold(0, |row, f| {
            r.subrows_mut(row, f.dim_out())
                .copy_from(&f.b.view_range(.., ..).into_faer());
            row + f.dim_out()
        });
""", """        let mut row = 0;
        for f in &self.factors {
            for (i, v) in f.b.iter().enumerate() {
                r.write(row + i, 0, *v);
            }
            row += f.dim_out();
        }
"""), (L+"graph.rs", """        let _ = self.factors.iter().fold(0, |row, f| {
            // Iterate over keys
            (0..f.keys.len()).for_each(|idx| {
                // Iterate over rows, then column elements
                f.a.get_block(idx).row_iter().for_each(|r| {
                    r.iter().for_each(|val| {
                        values.push(*val);
                    });
                });
            });
            row + f.dim_out()
        });
""", """        for f in self.factors.iter() {
            for k in 0..f.keys.len() {
                let block = f.a.get_block(k);
                for i in 0..block.nrows() {
                    for j in 0..block.ncols() {
                        values.push(block[(i, j)]);
                    }
                }
            }
        }
""")]),
("linfactor-fold", [(L+"factor.rs", """        let ax: VectorX = self
            .keys
            .iter()
            .enumerate()
            .map(|(idx, key)| {
                self.a.mul(
                    idx,
                    vector
                        .get(*key)
                        .expect("Missing key in LinearValues::error"),
                )
            })
            .sum();
        (ax - &self.b).norm_squared() / 2.0""", """        let mut res = -self.b.clone();
        for (idx, key) in self.keys.iter().enumerate() {
            let v = vector
                .get(*key)
                .expect("Missing key in LinearValues::error");
            res += self.a.mul(idx, v);
        }
        0.5 * res.norm_squared()""")]),
("order-loop", [(C+"order.rs", """        let map = values
            .iter()
            .scan(0, |idx, (key, val)| {
                let order = *idx;
                *idx += val.dim();
                Some((
                    *key,
                    Idx {
                        idx: order,
                        dim: val.dim(),
                    },
                ))
            })
            .collect::<HashMap<Key, Idx>>();

        let dim = map.values().map(|idx| idx.dim).sum();

        Self { map, dim }""", """        let mut map = HashMap::default();
        let mut dim = 0;
        for (key, val) in values.iter() {
            let d = val.dim();
            map.insert(*key, Idx { idx: dim, dim: d });
            dim += d;
        }
        Self { map, dim }""")]),
("order-sorted", [(C+"order.rs", """        let map = values
            .iter()
            .scan(0,""", """        let mut entries: Vec<_> = values.iter().collect();
        entries.sort_by_key(|(k, _)| k.0);
        let map = entries
            .into_iter()
            .scan(0,""")]),
("linvalues-misc", [(L+"values.rs", """        let idx = self.order.get(key)?;
        self.get_idx(idx).into()""", """        self.order.get(key).map(|idx| self.get_idx(idx))"""), (L+"values.rs", """        let n = self.idx.next()?;
        Some((n.0, self.values.get_idx(n.1)))""", """        match self.idx.next() {
            None => None,
            Some((key, idx)) => Some((key, self.values.get_idx(idx))),
        }"""), (L+"values.rs", """        let order = ValuesOrder::from_values(values);
        let values = VectorX::zeros(order.dim());
        Self { values, order }""", """        Self::zero_from_order(ValuesOrder::from_values(values))"""), (L+"values.rs", """        assert!(
            values.len() == order.dim(),
            "Vector and order must have the same dimension when creating LinearValues"
        );
""", """        if values.len() != order.dim() {
            panic!("Vector and order must have the same dimension when creating LinearValues");
        }
"""), (L+"values.rs", """        self.values.rows(idx.idx, idx.dim)""", """        let Idx { idx: start, dim } = *idx;
        self.values.rows(start, dim)""")]),
("values-misc", [(C+"values.rs", """        for (key, value) in delta.iter() {
            if let Some(v) = self.values.get_mut(key) {
                assert!(v.dim() == value.len(), "Dimension mismatch in values oplus",);
                v.oplus_mut(value);
            }
        }""", """        for (key, v) in self.values.iter_mut() {
            if let Some(value) = delta.get(*key) {
                assert_eq!(v.dim(), value.len(), "Dimension mismatch in values oplus");
                v.oplus_mut(value);
            }
        }"""), (C+"values.rs", """        self.values
            .iter()
            .filter_map(|(_, value)| value.downcast_ref::<T>())""", """        self.values
            .values()
            .filter_map(|value| value.downcast_ref::<T>())"""), (C+"values.rs", """            .remove(&symbol.into())
            .and_then(|value| value.downcast::<V>().ok())
            .map(|value| *value)""", """            .remove(&symbol.into())
            .and_then(|value| match value.downcast::<V>() {
                Ok(v) => Some(*v),
                Err(_) => None,
            })""")]),
("values-get-share", [(C+"values.rs", """        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        self.values
            .get(&symbol.into())
            .and_then(|value| value.downcast_ref::<V>())""", """        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        self.get_unchecked(symbol)"""), (C+"values.rs", """        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        self.values.insert(symbol.into(), Box::new(value))""", """        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        self.insert_unchecked(symbol, value)"""), (C+"values.rs", """        S: Symbol,
        V: VariableUmbrella,
    {
        self.values.insert(symbol.into(), Box::new(value))""", """        S: Symbol,
        V: VariableUmbrella,
    {
        let key: Key = symbol.into();
        let boxed: Box<dyn VariableSafe> = Box::new(value);
        match self.values.entry(key) {
            Entry::Occupied(mut e) => Some(e.insert(boxed)),
            Entry::Vacant(e) => {
                e.insert(boxed);
                None
            }
        }""")]),
("symbol-shift", [(C+"symbol.rs", """        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)
            .unwrap_or(char::REPLACEMENT_CHARACTER);
        let idx = key.0 & IDX_MASK;""", """        let raw = key.0;
        let idx = raw & IDX_MASK;
        let chr = match char::from_u32((raw >> IDX_BITS) as u32) {
            Some(c) => c,
            None => char::REPLACEMENT_CHARACTER,
        };"""), (C+"symbol.rs", """        Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)""", """        let hi = u64::from(u32::from(sym.chr)) << IDX_BITS;
        let lo = sym.idx & IDX_MASK;
        Key(hi + lo)""")]),
("solver-helper", [(L+"solvers.rs", """        if self.sparsity_pattern.is_none() {
            self.sparsity_pattern = Some(
                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
                    .expect("Symbolic cholesky failed"),
            );
        }

        solvers::Cholesky::try_new_with_symbolic(
            self.sparsity_pattern
                .clone()
                .expect("Missing symbol cholesky"),
            a,""", """        let symbolic = self
            .sparsity_pattern
            .get_or_insert_with(|| {
                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
                    .expect("Symbolic cholesky failed")
            })
            .clone();

        solvers::Cholesky::try_new_with_symbolic(
            symbolic,
            a,"""), (L+"solvers.rs", """        let ata = a
            .transpose()
            .to_col_major()
            .expect("Failed to transpose A matrix")
            .mul(a);

        let atb = a.transpose().mul(b);

        self.solve_symmetric(ata.as_ref(), atb.as_ref())""", """        let (ata, atb) = normal(a, b);
        self.solve_symmetric(ata.as_ref(), atb.as_ref())"""), (L+"solvers.rs", """        let ata = a
            .transpose()
            .to_col_major()
            .expect("Failed to transpose A matrix")
            .mul(a);
        let atb = a.transpose().mul(b);

        self.solve_symmetric(ata.as_ref(), atb.as_ref())""", """        let (ata, atb) = normal(a, b);
        self.solve_symmetric(ata.as_ref(), atb.as_ref())"""), (L+"solvers.rs", """// ------------------------- Cholesky Linear Solver ------------------------- //
""", """fn normal(
    a: SparseColMatRef<usize, dtype>,
    b: MatRef<dtype>,
) -> (faer::sparse::SparseColMat<usize, dtype>, Mat<dtype>) {
    let at = a.transpose();
    let atb = at * b;
    let ata = at.to_col_major().expect("Failed to transpose A matrix") * a;
    (ata, atb)
}

""")]),
("optimize-while", [(O+"traits.rs", """        let mut error_new = error_old;
        for i in 1..self.params().max_iterations + 1 {
            error_old = error_new;
            values = self.step(values, i)?;

            // Evaluate error again to see how we did
            error_new = self.error(&values);
""", """        let mut i = 0;
        while i < self.params().max_iterations {
            i += 1;
            values = match self.step(values, i) {
                Ok(v) => v,
                Err(e) => return Err(e),
            };

            // Evaluate error again to see how we did
            let error_new = self.error(&values);
"""), (O+"traits.rs", """                log::info!("Error decrease is below relative tolerance, stopping optimization");
                return Ok(values);
            }
        }""", """                log::info!("Error decrease is below relative tolerance, stopping optimization");
                return Ok(values);
            }
            error_old = error_new;
        }""")]),
("optimize-converged-fn", [(O+"traits.rs", """            // Check if we need to stop
            if error_new <= self.params().error_tol {
                log::info!("Error is below tolerance, stopping optimization");
                return Ok(values);
            }
            if error_decrease_abs <= self.params().error_tol_absolute {
                log::info!("Error decrease is below absolute tolerance, stopping optimization");
                return Ok(values);
            }
            if error_decrease_rel <= self.params().error_tol_relative {
                log::info!("Error decrease is below relative tolerance, stopping optimization");
                return Ok(values);
            }
""", """            let p = self.params();
            let stop = error_decrease_rel <= p.error_tol_relative
                || error_new <= p.error_tol
                || error_decrease_abs <= p.error_tol_absolute;
            if stop {
                log::info!("stopping optimization");
                return Ok(values);
            }
"""), (O+"traits.rs", """        for callback in &self.observers {
            callback.on_step(values, idx as f64);
        }""", """        let time = idx as f64;
        self.observers
            .iter()
            .for_each(|callback| callback.on_step(values, time));""")]),
("gn-bindings", [(O+"gauss_newton.rs", """        let linear_graph = self.graph.linearize(&values);
        let DiffResult { value: r, diff: j } =
            linear_graph.residual_jacobian(self.graph_order.as_ref().expect("Missing graph order"));

        // Solve Ax = b
        let delta = self
            .solver
            .solve_lst_sq(j.as_ref(), r.as_ref())
            .as_ref()
            .into_nalgebra()
            .column(0)
            .clone_owned();
""", """        let go = self.graph_order.as_ref().expect("Missing graph order");
        let order = go.order.clone();
        let sys = self.graph.linearize(&values).residual_jacobian(go);
        let x = self.solver.solve_lst_sq(sys.diff.as_ref(), sys.value.as_ref());
        let delta = crate::linalg::VectorX::from_fn(x.nrows(), |i, _| x.read(i, 0));
"""), (O+"gauss_newton.rs", """        let dx = LinearValues::from_order_and_vector(
            self.graph_order.as_ref().expect("Missing graph order").order.clone(),
            delta,
        );
        values.oplus_mut(&dx);""", """        values.oplus_mut(&LinearValues::from_order_and_vector(order, delta));"""), (O+"gauss_newton.rs", """    linalg::DiffResult,
""", ""), (O+"gauss_newton.rs", """use faer_ext::IntoNalgebra;

""", "")]),
("lm-restructure", [(O+"levenberg_marquardt.rs", """        let triplets_i = if self.params_leven.diagonal_damping {
            (0..jtj.ncols())
                .map(|i| (i as isize, i as isize, jtj[(i, i)]))
                .collect::<Vec<_>>()
        } else {
            (0..jtj.ncols())
                .map(|i| (i as isize, i as isize, 1.0))
                .collect::<Vec<_>>()
        };""", """        let diag = self.params_leven.diagonal_damping;
        let triplets_i = (0..jtj.ncols())
            .map(|i| {
                let d = if diag { jtj[(i, i)] } else { 1.0 };
                (i as isize, i as isize, d)
            })
            .collect::<Vec<_>>();"""), (O+"levenberg_marquardt.rs", """            if curr_error < old_error {
                break;
            }

            self.lambda *= self.params_leven.lambda_factor;
            if self.lambda > self.params_leven.lambda_max {
                return Err(OptError::FailedToStep);
            }
        }
""", """            if old_error > curr_error {
                break;
            }

            let bigger = self.lambda * self.params_leven.lambda_factor;
            self.lambda = bigger;
            if bigger > self.params_leven.lambda_max {
                return Err(OptError::FailedToStep);
            }
        }
"""), (O+"levenberg_marquardt.rs", """        self.lambda /= self.params_leven.lambda_factor;
        if self.lambda < self.params_leven.lambda_min {
            self.lambda = self.params_leven.lambda_min;
        }
""", """        self.lambda =
            (self.lambda / self.params_leven.lambda_factor).max(self.params_leven.lambda_min);
""")]),
("noise-gauss", [("src/noise/gaussian.rs", """        let mut out = VectorX::zeros(v.len());
        self.sqrt_inf.mul_to(&v, &mut out);
        out""", """        let prod = self.sqrt_inf * v;
        VectorX::from_column_slice(prod.as_slice())"""), ("src/noise/gaussian.rs", """        let sqrt_inf = Matrix::<N, N>::from_diagonal(&cov.map(|x| 1.0 / x.sqrt()));
        Self { sqrt_inf }""", """        let sigma = cov.map(|x| x.sqrt());
        Self::from_vec_sigma(sigma.as_view())"""), ("src/noise/gaussian.rs", """        let sqrt_inf = Matrix::<N, N>::from_diagonal_element(1.0 / cov.sqrt());
        Self { sqrt_inf }""", """        Self::from_scalar_sigma(cov.sqrt())"""), ("src/noise/gaussian.rs", """        let sqrt_inf = cov
            .try_inverse()
            .expect("Matrix inversion failed when creating sqrt covariance.")
            .cholesky()
            .expect("Cholesky failed when creating sqrt information.")
            .l()
            .transpose();
        Self { sqrt_inf }""", """        let inf = cov
            .try_inverse()
            .expect("Matrix inversion failed when creating sqrt covariance.");
        Self::from_matrix_inf(inf.as_view())""")]),
("robust-misc", [("src/robust/mod.rs", """        if d2 <= self.k * self.k {
            d2 / 2.0
        } else {
            let d = d2.sqrt();
            self.k * (d - self.k / 2.0)
        }""", """        let d = d2.sqrt();
        if d > self.k {
            return self.k * d - 0.5 * self.k * self.k;
        }
        0.5 * d2"""), ("src/robust/mod.rs", """        let denom = self.c2 + d2;
        let frac = self.c2 / denom;
        frac * frac""", """        (self.c2 / (self.c2 + d2)).powi(2)"""), ("src/robust/mod.rs", """            self.c2 * (1.0 - (1.0 - d2 / self.c2).powi(3)) / 6.0""", """            let t = 1.0 - d2 / self.c2;
            self.c2 / 6.0 * (1.0 - t * t * t)"""), ("src/robust/mod.rs", """        self.c * self.c * (d / self.c - (1.0 + (d / self.c)).ln())""", """        let x = d / self.c;
        self.c.powi(2) * (x - x.ln_1p())""")]),
]
