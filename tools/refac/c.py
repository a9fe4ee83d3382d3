C = "src/containers/"; I = "src/residuals/imu_preint/"
R = [
("numdiff-closure", [("src/linalg/numerical_diff.rs", """                        let delta = (plus - minus) / (2.0 * eps);
                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);
""", """                        let scale = 0.5 / eps;
                        jac.set_column(curr_dim + j, &((plus - minus) * scale));
""")]),
("numdiff-loops", [("src/linalg/numerical_diff.rs", """                let mut dim = 0;
                $(dim += $name.dim();)*

                let res = f($( $name.clone(), )*);

                let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                let mut tvs = [$( VectorX::zeros($name.dim()), )*];
""", """                let mut tvs = [$( VectorX::zeros($name.dim()), )*];
                let dim: usize = tvs.iter().map(|t| t.len()).sum();

                let res = f($( $name.clone(), )*);

                let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
""")]),
("fwd-loop", [("src/linalg/forward_prop.rs", """                let n = VectorDim::<N>::zeros().shape_generic().0;
                let eps1 = MatrixDim::<Dyn, N>::from_rows(
                    res.map(|r| r.eps.unwrap_generic(n, Const::<1>).transpose())
                        .as_slice(),
                );

                let mut eps = MatrixX::zeros(res.len(), N::USIZE);
                eps.copy_from(&eps1);
""", """                let n = VectorDim::<N>::zeros().shape_generic().0;
                let mut eps = MatrixX::zeros(res.len(), N::USIZE);
                for (i, r) in res.iter().enumerate() {
                    let g = r.eps.clone().unwrap_generic(n, Const::<1>);
                    for j in 0..N::USIZE {
                        eps[(i, j)] = g[j];
                    }
                }
"""), ("src/linalg/forward_prop.rs", """    AllocatorBuffer, Diff, MatrixDim,
};""", """    AllocatorBuffer, Diff,
};"""), ("src/linalg/forward_prop.rs", "DimName, Dyn, MatrixX", "DimName, MatrixX")]),
("block-match", [("src/linalg/mod.rs", """        let idx_start = self.idx[idx];
        let idx_end = if idx + 1 < self.idx.len() {
            self.idx[idx + 1]
        } else {
            self.mat.ncols()
        };
        self.mat.columns(idx_start, idx_end - idx_start)""", """        let start = self.idx[idx];
        let end = self.idx.get(idx + 1).copied().unwrap_or(self.mat.ncols());
        self.mat.columns_range(start..end)""")]),
("grad-transpose", [("src/linalg/mod.rs", """                    let diff = VectorX::from_iterator(diff.len(), diff.iter().cloned());
                    DiffResult { value: value[0], diff }""", """                    let diff = diff.row(0).transpose();
                    DiffResult { value: value[0], diff }""")]),
("imu-bqbt-helper", [(I+"residual.rs", """        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
            + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
        B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
""", """        let quad = |h: &Matrix3, q: &Matrix3| h * q * h.transpose();
        let M = quad(&H_theta_w, &p.cov_gyro) + quad(&H_theta_winit, &p.cov_winit);
        B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
"""), (I+"residual.rs", """        let M = H_v_a * p.cov_accel * H_p_a.transpose()
            + H_v_ainit * p.cov_ainit * H_p_ainit.transpose();
        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M);""", """        let M = H_v_a * p.cov_accel * H_p_a.transpose()
            + H_v_ainit * p.cov_ainit * H_p_ainit.transpose();
        for i in 0..3 {
            for j in 0..3 {
                B[(3 + i, 6 + j)] = M[(i, j)];
            }
        }""")]),
("imu-integrate-order", [(I+"delta.rs", """        let A = self.A(gyro, accel, dt);

        self.dt += dt;
        let accel_world = SO3::exp(self.xi_theta.as_view()).apply(accel.0.as_view());
        let H = SO3::dexp(self.xi_theta.as_view());
        let Hinv = H.try_inverse().expect("Failed to invert H(theta)");

        self.xi_pos += self.xi_vel * dt + accel_world * (dt * dt * 0.5);
        self.xi_vel += accel_world * dt;
        self.xi_theta += Hinv * gyro.0 * dt;
""", """        let A = self.A(gyro, accel, dt);
        let H = SO3::dexp(self.xi_theta.as_view());
        let Hinv = H.try_inverse().expect("Failed to invert H(theta)");
        let rot = SO3::exp(self.xi_theta.as_view());
        let dv = rot.apply(accel.0.as_view()) * dt;

        let pos = self.xi_pos + (self.xi_vel + dv * T::from(0.5)) * dt;
        let theta = self.xi_theta + Hinv * (gyro.0 * dt);
        self.xi_theta = theta;
        self.xi_vel += dv;
        self.xi_pos = pos;
        self.dt += dt;
"""), (I+"delta.rs", """        let v2_meas = v + self.gravity.0 * self.dt + r.apply(xi_v.as_view());

        // R * p + p + v * dt + g * dt^2 / 2
        // TODO: same as above, but with gravity * dt * dt / 2
        let p2_meas = p
            + v * self.dt
            + self.gravity.0 * self.dt * self.dt * T::from(0.5)
            + r.apply(xi_p.as_view());
""", "")][:1]),
("imu-propagate", [(I+"delta.rs", """        let Amini = A.fixed_view::<9, 9>(0, 0);
        let Bgyro = A.fixed_view::<9, 3>(0, 9);
        let Baccel = A.fixed_view::<9, 3>(0, 12);
        self.h_bias_gyro = Amini * self.h_bias_gyro + Bgyro;
        self.h_bias_accel = Amini * self.h_bias_accel + Baccel;""", """        let Amini = A.fixed_view::<9, 9>(0, 0).into_owned();
        let step = |h: &Matrix<9, 3, T>, col: usize| Amini * h + A.fixed_view::<9, 3>(0, col);
        self.h_bias_accel = step(&self.h_bias_accel, 12);
        self.h_bias_gyro = step(&self.h_bias_gyro, 9);""")]),
("between-let", [("src/residuals/between.rs", """        v1.compose(&delta).ominus(&v2)""", """        let predicted = v1.compose(&delta);
        let out = predicted.ominus(&v2);
        out"""), ("src/residuals/prior.rs", """        Self::V1::dual_convert::<T>(&self.prior).ominus(&v)""", """        let prior = P::dual_convert::<T>(&self.prior);
        prior.ominus(&v)""")]),
("g2o-parse-helper", [("src/utils.rs", """                let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                let x = parts[2].parse::<dtype>().expect("Failed to parse g20");
                let y = parts[3].parse::<dtype>().expect("Failed to parse g20");
                let theta = parts[4].parse::<dtype>().expect("Failed to parse g20");
""", """                let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                let nums = parts[2..]
                    .iter()
                    .take(3)
                    .map(|p| p.parse::<dtype>().expect("Failed to parse g20"))
                    .collect::<Vec<_>>();
                let (x, y, theta) = (nums[0], nums[1], nums[2]);
"""), ("src/utils.rs", """                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
""", """                let mut inf = Matrix3::zeros();
                inf[(0, 0)] = m33;
                inf[(1, 1)] = m11;
                inf[(2, 2)] = m22;
                inf[(0, 1)] = m13;
                inf[(0, 2)] = m23;
                inf[(1, 2)] = m12;
                inf.fill_lower_triangle_with_upper_triangle();
""")]),
("g2o-closure", [("src/utils.rs", """                let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                let x = parts[2].parse::<dtype>().expect("Failed to parse g20");
                let y = parts[3].parse::<dtype>().expect("Failed to parse g20");
                let z = parts[4].parse::<dtype>().expect("Failed to parse g20");
                let qx = parts[5].parse::<dtype>().expect("Failed to parse g20");
                let qy = parts[6].parse::<dtype>().expect("Failed to parse g20");
                let qz = parts[7].parse::<dtype>().expect("Failed to parse g20");
                let qw = parts[8].parse::<dtype>().expect("Failed to parse g20");
""", """                let num = |i: usize| parts[i].parse::<dtype>().expect("Failed to parse g20");
                let id: u64 = parts[1].parse().expect("Failed to parse g20");
                let [x, y, z] = [num(2), num(3), num(4)];
                let (qx, qy, qz, qw) = (num(5), num(6), num(7), num(8));
"""), ("src/utils.rs", """        let line = line.expect("Missing line");
        let parts = line.split(" ").collect::<Vec<&str>>();
        match parts[0] {""", """        let line = match line {
            Ok(l) => l,
            Err(e) => panic!("Missing line: {e}"),
        };
        let parts: Vec<&str> = line.split(' ').collect();
        match parts[0] {""")]),
("imubias-misc", [("src/variables/imu_bias.rs", """        crate::linalg::vectorx![
            self.gyro.x,
            self.gyro.y,
            self.gyro.z,
            self.accel.x,
            self.accel.y,
            self.accel.z
        ]""", """        crate::linalg::VectorX::from_iterator(
            6,
            self.gyro.iter().chain(self.accel.iter()).cloned(),
        )"""), ("src/variables/imu_bias.rs", """        let gyro = Vector3::new(delta[0], delta[1], delta[2]);
        let accel = Vector3::new(delta[3], delta[4], delta[5]);
        ImuBias { gyro, accel }""", """        let part = |k: usize| Vector3::from_fn(|i, _| delta[k + i]);
        ImuBias {
            gyro: part(0),
            accel: part(3),
        }""")]),
("vector-misc", [("src/variables/vector.rs", """        VectorVar(Vector::from_iterator(delta.iter().cloned()))""", """        let mut out = Vector::<N, T>::zeros();
        out.copy_from(&delta);
        VectorVar(out)"""), ("src/variables/vector.rs", """        VectorX::from_iterator(Self::DIM, self.0.iter().cloned())""", """        VectorX::from_column_slice(self.0.as_slice())"""), ("src/variables/vector.rs", """        for (i, tvi) in tv.iter_mut().enumerate() {
            tvi.eps = num_dual::Derivative::derivative_generic(n, Const::<1>, idx + i);
        }
        VectorVar(tv)""", """        let mut k = idx;
        for tvi in tv.iter_mut() {
            tvi.eps = num_dual::Derivative::derivative_generic(n, Const::<1>, k);
            k += 1;
        }
        VectorVar(tv)""")]),
]
