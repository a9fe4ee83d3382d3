"""behaviour-preserving edits: (id, [(file, old, new), ...])"""
V = "src/variables/"
R = [
("so3-compose-helper", [(V+"so3.rs", """        let x0 = self.xyzw.x;
        let y0 = self.xyzw.y;
        let z0 = self.xyzw.z;
        let w0 = self.xyzw.w;

        let x1 = other.xyzw.x;
        let y1 = other.xyzw.y;
        let z1 = other.xyzw.z;
        let w1 = other.xyzw.w;

        // Compute the product of the two quaternions, term by term
        let mut xyzw = Vector4::zeros();
        xyzw[0] = w0 * x1 + x0 * w1 + y0 * z1 - z0 * y1;
        xyzw[1] = w0 * y1 - x0 * z1 + y0 * w1 + z0 * x1;
        xyzw[2] = w0 * z1 + x0 * y1 - y0 * x1 + z0 * w1;
        xyzw[3] = w0 * w1 - x0 * x1 - y0 * y1 - z0 * z1;

        SO3 { xyzw }""", """        let u = self.xyzw.fixed_rows::<3>(0).into_owned();
        let v = other.xyzw.fixed_rows::<3>(0).into_owned();
        let (s, t) = (self.w(), other.w());
        let w = s * t - u.dot(&v);
        let xyz = v * s + u * t + u.cross(&v);
        SO3::from_xyzw(xyz[0], xyz[1], xyz[2], w)""")]),
("so3-exp-sinc", [(V+"so3.rs", """            xyzw.w = (theta * T::from(0.5)).cos();

            let omega = xi / theta;
            let sin_theta_half = (theta * T::from(0.5)).sin();
            xyzw.x = omega[0] * sin_theta_half;
            xyzw.y = omega[1] * sin_theta_half;
            xyzw.z = omega[2] * sin_theta_half;""", """            let half = theta * T::from(0.5);
            let (s, c) = half.sin_cos();
            let k = s / theta;
            xyzw = Vector4::new(xi[0] * k, xi[1] * k, xi[2] * k, c);""")]),
("so3-log-early", [(V+"so3.rs", """        let norm_v = xi.norm();
        if norm_v < T::from(1e-3) {
            xi * T::from(2.0)
        } else {
            xi * norm_v.atan2(w) * T::from(2.0) / norm_v
        }""", """        let norm_v = xi.norm();
        if norm_v < T::from(1e-3) {
            return xi * T::from(2.0);
        }
        let scale = norm_v.atan2(w) / norm_v * T::from(2.0);
        xi.map(|c| c * scale)""")]),
("so3-adjoint-tomat", [(V+"so3.rs", """        let q0 = self.xyzw.w;
        let q1 = self.xyzw.x;
        let q2 = self.xyzw.y;
        let q3 = self.xyzw.z;

        // Same as to_matrix function of SO3 -> Just avoiding copying from Matrix3 to
        // MatrixD
        let mut mat = Matrix3::zeros();
        mat[(0, 0)] = T::from(1.0) - (q2 * q2 + q3 * q3) * 2.0;
        mat[(0, 1)] = (q1 * q2 - q0 * q3) * 2.0;
        mat[(0, 2)] = (q1 * q3 + q0 * q2) * 2.0;
        mat[(1, 0)] = (q1 * q2 + q0 * q3) * 2.0;
        mat[(1, 1)] = T::from(1.0) - (q1 * q1 + q3 * q3) * 2.0;
        mat[(1, 2)] = (q2 * q3 - q0 * q1) * 2.0;
        mat[(2, 0)] = (q1 * q3 - q0 * q2) * 2.0;
        mat[(2, 1)] = (q2 * q3 + q0 * q1) * 2.0;
        mat[(2, 2)] = T::from(1.0) - (q1 * q1 + q2 * q2) * 2.0;

        mat""", """        self.to_matrix()""")]),
("so3-hat-new", [(V+"so3.rs", """        let mut xi_hat = Matrix3::zeros();
        xi_hat[(0, 1)] = -xi[2];
        xi_hat[(0, 2)] = xi[1];
        xi_hat[(1, 0)] = xi[2];
        xi_hat[(1, 2)] = -xi[0];
        xi_hat[(2, 0)] = -xi[1];
        xi_hat[(2, 1)] = xi[0];

        xi_hat""", """        let (x, y, z) = (xi.x, xi.y, xi.z);
        let o = T::from(0.0);
        #[rustfmt::skip]
        let m = Matrix3::new(
            o, -z, y,
            z, o, -x,
            -y, x, o,
        );
        m""")]),
("so3-dexp-match", [(V+"so3.rs", """        let (a, b) = if theta2 < T::from(1e-6) {
            (T::from(0.5), T::from(1.0) / T::from(6.0))
        } else {
            let theta = theta2.sqrt();
            let a = (T::from(1.0) - theta.cos()) / theta2;
            let b = (theta - theta.sin()) / (theta * theta2);
            (a, b)
        };

        let hat = SO3::hat(xi);""", """        let small = theta2 < T::from(1e-6);
        let mut a = T::from(0.5);
        let mut b = T::from(1.0 / 6.0);
        if !small {
            let theta = theta2.sqrt();
            a = (T::from(1.0) - theta.cos()) / theta2;
            b = (T::from(1.0) - theta.sin() / theta) / theta2;
        }

        let hat = SO3::hat(xi);""")]),
("so3-frommatrix-helper", [(V+"so3.rs", """        if trace > zero {
            let s = T::from(0.5) / (trace + 1.0).sqrt();
            xyzw[3] = quarter / s;
            xyzw[0] = (mat[(2, 1)] - mat[(1, 2)]) * s;
            xyzw[1] = (mat[(0, 2)] - mat[(2, 0)]) * s;
            xyzw[2] = (mat[(1, 0)] - mat[(0, 1)]) * s;
        } else""", """        let anti = |i: usize, j: usize| mat[(i, j)] - mat[(j, i)];
        if trace > zero {
            let root = (trace + 1.0).sqrt();
            let s = T::from(0.5) / root;
            xyzw[3] = root * T::from(0.5);
            xyzw[0] = anti(2, 1) * s;
            xyzw[1] = anti(0, 2) * s;
            xyzw[2] = anti(1, 0) * s;
        } else""")]),
("so3-dualsetup-loop", [(V+"so3.rs", """        let mut x = DualVector::<N>::from_re(0.0);
        let mut eps = VectorDim::<N>::zeros();
        eps[idx] = 0.5;
        x.eps = Derivative::new(Some(eps));

        let mut y = DualVector::<N>::from_re(0.0);
        let mut eps = VectorDim::<N>::zeros();
        eps[idx + 1] = 0.5;
        y.eps = Derivative::new(Some(eps));

        let mut z = DualVector::<N>::from_re(0.0);
        let mut eps = VectorDim::<N>::zeros();
        eps[idx + 2] = 0.5;
        z.eps = Derivative::new(Some(eps));

        let w = DualVector::<N>::from_re(1.0);

        SO3::from_xyzw(x, y, z, w)""", """        let half = |i: usize| {
            let mut eps = VectorDim::<N>::zeros();
            eps[idx + i] = 0.5;
            let mut d = DualVector::<N>::from_re(0.0);
            d.eps = Derivative::new(Some(eps));
            d
        };
        let w = DualVector::<N>::from_re(1.0);
        SO3::from_xyzw(half(0), half(1), half(2), w)""")]),
("se3-leftjac-helper", [(V+"se3.rs", """            let w2 = xi_rot.norm_squared();
            let B;
            let C;
            if w2 < T::from(1e-5) {
                B = T::from(0.5);
                C = T::from(1.0 / 6.0);
            } else {
                let w = w2.sqrt();
                let A = w.sin() / w;
                B = (T::from(1.0) - w.cos()) / w2;
                C = (T::from(1.0) - A) / w2;
            };
            let I = Matrix3::identity();
            let wx = SO3::hat(xi_rot.as_view());
            let V = I + wx * B + wx * wx * C;
            V * xyz""", """            let (B, C) = Self::coefs(xi_rot.norm_squared());
            let c = xi_rot.cross(&xyz);
            xyz + c * B + xi_rot.cross(&c) * C"""), (V+"se3.rs", """    pub fn rot(&self) -> &SO3<T> {""", """    #[allow(non_snake_case)]
    fn coefs(w2: T) -> (T, T) {
        if w2 < T::from(1e-5) {
            return (T::from(0.5), T::from(1.0 / 6.0));
        }
        let w = w2.sqrt();
        let A = w.sin() / w;
        ((T::from(1.0) - w.cos()) / w2, (T::from(1.0) - A) / w2)
    }

    pub fn rot(&self) -> &SO3<T> {"""), (V+"se3.rs", """            let w2 = xi_theta.norm_squared();
            let B;
            let C;
            if w2 < T::from(1e-5) {
                B = T::from(0.5);
                C = T::from(1.0 / 6.0);
            } else {
                let w = w2.sqrt();
                let A = w.sin() / w;
                B = (T::from(1.0) - w.cos()) / w2;
                C = (T::from(1.0) - A) / w2;
            };

""", """            let (B, C) = Self::coefs(xi_theta.norm_squared());
""")]),
("se3-log-vstack", [(V+"se3.rs", """        xi.as_mut_slice()[0..3].clone_from_slice(xi_theta.as_slice());
        xi.as_mut_slice()[3..6].clone_from_slice(xyz.as_slice());

        xi""", """        xi.rows_mut(0, 3).copy_from(&xi_theta);
        for i in 0..3 {
            xi[3 + i] = xyz[i];
        }
        xi""")]),
("se3-log-solve", [(V+"se3.rs", """            let Vinv = V.try_inverse().expect("V is not invertible");
            Vinv * self.xyz""", """            match V.try_inverse() {
                Some(Vinv) => Vinv * self.xyz,
                None => panic!("V is not invertible"),
            }""")]),
("se3-adjoint-order", [(V+"se3.rs", """        let mut mat = Matrix6::zeros();

        let r_mat = self.rot.to_matrix();
        let t_r_mat = SO3::hat(self.xyz.as_view()) * r_mat;

        mat.fixed_view_mut::<3, 3>(0, 0).copy_from(&r_mat);
        mat.fixed_view_mut::<3, 3>(3, 3).copy_from(&r_mat);
        mat.fixed_view_mut::<3, 3>(3, 0).copy_from(&t_r_mat);

        mat""", """        let r_mat = self.rot.to_matrix();
        let t_r_mat = SO3::hat(self.xyz.as_view()) * r_mat;
        Matrix6::from_fn(|i, j| match (i / 3, j / 3) {
            (1, 0) => t_r_mat[(i - 3, j)],
            (0, 1) => T::from(0.0),
            _ => r_mat[(i % 3, j % 3)],
        })""")]),
("se3-inverse-order", [(V+"se3.rs", """        let inv = self.rot.inverse();
        SE3 {
            xyz: -&inv.apply(self.xyz.as_view()),
            rot: inv,
        }""", """        let rot = self.rot.inverse();
        let neg = -self.xyz;
        let xyz = rot.apply(neg.as_view());
        SE3 { rot, xyz }""")]),
("se2-exp-tuple", [(V+"se2.rs", """            let A;
            let B;
            if theta.abs() < T::from(1e-5) {
                A = T::from(1.0);
                B = theta * T::from(0.5);
            } else {
                A = theta.sin() / theta;
                B = (T::from(1.0) - theta.cos()) / theta;
            };
            let V = Matrix2::new(A, -B, B, A);
            V * xy""", """            let (A, B) = if theta.abs() < T::from(1e-5) {
                (T::from(1.0), theta * T::from(0.5))
            } else {
                (theta.sin() / theta, (T::from(1.0) - theta.cos()) / theta)
            };
            Vector2::new(A * xy[0] - B * xy[1], B * xy[0] + A * xy[1])""")]),
("se2-log-closed", [(V+"se2.rs", """            let V = Matrix2::new(A, -B, B, A);

            let Vinv = V.try_inverse().expect("V is not invertible");
            &(Vinv * self.xy)""", """            let det = A * A + B * B;
            let p = &self.xy;
            &Vector2::new((A * p[0] + B * p[1]) / det, (A * p[1] - B * p[0]) / det)""")]),
("se2-hat-fromfn", [(V+"se2.rs", """        let mut mat = Matrix3::<T>::zeros();
        mat[(0, 1)] = -xi[0];
        mat[(1, 0)] = xi[0];

        mat[(0, 2)] = xi[1];
        mat[(1, 2)] = xi[2];

        mat""", """        let mut mat = Matrix3::<T>::zeros();
        let block = SO2::hat(xi.fixed_rows::<1>(0).into_owned().as_view());
        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&block);
        for i in 0..2 {
            mat[(i, 2)] = xi[i + 1];
        }
        mat""")]),
("so2-theta-share", [(V+"so2.rs", """        vectorx![self.b.atan2(self.a)]""", """        let theta = self.to_theta();
        vectorx![theta]"""), (V+"so2.rs", """        SO2 {
            a: (&theta).cos(),
            b: (&theta).sin(),
        }""", """        let (b, a) = theta.sin_cos();
        SO2 { a, b }"""), (V+"so2.rs", """        let theta = xi[0];
        SO2::from_theta(theta)""", """        Self::from_theta(xi[0])""")]),
("traits-oplus-inline", [(V+"traits.rs", """        if cfg!(feature = "left") {
            self.oplus_left(xi)
        } else {
            self.oplus_right(xi)
        }""", """        let e = Self::exp(xi);
        if cfg!(not(feature = "left")) {
            self.compose(&e)
        } else {
            e.compose(self)
        }"""), (V+"traits.rs", """        y.inverse().compose(self).log()""", """        self.minus(y).log()"""), (V+"traits.rs", """        // Setups tangent vector -> exp, then we compose here
        let setup = Self::dual_setup(idx);
        if cfg!(feature = "left") {
            setup.compose(&Self::dual_convert(other))
        } else {
            Self::dual_convert(other).compose(&setup)
        }""", """        let base = Self::dual_convert(other);
        let setup = Self::dual_setup(idx);
        let (first, second) = if cfg!(feature = "left") {
            (setup, base)
        } else {
            (base, setup)
        };
        first.compose(&second)"""), (V+"traits.rs", """        *self = self.oplus(delta);""", """        let new = self.oplus(delta);
        let _ = std::mem::replace(self, new);"""), (V+"traits.rs", """        for (i, tvi) in tv.iter_mut().enumerate() {
            tvi.eps = num_dual::Derivative::derivative_generic(n, Const::<1>, idx + i)
        }""", """        for i in 0..Self::DIM {
            tv[i].eps = num_dual::Derivative::derivative_generic(n, Const::<1>, idx + i);
        }""")]),
]
