//! IMU preintegration: the library's factor, and the documented model written out with the public operations.
use factrs::{assign_symbols, containers::*, linalg::*, residuals::*, traits::*, variables::*};

assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
type M3 = Matrix3;
type V3 = Vector3;
fn m3(c: &[f64]) -> M3 { M3::from_fn(|i, j| c[3 * i + j]) }
fn v3(c: &[f64]) -> V3 { V3::new(c[0], c[1], c[2]) }
fn bias(c: &[f64]) -> ImuBias { ImuBias::new(Gyro::new(c[0], c[1], c[2]), Accel::new(c[3], c[4], c[5])) }
fn pose(c: &[f64]) -> SE3 { SE3::from_rot_trans(SO3::from_xyzw(c[0], c[1], c[2], c[3]), v3(&c[4..7])) }
/// accel, gyro, accel bias, gyro bias, integration, initial gyro bias, initial accel bias
fn params(c: &[f64; 63]) -> ImuCovariance {
    let mut p = ImuCovariance::default();
    p.cov_accel = m3(&c[0..9]);
    p.cov_gyro = m3(&c[9..18]);
    p.cov_accel_bias = m3(&c[18..27]);
    p.cov_gyro_bias = m3(&c[27..36]);
    p.cov_integration = m3(&c[36..45]);
    p.cov_winit = m3(&c[45..54]);
    p.cov_ainit = m3(&c[54..63]);
    p
}
/// a state: quaternion, position, velocity, gyro bias, accel bias
pub type S = [f64; 16];
/// a measurement: angular velocity, acceleration, time step
pub type Z = [f64; 7];
fn values(s: &S, t: &S) -> Values {
    let mut v = Values::new();
    v.insert(B(1), bias(&t[10..16]));
    v.insert(X(0), pose(&s[0..7]));
    v.insert(V(1), VectorVar3::new(t[7], t[8], t[9]));
    v.insert(V(0), VectorVar3::new(s[7], s[8], s[9]));
    v.insert(X(1), pose(&t[0..7]));
    v.insert(B(0), bias(&s[10..16]));
    v
}
/// analysis point: the analyser may forget how the state `x` came about (see c19.py)
pub fn cut<T>(_x: &mut T) {}
fn preint(c: &[f64; 63], b0: &[f64; 6], g: &[f64; 3], ms: &[Z]) -> ImuPreintegrator {
    let mut p = ImuPreintegrator::new(params(c), bias(b0), Gravity(v3(g)));
    for m in ms { p.integrate(&Gyro::new(m[0], m[1], m[2]), &Accel::new(m[3], m[4], m[5]), m[6]); cut(&mut p); }
    p
}
pub type O = (Vec<u64>, usize);
fn obs(f: Factor, s: &S, t: &S) -> O {
    let _ = f.error(&values(s, t));
    (f.keys().iter().map(|k| k.0).collect(), f.dim_out())
}
pub fn keys() -> Vec<u64> { vec![Key::from(X(0)).0, Key::from(V(0)).0, Key::from(B(0)).0, Key::from(X(1)).0, Key::from(V(1)).0, Key::from(B(1)).0] }

/// the documented model
fn model(c: &[f64; 63], b0: &[f64; 6], g: &[f64; 3], ms: &[Z], s: &S, t: &S, cov0: &[f64; 225]) -> (Vec<f64>, Vec<f64>) {
    let p = params(c);
    let mut cov = Matrix::<15, 15>::from_fn(|i, j| cov0[15 * i + j]);
    let (mut th, mut ve, mut po, mut time) = (V3::zeros(), V3::zeros(), V3::zeros(), 0.0);
    let mut hb = Matrix::<9, 6>::zeros();
    let id = M3::identity();
    for m in ms {
        let w = V3::new(m[0] - b0[0], m[1] - b0[1], m[2] - b0[2]);
        let a = V3::new(m[3] - b0[3], m[4] - b0[4], m[5] - b0[5]);
        let dt = m[6];
        let half = dt * dt / 2.0;
        let r = SO3::exp(th.as_view()).to_matrix();
        let h = SO3::dexp(th.as_view());
        let k = h.try_inverse().unwrap();
        let skew = |u: V3| M3::new(0.0, -u[2], u[1], u[2], 0.0, -u[0], -u[1], u[0], 0.0);
        let mut f = Matrix::<15, 15>::identity();
        let mut set = |i: usize, j: usize, q: &M3| { for x in 0..3 { for y in 0..3 { f[(i + x, j + y)] = q[(x, y)]; } } };
        let lever = r * skew(a) * h;
        set(0, 0, &(id - skew(w) * (dt / 2.0)));
        set(0, 9, &(k * -dt));
        set(3, 0, &(lever * -dt));
        set(3, 12, &(r * -dt));
        set(6, 0, &(lever * -half));
        set(6, 3, &(id * dt));
        set(6, 12, &(r * -half));
        // noise sources: gyro, accel, gyro bias, accel bias, integration, initial gyro bias, initial accel bias
        let mut n = Matrix::<15, 15>::zeros();
        let mut add = |parts: &[(usize, M3)], q: &M3| for (i, x) in parts { for (j, y) in parts {
            let e = x * q * y.transpose();
            for u in 0..3 { for v in 0..3 { n[(i + u, j + v)] += e[(u, v)]; } }
        } };
        add(&[(0, k * dt)], &p.cov_gyro);
        add(&[(3, r * dt), (6, r * half)], &p.cov_accel);
        add(&[(9, id)], &p.cov_gyro_bias);
        add(&[(12, id)], &p.cov_accel_bias);
        add(&[(6, id)], &p.cov_integration);
        add(&[(0, k * -dt)], &p.cov_winit);
        add(&[(3, r * -dt), (6, r * -half)], &p.cov_ainit);
        cov = f * cov * f.transpose() + n;
        // bias Jacobians
        let mut next = Matrix::<9, 6>::zeros();
        for i in 0..9 { for j in 0..6 {
            let mut e = f[(i, 9 + j)];
            for l in 0..9 { e += f[(i, l)] * hb[(l, j)]; }
            next[(i, j)] = e;
        } }
        hb = next;
        // mean
        let aw = r * a;
        po = po + ve * dt + aw * half;
        ve = ve + aw * dt;
        th = th + k * w * dt;
        time = time + dt;
        cut(&mut cov); cut(&mut hb); cut(&mut po); cut(&mut ve); cut(&mut th); cut(&mut time);
    }
    let db: Vec<f64> = (0..6).map(|i| s[10 + i] - b0[i]).collect();
    let upd = |o: usize| V3::from_fn(|i, _| { let mut e = 0.0; for j in 0..6 { e += hb[(o + i, j)] * db[j]; } e });
    let (th, ve, po) = (th + upd(0), ve + upd(3), po + upd(6));
    let (x1, x2) = (pose(&s[0..7]), pose(&t[0..7]));
    let r1 = x1.rot().to_matrix();
    let (g, v1, p1) = (v3(g), v3(&s[7..10]), v3(&s[4..7]));
    let r2 = x1.rot().compose(&SO3::exp(th.as_view()));
    let v2 = r1 * ve + v1 + g * time;
    let p2 = r1 * po + p1 + v1 * time + g * (time * time / 2.0);
    let e = x2.rot().inverse().compose(&r2).log();
    let mut out: Vec<f64> = vec![e[0], e[1], e[2]];
    for i in 0..3 { out.push(v2[i] - t[7 + i]); }
    for i in 0..3 { out.push(p2[i] - t[4 + i]); }
    for i in 0..6 { out.push(s[10 + i] - t[10 + i]); }
    (cov.iter().cloned().collect(), out)
}
macro_rules! runs { ($($m:ident [$($z:ident),*]);* $(;)?) => {$(pub mod $m { use super::*;
    pub fn got(c: [f64; 63], b0: [f64; 6], g: [f64; 3], s: S, t: S $(, $z: Z)*) -> O {
        let ms: Vec<Z> = vec![$($z),*];
        obs(preint(&c, &b0, &g, &ms).build(X(0), V(0), B(0), X(1), V(1), B(1)), &s, &t)
    }
    pub fn unchecked(c: [f64; 63], b0: [f64; 6], g: [f64; 3], s: S, t: S $(, $z: Z)*) -> O {
        let ms: Vec<Z> = vec![$($z),*];
        obs(preint(&c, &b0, &g, &ms).build_unchecked(X(0), V(0), B(0), X(1), V(1), B(1)), &s, &t)
    }
    pub fn want(c: [f64; 63], b0: [f64; 6], g: [f64; 3], s: S, t: S $(, $z: Z)*, cov0: [f64; 225]) -> (Vec<f64>, Vec<f64>) {
        let ms: Vec<Z> = vec![$($z),*];
        model(&c, &b0, &g, &ms, &s, &t, &cov0)
    }
})*}; }
runs!(k0 []; k1 [a]; k2 [a, b]; k3 [a, b, c2]; k4 [a, b, c2, d]);

// ---------------------------------------------------------------- parameters
fn all(p: &ImuCovariance) -> Vec<f64> {
    let mut o = Vec::new();
    for m in [&p.cov_accel, &p.cov_gyro, &p.cov_accel_bias, &p.cov_gyro_bias, &p.cov_integration, &p.cov_winit, &p.cov_ainit] { for e in m.iter() { o.push(*e); } }
    o
}
pub fn setters(c: [f64; 63], v: f64) -> Vec<Vec<f64>> {
    let mut out = Vec::new();
    let mut p = params(&c); p.set_scalar_accel(v); out.push(all(&p));
    let mut p = params(&c); p.set_scalar_gyro(v); out.push(all(&p));
    let mut p = params(&c); p.set_scalar_accel_bias(v); out.push(all(&p));
    let mut p = params(&c); p.set_scalar_gyro_bias(v); out.push(all(&p));
    let mut p = params(&c); p.set_scalar_integration(v); out.push(all(&p));
    let mut p = params(&c); p.set_scalar_init(v); out.push(all(&p));
    out
}
pub fn gravity() -> [f64; 6] { let (u, d): (Gravity, Gravity) = (Gravity::up(), Gravity::down()); [u.0[0], u.0[1], u.0[2], d.0[0], d.0[1], d.0[2]] }
pub fn unbias(m: [f64; 6], b: [f64; 6]) -> [f64; 6] {
    let (w, a) = (Gyro::new(m[0], m[1], m[2]).remove_bias(&bias(&b)), Accel::new(m[3], m[4], m[5]).remove_bias(&bias(&b)));
    [w.0[0], w.0[1], w.0[2], a.0[0], a.0[1], a.0[2]]
}
