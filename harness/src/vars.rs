//! Public operations of every variable type on plain coordinates.
use crate::unk;
use factrs::{linalg::*, traits::*, variables::*};
use factrs::residuals::{Accel, Gyro};
use nalgebra as na;
use std::fmt;

pub trait Co: Sized {
    type P;
    type O;
    fn mk(p: Self::P) -> Self;
    fn obs(&self) -> Self::O;
}
impl Co for SO2 {
    type P = [f64; 1];
    type O = [f64; 2];
    fn mk(p: [f64; 1]) -> Self { SO2::from_theta(p[0]) }
    fn obs(&self) -> [f64; 2] { let m = self.to_matrix(); [m[(0, 0)], m[(1, 0)]] }
}
impl Co for SO3 {
    type P = [f64; 4];
    type O = [f64; 4];
    fn mk(p: [f64; 4]) -> Self { SO3::from_xyzw(p[0], p[1], p[2], p[3]) }
    fn obs(&self) -> [f64; 4] { [self.x(), self.y(), self.z(), self.w()] }
}
impl Co for SE2 {
    type P = [f64; 3];
    type O = [f64; 4];
    fn mk(p: [f64; 3]) -> Self { SE2::new(p[0], p[1], p[2]) }
    fn obs(&self) -> [f64; 4] { let m = self.rot().to_matrix(); [m[(0, 0)], m[(1, 0)], self.x(), self.y()] }
}
impl Co for SE3 {
    type P = [f64; 7];
    type O = [f64; 7];
    fn mk(p: [f64; 7]) -> Self { SE3::from_rot_trans(SO3::from_xyzw(p[0], p[1], p[2], p[3]), Vector3::new(p[4], p[5], p[6])) }
    fn obs(&self) -> [f64; 7] { let (r, t) = (self.rot(), self.xyz()); [r.x(), r.y(), r.z(), r.w(), t[0], t[1], t[2]] }
}
impl<const N: usize> Co for VectorVar<N> {
    type P = [f64; N];
    type O = [f64; N];
    fn mk(p: [f64; N]) -> Self { VectorVar(Vector::<N>::from(p)) }
    fn obs(&self) -> [f64; N] { let mut o = [0.0; N]; for i in 0..N { o[i] = self[i]; } o }
}
impl Co for ImuBias {
    type P = [f64; 6];
    type O = [f64; 6];
    fn mk(p: [f64; 6]) -> Self { ImuBias::new(Gyro::new(p[0], p[1], p[2]), Accel::new(p[3], p[4], p[5])) }
    fn obs(&self) -> [f64; 6] { let (g, a) = (self.gyro(), self.accel()); [g[0], g[1], g[2], a[0], a[1], a[2]] }
}

fn arr<const D: usize>(v: VectorX) -> [f64; D] {
    assert!(v.len() == D);
    let mut o = [0.0; D];
    for i in 0..D { o[i] = v[i]; }
    o
}
fn vx<const D: usize>(v: [f64; D]) -> VectorX { VectorX::from_fn(D, |i, _| v[i]) }

macro_rules! group {
    ($m:ident, $T:ty, $D:expr) => {
        pub mod $m {
            use super::*;
            type T = $T;
            type P = <T as Co>::P;
            type O = <T as Co>::O;
            type X = [f64; $D];
            fn mk(p: P) -> T { <T as Co>::mk(p) }
            // round trip of the accessors
            pub fn id(a: P) -> O { mk(a).obs() }
            pub fn identity() -> O { T::identity().obs() }
            pub fn inverse(a: P) -> O { Variable::inverse(&mk(a)).obs() }
            pub fn compose(a: P, b: P) -> O { mk(a).compose(&mk(b)).obs() }
            // group axioms: pairs _l/_r must be the same element
            pub fn assoc_l(a: P, b: P, c: P) -> O { mk(a).compose(&mk(b)).compose(&mk(c)).obs() }
            pub fn assoc_r(a: P, b: P, c: P) -> O { mk(a).compose(&mk(b).compose(&mk(c))).obs() }
            pub fn left_id_l(a: P) -> O { T::identity().compose(&mk(a)).obs() }
            pub fn left_id_r(a: P) -> O { mk(a).obs() }
            pub fn right_id_l(a: P) -> O { mk(a).compose(&T::identity()).obs() }
            pub fn right_id_r(a: P) -> O { mk(a).obs() }
            pub fn left_inv_l(a: P) -> O { let x = mk(a); Variable::inverse(&x).compose(&x).obs() }
            pub fn left_inv_r(_a: P) -> O { T::identity().obs() }
            pub fn right_inv_l(a: P) -> O { let x = mk(a); x.compose(&Variable::inverse(&x)).obs() }
            pub fn right_inv_r(_a: P) -> O { T::identity().obs() }
            // exponential coordinates
            pub fn exp(v: X) -> O { T::exp(vx(v).as_view()).obs() }
            pub fn log(a: P) -> X { arr(mk(a).log()) }
            pub fn log_exp(v: X) -> X { arr(T::exp(vx(v).as_view()).log()) }
            pub fn exp_log(a: P) -> O { T::exp(mk(a).log().as_view()).obs() }
            pub fn dims(a: P) -> [usize; 4] {
                let x = mk(a);
                [Variable::dim(&x), <T as Variable>::DIM, VariableSafe::dim(&x), x.log().len()]
            }
            // retraction and difference; expected side is stated by the analysis
            pub fn oplus(a: P, v: X) -> O { mk(a).oplus(vx(v).as_view()).obs() }
            pub fn oplus_right_l(a: P, v: X) -> O { mk(a).oplus_right(vx(v).as_view()).obs() }
            pub fn oplus_right_r(a: P, v: X) -> O { mk(a).compose(&T::exp(vx(v).as_view())).obs() }
            pub fn oplus_left_l(a: P, v: X) -> O { mk(a).oplus_left(vx(v).as_view()).obs() }
            pub fn oplus_left_r(a: P, v: X) -> O { T::exp(vx(v).as_view()).compose(&mk(a)).obs() }
            pub fn oplus_mut(a: P, v: X) -> O { let mut x = mk(a); x.oplus_mut(vx(v).as_view()); x.obs() }
            pub fn oplus_dyn(a: P, v: X) -> O {
                let mut x: Box<dyn VariableSafe> = Box::new(mk(a));
                x.oplus_mut(vx(v).as_view());
                x.downcast_ref::<T>().unwrap().obs()
            }
            pub fn clone_box(a: P) -> O {
                let x: Box<dyn VariableSafe> = Box::new(mk(a));
                let y = x.clone();
                y.downcast_ref::<T>().unwrap().obs()
            }
            pub fn ominus(a: P, b: P) -> X { arr(mk(a).ominus(&mk(b))) }
            pub fn ominus_right_l(a: P, b: P) -> X { arr(mk(a).ominus_right(&mk(b))) }
            pub fn ominus_right_r(a: P, b: P) -> X { arr(Variable::inverse(&mk(b)).compose(&mk(a)).log()) }
            pub fn ominus_left_l(a: P, b: P) -> X { arr(mk(a).ominus_left(&mk(b))) }
            pub fn ominus_left_r(a: P, b: P) -> X { arr(mk(a).compose(&Variable::inverse(&mk(b))).log()) }
            pub fn minus_l(a: P, b: P) -> O { mk(a).minus(&mk(b)).obs() }
            pub fn minus_r(a: P, b: P) -> O { Variable::inverse(&mk(b)).compose(&mk(a)).obs() }
        }
    };
}
macro_rules! mulops {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            type P = <T as Co>::P;
            type O = <T as Co>::O;
            fn mk(p: P) -> T { <T as Co>::mk(p) }
            pub fn mul_l(a: P, b: P) -> O { (mk(a) * mk(b)).obs() }
            pub fn mul_r(a: P, b: P) -> O { mk(a).compose(&mk(b)).obs() }
            pub fn mul_ref_l(a: P, b: P) -> O { (&mk(a) * &mk(b)).obs() }
            pub fn mul_ref_r(a: P, b: P) -> O { mk(a).compose(&mk(b)).obs() }
        }
    };
}
macro_rules! lie {
    ($m:ident, $T:ty, $D:expr, $M:expr, $V:expr) => {
        pub mod $m {
            use super::*;
            type T = $T;
            type P = <T as Co>::P;
            type O = <T as Co>::O;
            fn mk(p: P) -> T { <T as Co>::mk(p) }
            fn mm<const R: usize, const C: usize>(m: [[f64; C]; R]) -> Matrix<R, C> { Matrix::<R, C>::from_fn(|i, j| m[i][j]) }
            fn rows<const R: usize, const C: usize>(m: &Matrix<R, C>) -> [[f64; C]; R] {
                let mut o = [[0.0; C]; R];
                for i in 0..R { for j in 0..C { o[i][j] = m[(i, j)]; } }
                o
            }
            pub fn to_matrix(a: P) -> [[f64; $M]; $M] { rows::<$M, $M>(&mk(a).to_matrix()) }
            pub fn to_matrix_id() -> [[f64; $M]; $M] { rows::<$M, $M>(&T::identity().to_matrix()) }
            pub fn to_matrix_prod(a: P, b: P) -> [[f64; $M]; $M] { rows::<$M, $M>(&mk(a).compose(&mk(b)).to_matrix()) }
            pub fn from_to(a: P) -> O { T::from_matrix(mk(a).to_matrix().as_view()).obs() }
            pub fn from_matrix(m: [[f64; $M]; $M]) -> O { T::from_matrix(mm::<$M, $M>(m).as_view()).obs() }
            pub fn to_from(m: [[f64; $M]; $M]) -> [[f64; $M]; $M] { rows::<$M, $M>(&T::from_matrix(mm::<$M, $M>(m).as_view()).to_matrix()) }
            pub fn apply(a: P, v: [f64; $V]) -> [[f64; 1]; $V] { rows::<$V, 1>(&mk(a).apply(Vector::<$V>::from(v).as_view())) }
            pub fn hat(v: [f64; $D]) -> [[f64; $M]; $M] { rows::<$M, $M>(&T::hat(Vector::<$D>::from(v).as_view())) }
            pub fn vee_hat(v: [f64; $D]) -> [[f64; 1]; $D] { rows::<$D, 1>(&T::vee(T::hat(Vector::<$D>::from(v).as_view()).as_view())) }
            pub fn hat_swap(p: [f64; $V]) -> [[f64; $D]; $V] { rows::<$V, $D>(&T::hat_swap(Vector::<$V>::from(p).as_view())) }
            pub fn adjoint(a: P) -> [[f64; $D]; $D] { rows::<$D, $D>(&mk(a).adjoint()) }
        }
    };
}
group!(so2, SO2, 1);
group!(so3, SO3, 3);
group!(se2, SE2, 3);
group!(se3, SE3, 6);
group!(v1, VectorVar1, 1);
group!(v2, VectorVar2, 2);
group!(v3, VectorVar3, 3);
group!(v4, VectorVar4, 4);
group!(v5, VectorVar5, 5);
group!(v6, VectorVar6, 6);
group!(bias, ImuBias, 6);
mulops!(so2_mul, SO2);
mulops!(so3_mul, SO3);
mulops!(se2_mul, SE2);
mulops!(se3_mul, SE3);
lie!(so2_lie, SO2, 1, 2, 2);
lie!(so3_lie, SO3, 3, 3, 3);
lie!(se2_lie, SE2, 3, 3, 2);
lie!(se3_lie, SE3, 6, 4, 3);
pub mod misc {
    use super::*;
    pub fn dexp(v: [f64; 3]) -> [[f64; 3]; 3] {
        let m = SO3::<f64>::dexp(Vector3::from(v).as_view());
        let mut o = [[0.0; 3]; 3];
        for i in 0..3 { for j in 0..3 { o[i][j] = m[(i, j)]; } }
        o
    }
    pub fn to_theta(t: f64) -> f64 { SO2::from_theta(t).to_theta() }
    pub fn se2_theta(t: f64, x: f64, y: f64) -> f64 { SE2::new(t, x, y).theta() }
    pub fn se2_xy(t: f64, x: f64, y: f64) -> [f64; 2] { let s = SE2::new(t, x, y); let v = s.xy(); [v[0], v[1]] }
    pub fn so3_from_vec(a: [f64; 4]) -> [f64; 4] { SO3::from_vec(Vector4::from(a)).obs() }
    pub fn bias_zeros() -> [f64; 6] { ImuBias::<f64>::zeros().obs() }
    pub fn bias_sub(a: [f64; 6], b: [f64; 6]) -> [f64; 6] { (ImuBias::mk(a) - ImuBias::mk(b)).obs() }
    pub fn bias_sub_ref(a: [f64; 6], b: [f64; 6]) -> [f64; 6] { (&ImuBias::mk(a) - &ImuBias::mk(b)).obs() }
    pub fn vec_new(a: [f64; 6]) -> [f64; 21] {
        let mut o = [0.0; 21];
        let (p, q, r, s, t, u) = (VectorVar1::new(a[0]), VectorVar2::new(a[0], a[1]), VectorVar3::new(a[0], a[1], a[2]),
            VectorVar4::new(a[0], a[1], a[2], a[3]), VectorVar5::new(a[0], a[1], a[2], a[3], a[4]), VectorVar6::new(a[0], a[1], a[2], a[3], a[4], a[5]));
        o[0] = p[0];
        for i in 0..2 { o[1 + i] = q[i]; }
        for i in 0..3 { o[3 + i] = r[i]; }
        for i in 0..4 { o[6 + i] = s[i]; }
        for i in 0..5 { o[10 + i] = t[i]; }
        for i in 0..6 { o[15 + i] = u[i]; }
        o
    }
}

/// a user-defined variable: everything about it is uninterpreted
#[derive(Clone)]
pub struct UVar<T: Numeric = f64> { pub c: [T; 2] }
fn two<T: Numeric>(v: VectorX<T>) -> UVar<T> { UVar { c: [v[0], v[1]] } }
impl<T: Numeric> Variable<T> for UVar<T> {
    type Dim = Const<2>;
    type Alias<TT: Numeric> = UVar<TT>;
    fn identity() -> Self { UVar { c: [T::from(0.0), T::from(0.0)] } }
    fn inverse(&self) -> Self { two(unk::vecfn(101, 2, &self.c)) }
    fn compose(&self, o: &Self) -> Self { two(unk::vecfn(102, 2, &[self.c[0], self.c[1], o.c[0], o.c[1]])) }
    fn exp(d: VectorViewX<T>) -> Self { two(unk::vecfn(103, 2, &[d[0], d[1]])) }
    fn log(&self) -> VectorX<T> { unk::vecfn(104, 2, &self.c) }
    fn dual_convert<TT: Numeric>(o: &Self::Alias<f64>) -> Self::Alias<TT> { UVar { c: [o.c[0].into(), o.c[1].into()] } }
}
impl<T: Numeric> fmt::Display for UVar<T> { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl<T: Numeric> fmt::Debug for UVar<T> { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl Co for UVar {
    type P = [f64; 2];
    type O = [f64; 2];
    fn mk(p: [f64; 2]) -> Self { UVar { c: p } }
    fn obs(&self) -> [f64; 2] { self.c }
}
group!(uvar, UVar, 2);

// ---------------------------------------------------------------- constructors and accessors (C26)
pub mod acc { use super::*;
    use factrs::residuals::Gravity;
    fn all<const N: usize>(v: &VectorVar<N>) -> Vec<f64> { (0..N).map(|i| v[i]).collect() }
    pub fn v1(p: [f64; 1]) -> Vec<f64> { all(&VectorVar1::new(p[0])) }
    pub fn v2(p: [f64; 2]) -> Vec<f64> { all(&VectorVar2::new(p[0], p[1])) }
    pub fn v3(p: [f64; 3]) -> Vec<f64> { all(&VectorVar3::new(p[0], p[1], p[2])) }
    pub fn v4(p: [f64; 4]) -> Vec<f64> { all(&VectorVar4::new(p[0], p[1], p[2], p[3])) }
    pub fn v5(p: [f64; 5]) -> Vec<f64> { all(&VectorVar5::new(p[0], p[1], p[2], p[3], p[4])) }
    pub fn v6(p: [f64; 6]) -> Vec<f64> { all(&VectorVar6::new(p[0], p[1], p[2], p[3], p[4], p[5])) }
    pub fn field(p: [f64; 5]) -> Vec<f64> { VectorVar5::new(p[0], p[1], p[2], p[3], p[4]).0.iter().cloned().collect() }
    pub fn from9(p: [f64; 9]) -> Vec<f64> { let v: VectorVar<9> = Vector::<9>::from(p).into(); all(&v) }
    pub fn into9(p: [f64; 9]) -> Vec<f64> { let v: Vector<9> = VectorVar(Vector::<9>::from(p)).into(); v.iter().cloned().collect() }
    pub fn dual5(p: [f64; 5]) -> Vec<f64> { type D = num_dual::DualVec64<Const<1>>; let v = VectorVar::<5, D>::new(p[0].into(), p[1].into(), p[2].into(), p[3].into(), p[4].into()); (0..5).map(|i| v[i].re).collect() }
    pub fn so2_matrix(t: f64) -> [f64; 4] { let m = SO2::from_theta(t).to_matrix(); [m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]] }
    /// angle of the rotation with cosine and sine p, by way of its matrix
    pub fn so2_theta(p: [f64; 2]) -> f64 { SO2::from_matrix(Matrix2::new(p[0], -p[1], p[1], p[0]).as_view()).to_theta() }
    pub fn so2_round(t: f64) -> f64 { SO2::from_theta(t).to_theta() }
    pub fn se2_round(t: f64, x: f64, y: f64) -> f64 { SE2::new(t, x, y).theta() }
    pub fn se2(p: [f64; 3]) -> (Vec<f64>, Vec<f64>, [f64; 2]) {
        let x = SE2::new(p[0], p[1], p[2]);
        let m = x.rot().to_matrix();
        (vec![x.x(), x.y()], x.xy().iter().cloned().collect(), [m[(0, 0)], m[(1, 0)]])
    }
    pub fn se2_theta(p: [f64; 4]) -> f64 { SE2::from_matrix(Matrix3::new(p[0], -p[1], p[2], p[1], p[0], p[3], 0.0, 0.0, 1.0).as_view()).theta() }
    pub fn so3_xyzw(p: [f64; 4]) -> [f64; 4] { let q = SO3::from_xyzw(p[0], p[1], p[2], p[3]); [q.x(), q.y(), q.z(), q.w()] }
    pub fn so3_vec(p: [f64; 4]) -> [f64; 4] { let q = SO3::from_vec(Vector4::new(p[0], p[1], p[2], p[3])); [q.x(), q.y(), q.z(), q.w()] }
    pub fn se3(p: [f64; 7]) -> Vec<f64> {
        let x = SE3::from_rot_trans(SO3::from_xyzw(p[0], p[1], p[2], p[3]), Vector3::new(p[4], p[5], p[6]));
        let (q, t) = (x.rot(), x.xyz());
        vec![q.x(), q.y(), q.z(), q.w(), t[0], t[1], t[2]]
    }
    pub fn bias(p: [f64; 6]) -> Vec<f64> {
        let b = ImuBias::new(Gyro::new(p[0], p[1], p[2]), Accel::new(p[3], p[4], p[5]));
        b.gyro().iter().chain(b.accel().iter()).cloned().collect()
    }
    pub fn zeros() -> Vec<f64> {
        let b: ImuBias = ImuBias::zeros();
        let (g, a): (Gyro, Accel) = (Gyro::zeros(), Accel::zeros());
        b.gyro().iter().chain(b.accel().iter()).chain(g.0.iter()).chain(a.0.iter()).cloned().collect()
    }
    pub fn sensors(p: [f64; 6]) -> Vec<f64> { Gyro::new(p[0], p[1], p[2]).0.iter().chain(Accel::new(p[3], p[4], p[5]).0.iter()).cloned().collect() }
    pub fn unbias(m: [f64; 6], p: [f64; 6]) -> Vec<f64> {
        let b = ImuBias::new(Gyro::new(p[0], p[1], p[2]), Accel::new(p[3], p[4], p[5]));
        Gyro::new(m[0], m[1], m[2]).remove_bias(&b).0.iter().chain(Accel::new(m[3], m[4], m[5]).remove_bias(&b).0.iter()).cloned().collect()
    }
    pub fn gravity() -> Vec<f64> { let (a, b): (Gravity, Gravity) = (Gravity::up(), Gravity::down()); a.0.iter().chain(b.0.iter()).cloned().collect() }
    // the same over dual numbers: values and derivatives
    type D = DualScalar;
    fn du<const N: usize>(p: [f64; N], e: [f64; N]) -> [D; N] { let mut o = [D::from(0.0); N]; for i in 0..N { o[i] = D::new(p[i], e[i]); } o }
    fn see(v: &[D]) -> Vec<f64> { v.iter().map(|x| x.re).chain(v.iter().map(|x| x.eps)).collect() }
    pub fn d_vec(p: [f64; 6], e: [f64; 6]) -> Vec<f64> { let q = du(p, e); let v = VectorVar::<6, D>::new(q[0], q[1], q[2], q[3], q[4], q[5]); see(&[v[0], v[1], v[2], v[3], v[4], v[5]]) }
    pub fn d_so2(p: [f64; 1], e: [f64; 1]) -> Vec<f64> { let q = du(p, e); let x = SO2::<D>::from_theta(q[0]); let m = x.to_matrix(); see(&[m[(0, 0)], m[(1, 0)], x.to_theta()]) }
    pub fn d_se2(p: [f64; 3], e: [f64; 3]) -> Vec<f64> { let q = du(p, e); let x = SE2::<D>::new(q[0], q[1], q[2]); let m = x.rot().to_matrix(); see(&[m[(0, 0)], m[(1, 0)], x.x(), x.y(), x.xy()[0], x.xy()[1], x.theta()]) }
    pub fn d_so3(p: [f64; 4], e: [f64; 4]) -> Vec<f64> { let q = du(p, e); let x = SO3::<D>::from_xyzw(q[0], q[1], q[2], q[3]); let y = SO3::<D>::from_vec(Vector4::<D>::new(q[0], q[1], q[2], q[3])); see(&[x.x(), x.y(), x.z(), x.w(), y.x(), y.y(), y.z(), y.w()]) }
    pub fn d_se3(p: [f64; 7], e: [f64; 7]) -> Vec<f64> { let q = du(p, e); let x = SE3::<D>::from_rot_trans(SO3::from_xyzw(q[0], q[1], q[2], q[3]), Vector3::<D>::new(q[4], q[5], q[6])); let (r, t) = (x.rot(), x.xyz()); see(&[r.x(), r.y(), r.z(), r.w(), t[0], t[1], t[2]]) }
    pub fn d_bias(p: [f64; 6], e: [f64; 6]) -> Vec<f64> { let q = du(p, e); let b = ImuBias::<D>::new(Gyro::new(q[0], q[1], q[2]), Accel::new(q[3], q[4], q[5])); let (g, a) = (b.gyro(), b.accel()); see(&[g[0], g[1], g[2], a[0], a[1], a[2]]) }
}
