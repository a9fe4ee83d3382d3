//! Differentiators on uninterpreted functions.
use crate::unk;
use crate::vars::{Co, UVar};
use factrs::{linalg::*, traits::*, variables::*};

/// observable coordinates at any scalar type
pub trait CoT<T: Numeric> { fn ob(&self) -> Vec<T>; }
impl<T: Numeric> CoT<T> for SO2<T> { fn ob(&self) -> Vec<T> { let m = self.to_matrix(); vec![m[(0, 0)], m[(1, 0)]] } }
impl<T: Numeric> CoT<T> for SO3<T> { fn ob(&self) -> Vec<T> { vec![self.x(), self.y(), self.z(), self.w()] } }
impl<T: Numeric> CoT<T> for SE2<T> { fn ob(&self) -> Vec<T> { let m = self.rot().to_matrix(); vec![m[(0, 0)], m[(1, 0)], self.x(), self.y()] } }
impl<T: Numeric> CoT<T> for SE3<T> { fn ob(&self) -> Vec<T> { let (r, t) = (self.rot(), self.xyz()); vec![r.x(), r.y(), r.z(), r.w(), t[0], t[1], t[2]] } }
impl<const N: usize, T: Numeric> CoT<T> for VectorVar<N, T> { fn ob(&self) -> Vec<T> { let mut o = Vec::new(); for i in 0..N { o.push(self[i]); } o } }
impl<T: Numeric> CoT<T> for ImuBias<T> { fn ob(&self) -> Vec<T> { let (g, a) = (self.gyro(), self.accel()); vec![g[0], g[1], g[2], a[0], a[1], a[2]] } }
impl<T: Numeric> CoT<T> for UVar<T> { fn ob(&self) -> Vec<T> { vec![self.c[0], self.c[1]] } }

macro_rules! dual {
    ($m:ident, $T:ident $(< $n:literal >)?, $N:expr) => {
        pub mod $m {
            use super::*;
            type V = $T$(<$n>)?;
            type P = <V as Co>::P;
            type D = DualVector<Const<{ $N + 2 }>>;
            fn split(v: Vec<D>) -> Vec<D> { v }
            pub fn setup() -> Vec<D> { split(V::dual_setup::<Const<{ $N + 2 }>>(1).ob()) }
            pub fn dual(a: P) -> Vec<D> { split(V::dual::<Const<{ $N + 2 }>>(&V::mk(a), 1).ob()) }
            pub fn convert(a: P) -> Vec<D> { split(V::dual_convert::<D>(&V::mk(a)).ob()) }
            pub fn ident(a: P) -> (Vec<f64>, Vec<f64>) {
                let DiffResult { value, diff } = ForwardProp::<Const<$N>>::jacobian_1(|x: $T<$($n,)? DualVector<Const<$N>>>| VectorX::from_vec(x.ob()), &V::mk(a));
                (value.iter().cloned().collect(), diff.iter().cloned().collect())
            }
            pub fn log_jac(a: P) -> (Vec<f64>, Vec<f64>) {
                let DiffResult { value, diff } = ForwardProp::<Const<$N>>::jacobian_1(|x: $T<$($n,)? DualVector<Const<$N>>>| x.log(), &V::mk(a));
                (value.iter().cloned().collect(), diff.iter().cloned().collect())
            }
            pub fn inv(a: P) -> (Vec<f64>, Vec<f64>) {
                let DiffResult { value, diff } = ForwardProp::<Const<$N>>::jacobian_1(|x: $T<$($n,)? DualVector<Const<$N>>>| VectorX::from_vec(x.inverse().ob()), &V::mk(a));
                (value.iter().cloned().collect(), diff.iter().cloned().collect())
            }
            pub fn comp(a: P, b: P) -> (Vec<f64>, Vec<f64>) {
                type T = DualVector<Const<{ 2 * $N }>>;
                let DiffResult { value, diff } = ForwardProp::<Const<{ 2 * $N }>>::jacobian_2(|x: $T<$($n,)? T>, y: $T<$($n,)? T>| VectorX::from_vec(x.compose(&y).ob()), &V::mk(a), &V::mk(b));
                (value.iter().cloned().collect(), diff.iter().cloned().collect())
            }
            pub fn exp(v: [f64; $N]) -> (Vec<f64>, Vec<f64>) {
                type T = DualVector<Const<$N>>;
                let DiffResult { value, diff } = ForwardProp::<Const<$N>>::jacobian_1(|x: VectorVar<$N, T>| VectorX::from_vec(<$T<$($n,)? T> as Variable<T>>::exp(VectorX::from_vec(x.ob()).as_view()).ob()), &VectorVar::<$N>::mk(v));
                (value.iter().cloned().collect(), diff.iter().cloned().collect())
            }
        }
    };
}
dual!(so2, SO2, 1);
dual!(so3, SO3, 3);
dual!(se2, SE2, 3);
dual!(se3, SE3, 6);
dual!(v1, VectorVar<1>, 1);
dual!(v2, VectorVar<2>, 2);
dual!(v3, VectorVar<3>, 3);
dual!(v4, VectorVar<4>, 4);
dual!(v5, VectorVar<5>, 5);
dual!(v6, VectorVar<6>, 6);
dual!(bias, ImuBias, 6);
dual!(uvar, UVar, 2);

fn cat<T: Numeric>(vs: Vec<Vec<T>>) -> Vec<T> { let mut o = Vec::new(); for v in vs { for x in v { o.push(x); } } o }
fn out(d: DiffResult<VectorX, MatrixX>) -> (Vec<f64>, (usize, usize), Vec<f64>) {
    let s = d.diff.shape();
    (d.value.iter().cloned().collect(), s, d.diff.iter().cloned().collect())
}
fn outg(d: DiffResult<f64, VectorX>) -> (f64, usize, Vec<f64>) { (d.value, d.diff.len(), d.diff.iter().cloned().collect()) }

type V1 = VectorVar<1>;
type V2 = VectorVar<2>;
type V3 = VectorVar<3>;
type A1<T> = VectorVar<1, T>;
type A2<T> = VectorVar<2, T>;
type A3<T> = VectorVar<3, T>;
fn v1(p: &[f64; 10]) -> V1 { V1::mk([p[0]]) }
fn v2(p: &[f64; 10]) -> V2 { V2::mk([p[1], p[2]]) }
fn v3(p: &[f64; 10]) -> V3 { V3::mk([p[3], p[4], p[5]]) }
fn v4(p: &[f64; 10]) -> V1 { V1::mk([p[6]]) }
fn v5(p: &[f64; 10]) -> V2 { V2::mk([p[7], p[8]]) }
fn v6(p: &[f64; 10]) -> V1 { V1::mk([p[9]]) }

macro_rules! all {
    ($m:ident, $D:ident, $($num:literal)*) => {
        pub mod $m {
            use super::*;
            type F<const N: usize> = $D<N>;
            pub fn j1(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<1> as Diff>::T;
                out(F::<1>::jacobian_1(|a: A1<T>| unk::vecfn(201, 2, &cat(vec![a.ob()])), &v1(&p)))
            }
            pub fn j2(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<3> as Diff>::T;
                out(F::<3>::jacobian_2(|a: A1<T>, b: A2<T>| unk::vecfn(202, 2, &cat(vec![a.ob(), b.ob()])), &v1(&p), &v2(&p)))
            }
            pub fn j3(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<6> as Diff>::T;
                out(F::<6>::jacobian_3(|a: A1<T>, b: A2<T>, c: A3<T>| unk::vecfn(203, 2, &cat(vec![a.ob(), b.ob(), c.ob()])), &v1(&p), &v2(&p), &v3(&p)))
            }
            pub fn j4(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<7> as Diff>::T;
                out(F::<7>::jacobian_4(|a: A1<T>, b: A2<T>, c: A3<T>, d: A1<T>| unk::vecfn(204, 2, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob()])), &v1(&p), &v2(&p), &v3(&p), &v4(&p)))
            }
            pub fn j5(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<9> as Diff>::T;
                out(F::<9>::jacobian_5(|a: A1<T>, b: A2<T>, c: A3<T>, d: A1<T>, e: A2<T>| unk::vecfn(205, 2, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob()])), &v1(&p), &v2(&p), &v3(&p), &v4(&p), &v5(&p)))
            }
            pub fn j6(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<10> as Diff>::T;
                out(F::<10>::jacobian_6(|a: A1<T>, b: A2<T>, c: A3<T>, d: A1<T>, e: A2<T>, f: A1<T>| unk::vecfn(206, 2, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob(), f.ob()])), &v1(&p), &v2(&p), &v3(&p), &v4(&p), &v5(&p), &v6(&p)))
            }
            pub fn g1(p: [f64; 10]) -> (f64, usize, Vec<f64>) {
                type T = <F<1> as Diff>::T;
                outg(F::<1>::gradient_1(|a: A1<T>| unk::scal(201, &cat(vec![a.ob()])), &v1(&p)))
            }
            pub fn g2(p: [f64; 10]) -> (f64, usize, Vec<f64>) {
                type T = <F<3> as Diff>::T;
                outg(F::<3>::gradient_2(|a: A1<T>, b: A2<T>| unk::scal(202, &cat(vec![a.ob(), b.ob()])), &v1(&p), &v2(&p)))
            }
            pub fn g3(p: [f64; 10]) -> (f64, usize, Vec<f64>) {
                type T = <F<6> as Diff>::T;
                outg(F::<6>::gradient_3(|a: A1<T>, b: A2<T>, c: A3<T>| unk::scal(203, &cat(vec![a.ob(), b.ob(), c.ob()])), &v1(&p), &v2(&p), &v3(&p)))
            }
            pub fn g4(p: [f64; 10]) -> (f64, usize, Vec<f64>) {
                type T = <F<7> as Diff>::T;
                outg(F::<7>::gradient_4(|a: A1<T>, b: A2<T>, c: A3<T>, d: A1<T>| unk::scal(204, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob()])), &v1(&p), &v2(&p), &v3(&p), &v4(&p)))
            }
            pub fn g5(p: [f64; 10]) -> (f64, usize, Vec<f64>) {
                type T = <F<9> as Diff>::T;
                outg(F::<9>::gradient_5(|a: A1<T>, b: A2<T>, c: A3<T>, d: A1<T>, e: A2<T>| unk::scal(205, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob()])), &v1(&p), &v2(&p), &v3(&p), &v4(&p), &v5(&p)))
            }
            pub fn g6(p: [f64; 10]) -> (f64, usize, Vec<f64>) {
                type T = <F<10> as Diff>::T;
                outg(F::<10>::gradient_6(|a: A1<T>, b: A2<T>, c: A3<T>, d: A1<T>, e: A2<T>, f: A1<T>| unk::scal(206, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob(), f.ob()])), &v1(&p), &v2(&p), &v3(&p), &v4(&p), &v5(&p), &v6(&p)))
            }
            /// many outputs
            pub fn rows(p: [f64; 10], n: usize) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<3> as Diff>::T;
                out(F::<3>::jacobian_2(|a: A1<T>, b: A2<T>| unk::vecfn(208, n, &cat(vec![a.ob(), b.ob()])), &v1(&p), &v2(&p)))
            }
            /// wide arguments
            pub fn cols(p: [f64; 40], q: [f64; 2]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<42> as Diff>::T;
                out(F::<42>::jacobian_2(|a: VectorVar<40, T>, b: A2<T>| unk::vecfn(209, 1, &cat(vec![a.ob(), b.ob()])), &VectorVar::<40>::mk(p), &V2::mk(q)))
            }
            pub fn gcols(p: [f64; 40], q: [f64; 2]) -> (f64, usize, Vec<f64>) {
                type T = <F<42> as Diff>::T;
                outg(F::<42>::gradient_2(|a: VectorVar<40, T>, b: A2<T>| unk::scal(209, &cat(vec![a.ob(), b.ob()])), &VectorVar::<40>::mk(p), &V2::mk(q)))
            }
            /// six wide arguments
            pub fn wide6(p: [f64; 42]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<42> as Diff>::T;
                let v = |k: usize| { let mut o = [0.0; 7]; for i in 0..7 { o[i] = p[7 * k + i]; } VectorVar::<7>::mk(o) };
                out(F::<42>::jacobian_6(|a: VectorVar<7, T>, b: VectorVar<7, T>, c: VectorVar<7, T>, d: VectorVar<7, T>, e: VectorVar<7, T>, f: VectorVar<7, T>| unk::vecfn(211, 1, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob(), f.ob()])), &v(0), &v(1), &v(2), &v(3), &v(4), &v(5)))
            }
            pub fn gwide6(p: [f64; 42]) -> (f64, usize, Vec<f64>) {
                type T = <F<42> as Diff>::T;
                let v = |k: usize| { let mut o = [0.0; 7]; for i in 0..7 { o[i] = p[7 * k + i]; } VectorVar::<7>::mk(o) };
                outg(F::<42>::gradient_6(|a: VectorVar<7, T>, b: VectorVar<7, T>, c: VectorVar<7, T>, d: VectorVar<7, T>, e: VectorVar<7, T>, f: VectorVar<7, T>| unk::scal(211, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob(), f.ob()])), &v(0), &v(1), &v(2), &v(3), &v(4), &v(5)))
            }
            /// a group-valued argument next to a vector one
            pub fn mix(a: [f64; 4], b: [f64; 2], c: [f64; 3]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
                type T = <F<8> as Diff>::T;
                out(F::<8>::jacobian_3(|x: SO3<T>, y: A2<T>, z: SE2<T>| unk::vecfn(207, 2, &cat(vec![x.ob(), y.ob(), z.ob()])), &SO3::mk(a), &V2::mk(b), &SE2::mk(c)))
            }
        }
    };
}
type FP<const N: usize> = ForwardProp<Const<N>>;
pub struct Marker<const N: usize>;
type ND<const N: usize> = NumericalDiff; // default power 6
all!(fwd, FP, 1);
all!(num, ND, 1);

fn outv(d: DiffResult<UVar, MatrixX>) -> (Vec<f64>, (usize, usize), Vec<f64>) {
    let s = d.diff.shape();
    (d.value.ob(), s, d.diff.iter().cloned().collect())
}
fn uv(v: VectorX) -> UVar { UVar { c: [v[0], v[1]] } }
pub mod numvar {
    use super::*;
    type R = (Vec<f64>, (usize, usize), Vec<f64>);
    type N = NumericalDiff<4>;
    pub fn j1(p: [f64; 10]) -> R { outv(N::jacobian_variable_1(|a: V1| uv(unk::vecfn(201, 2, &cat(vec![a.ob()]))), &v1(&p))) }
    pub fn j2(p: [f64; 10]) -> R { outv(N::jacobian_variable_2(|a: V1, b: V2| uv(unk::vecfn(202, 2, &cat(vec![a.ob(), b.ob()]))), &v1(&p), &v2(&p))) }
    pub fn j3(p: [f64; 10]) -> R { outv(N::jacobian_variable_3(|a: V1, b: V2, c: V3| uv(unk::vecfn(203, 2, &cat(vec![a.ob(), b.ob(), c.ob()]))), &v1(&p), &v2(&p), &v3(&p))) }
    pub fn j4(p: [f64; 10]) -> R { outv(N::jacobian_variable_4(|a: V1, b: V2, c: V3, d: V1| uv(unk::vecfn(204, 2, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob()]))), &v1(&p), &v2(&p), &v3(&p), &v4(&p))) }
    pub fn j5(p: [f64; 10]) -> R { outv(N::jacobian_variable_5(|a: V1, b: V2, c: V3, d: V1, e: V2| uv(unk::vecfn(205, 2, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob()]))), &v1(&p), &v2(&p), &v3(&p), &v4(&p), &v5(&p))) }
    pub fn j6(p: [f64; 10]) -> R { outv(N::jacobian_variable_6(|a: V1, b: V2, c: V3, d: V1, e: V2, f: V1| uv(unk::vecfn(206, 2, &cat(vec![a.ob(), b.ob(), c.ob(), d.ob(), e.ob(), f.ob()]))), &v1(&p), &v2(&p), &v3(&p), &v4(&p), &v5(&p), &v6(&p))) }
}
macro_rules! pw { ($($j:ident $v:ident $n:literal),*) => {$(
    pub fn $j(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) {
        let d = NumericalDiff::<$n>::jacobian_2(|a: V1, b: V2| unk::vecfn(202, 2, &cat(vec![a.ob(), b.ob()])), &v1(&p), &v2(&p));
        (d.value.iter().cloned().collect(), d.diff.shape(), d.diff.iter().cloned().collect())
    }
    pub fn $v(p: [f64; 10]) -> (Vec<f64>, (usize, usize), Vec<f64>) { outv(NumericalDiff::<$n>::jacobian_variable_2(|a: V1, b: V2| uv(unk::vecfn(202, 2, &cat(vec![a.ob(), b.ob()]))), &v1(&p), &v2(&p))) }
)*}; }
pw!(pj0 pv0 0, pj1 pv1 1, pj2 pv2 2, pj3 pv3 3, pj5 pv5 5, pj7 pv7 7, pj8 pv8 8, pj9 pv9 9, pj10 pv10 10, pj12 pv12 12);
pub fn fwd_scalar(x: f64) -> (f64, f64) { let d = forward_prop_derivative(|t| unk::scal(210, &[t]), x); (d.value, d.diff) }
pub fn num_scalar(x: f64, h: f64) -> (f64, f64) { let d = numerical_derivative(|t| unk::scal(210, &[t]), x, h); (d.value, d.diff) }
