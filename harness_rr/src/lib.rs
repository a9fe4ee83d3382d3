//! Conversions to rerun's types, read back through rerun's public fields.
#![allow(dead_code, unused_imports, clippy::all)]
use factrs::{assign_symbols, containers::*, optimizers::OptObserver, linalg::*, rerun::RerunObserver, traits::*, variables::*};
use nalgebra as na;
use rerun::{Arrows2D, Arrows3D, Points2D, Points3D, RecordingStream, Rotation3D, Transform3D, Vec2D, Vec3D};
assign_symbols!(X: SE2; Y: SE3; P: VectorVar2; Q: VectorVar3);
type F = Vec<Vec<f32>>;
pub fn p2(a: &Points2D) -> F { a.positions.iter().map(|p| vec![p.0.0[0], p.0.0[1]]).collect() }
pub fn p3(a: &Points3D) -> F { a.positions.iter().map(|p| vec![p.0.0[0], p.0.0[1], p.0.0[2]]).collect() }
pub fn v2(a: &Vec2D) -> Vec<f32> { vec![a.0[0], a.0[1]] }
pub fn v3(a: &Vec3D) -> Vec<f32> { vec![a.0[0], a.0[1], a.0[2]] }
pub type A = (F, Option<F>, Option<Vec<u32>>);
pub fn a2(a: &Arrows2D) -> A {
    (
        a.vectors.iter().map(|p| vec![p.0.0[0], p.0.0[1]]).collect(),
        a.origins.as_ref().map(|o| o.iter().map(|p| vec![p.0.0[0], p.0.0[1]]).collect()),
        a.colors.as_ref().map(|o| o.iter().map(|c| c.0.0).collect()),
    )
}
pub fn a3(a: &Arrows3D) -> A {
    (
        a.vectors.iter().map(|p| vec![p.0.0[0], p.0.0[1], p.0.0[2]]).collect(),
        a.origins.as_ref().map(|o| o.iter().map(|p| vec![p.0.0[0], p.0.0[1], p.0.0[2]]).collect()),
        a.colors.as_ref().map(|o| o.iter().map(|c| c.0.0).collect()),
    )
}
pub fn r3(a: &Rotation3D) -> Vec<f32> {
    match a {
        Rotation3D::Quaternion(q) => vec![q.0.0[0], q.0.0[1], q.0.0[2], q.0.0[3]],
        _ => vec![],
    }
}
pub fn t3(a: &Transform3D) -> (Option<Vec<f32>>, Option<Vec<f32>>, bool, bool, bool, bool) {
    (
        a.translation.map(|t| v3(&t.0)),
        a.quaternion.map(|q| vec![q.0.0[0], q.0.0[1], q.0.0[2], q.0.0[3]]),
        a.rotation_axis_angle.is_none(),
        a.scale.is_none(),
        a.mat3x3.is_none(),
        a.relation.is_none(),
    )
}
fn w2(p: &[f64]) -> VectorVar2 { VectorVar2::new(p[0], p[1]) }
fn w3(p: &[f64]) -> VectorVar3 { VectorVar3::new(p[0], p[1], p[2]) }
fn so2(p: &[f64]) -> SO2 { SO2::from_theta(p[0]) }
fn so3(p: &[f64]) -> SO3 { SO3::from_xyzw(p[0], p[1], p[2], p[3]) }
fn se2(p: &[f64]) -> SE2 { SE2::new(p[0], p[1], p[2]) }
fn se3(p: &[f64]) -> SE3 { SE3::from_rot_trans(so3(p), Vector3::new(p[4], p[5], p[6])) }
macro_rules! conv {
    ($m:ident, $mk:ident, $n:expr, $($f:ident: $t:ty, $r:ident, $o:ty;)*) => {
        pub mod $m { use super::*; $(pub fn $f(p: [f64; $n]) -> ($o, $o) { let x = $mk(&p); let a: $t = (&x).into(); let b: $t = x.into(); ($r(&a), $r(&b)) })* }
    };
}
type T3 = (Option<Vec<f32>>, Option<Vec<f32>>, bool, bool, bool, bool);
conv!(vec2, w2, 2, v: Vec2D, v2, Vec<f32>; pts: Points2D, p2, F;);
conv!(vec3, w3, 3, v: Vec3D, v3, Vec<f32>; pts: Points3D, p3, F;);
conv!(rot2, so2, 1, arr: Arrows2D, a2, A;);
conv!(pose2, se2, 3, arr: Arrows2D, a2, A; pts: Points2D, p2, F; v: Vec2D, v2, Vec<f32>;);
conv!(rot3, so3, 4, q: Rotation3D, r3, Vec<f32>; arr: Arrows3D, a3, A;);
conv!(pose3, se3, 7, tf: Transform3D, t3, T3; arr: Arrows3D, a3, A; pts: Points3D, p3, F; v: Vec3D, v3, Vec<f32>;);
macro_rules! gather {
    ($m:ident, $mk:ident, $n:expr, $($f:ident: $t:ty, $r:ident, $o:ty;)*) => {
        pub mod $m { use super::*; $(pub fn $f(p: [f64; 3 * $n]) -> ($o, $o, $o) {
            let x = vec![$mk(&p[..$n]), $mk(&p[$n..2 * $n]), $mk(&p[2 * $n..])];
            let e: Vec<_> = x.iter().take(0).collect();
            let c: $t = x.iter().collect();
            let o: $t = x[1..2].iter().collect();
            let z: $t = e.into_iter().collect();
            ($r(&c), $r(&o), $r(&z))
        })*
        pub mod many { use super::*; $(pub fn $f(n: usize, p: [f64; $n]) -> $o {
            let x: Vec<_> = (0..n).map(|i| { let mut q = p; q[$n - 1] *= (i + 1) as f64; $mk(&q) }).collect();
            let c: $t = x.iter().collect();
            $r(&c)
        })* } }
    };
}
gather!(gvec2, w2, 2, pts: Points2D, p2, F;);
gather!(gvec3, w3, 3, pts: Points3D, p3, F;);
gather!(gpose2, se2, 3, arr: Arrows2D, a2, A; pts: Points2D, p2, F;);
gather!(gpose3, se3, 7, arr: Arrows3D, a3, A; pts: Points3D, p3, F;);
pub fn observe2(rec: RecordingStream, p: [f64; 12], t: f64) {
    let mut x = Values::new();
    x.insert(X(0), se2(&p[0..3]));
    x.insert(P(0), w2(&p[3..5]));
    x.insert(X(1), se2(&p[5..8]));
    RerunObserver::<SE2, Points2D>::new(rec, "base/solution").on_step(&x, t);
}
pub fn observe3(rec: RecordingStream, p: [f64; 20], t: f64) {
    let mut x = Values::new();
    x.insert(Y(0), se3(&p[0..7]));
    x.insert(Q(0), w3(&p[7..10]));
    x.insert(Y(1), se3(&p[10..17]));
    RerunObserver::<SE3, Arrows3D>::new(rec, "a b").on_step(&x, t);
}
