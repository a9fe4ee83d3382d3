//! Uninterpreted functions: never executed, the analysis replaces every call by a fresh function symbol.
use factrs::linalg::*;
#[allow(unused_imports)]
use {ahash as _, faer as _, nalgebra as _, num_dual as _};
#[inline(never)]
pub fn vecfn<T: Numeric>(id: usize, n: usize, xs: &[T]) -> VectorX<T> { let _ = (id, n, xs); loop {} }
#[inline(never)]
pub fn scal<T: Numeric>(id: usize, xs: &[T]) -> T { let _ = (id, xs); loop {} }
/// a strictly positive scalar
#[inline(never)]
pub fn pos(id: usize, xs: &[f64]) -> f64 { let _ = (id, xs); loop {} }
#[inline(never)]
pub fn cond(id: usize, xs: &[f64]) -> bool { let _ = (id, xs); loop {} }
#[inline(never)]
pub fn mat(id: usize, r: usize, c: usize, xs: &[f64]) -> MatrixX { let _ = (id, r, c, xs); loop {} }
#[inline(never)]
pub fn log(id: usize, xs: &[f64]) { let _ = (id, xs); loop {} }
/// names the library traits whose implementations in factrs the analysis wants at hand
pub fn anchors(x: u64, y: u64) -> bool { let mut r = x..y; Iterator::next(&mut r).is_some() && Ord::cmp(&x, &y).is_lt() && PartialOrd::partial_cmp(&x, &y).is_some() }
