//! Noise model constructors: the whitening matrix, and whitening of a vector and a matrix.
use factrs::{linalg::*, noise::*, traits::*};
type R = (usize, Vec<f64>, Vec<f64>);
fn out<N: NoiseModel>(n: &N, v: &[f64], d: usize) -> R where {
    let m = n.whiten_mat(MatrixX::identity(d, d));
    let w = n.whiten_vec(VectorX::from_fn(d, |i, _| v[i]));
    assert!(m.nrows() == d && m.ncols() == d && w.len() == d);
    (n.dim(), m.iter().cloned().collect(), w.iter().cloned().collect())
}
/// the same through a trait object of the object-safe part
macro_rules! noise { ($($m:ident $N:literal),*) => {$(pub mod $m { use super::*;
    type G = GaussianNoise<$N>;
    type P = [f64; $N];
    pub fn unit(v: P) -> R { out(&UnitNoise::<$N>, &v, $N) }
    pub fn identity(v: P) -> R { out(&G::identity(), &v, $N) }
    pub fn scalar_sigma(s: P, v: P) -> R { out(&G::from_scalar_sigma(s[0]), &v, $N) }
    pub fn scalar_cov(s: P, v: P) -> R { out(&G::from_scalar_cov(s[0]), &v, $N) }
    pub fn vec_sigma(s: P, v: P) -> R { out(&G::from_vec_sigma(Vector::<$N>::from(s).as_view()), &v, $N) }
    pub fn vec_cov(s: P, v: P) -> R { out(&G::from_vec_cov(Vector::<$N>::from(s).as_view()), &v, $N) }
    pub fn vec_inf(s: P, v: P) -> R { out(&G::from_vec_inf(Vector::<$N>::from(s).as_view()), &v, $N) }
    pub fn matrix_cov(s: [[f64; $N]; $N], v: P) -> R { out(&G::from_matrix_cov(Matrix::<$N, $N>::from_fn(|i, j| s[i][j]).as_view()), &v, $N) }
    pub fn matrix_inf(s: [[f64; $N]; $N], v: P) -> R { out(&G::from_matrix_inf(Matrix::<$N, $N>::from_fn(|i, j| s[i][j]).as_view()), &v, $N) }
    pub fn rect(s: P, m: [[f64; 2]; $N]) -> (usize, usize, Vec<f64>) {
        let r = G::from_vec_sigma(Vector::<$N>::from(s).as_view()).clone().whiten_mat(MatrixX::from_fn($N, 2, |i, j| m[i][j]));
        (r.nrows(), r.ncols(), r.iter().cloned().collect())
    }
    pub fn unit_rect(m: [[f64; 2]; $N]) -> (usize, usize, Vec<f64>) {
        let r = UnitNoise::<$N>.whiten_mat(MatrixX::from_fn($N, 2, |i, j| m[i][j]));
        (r.nrows(), r.ncols(), r.iter().cloned().collect())
    }
    pub fn rect_n(w: usize, s: P, m: Vec<Vec<f64>>) -> (usize, usize, Vec<f64>) {
        let r = G::from_vec_sigma(Vector::<$N>::from(s).as_view()).clone().whiten_mat(MatrixX::from_fn($N, w, |i, j| m[i][j]));
        (r.nrows(), r.ncols(), r.iter().cloned().collect())
    }
    pub fn unit_rect_n(w: usize, m: Vec<Vec<f64>>) -> (usize, usize, Vec<f64>) {
        let r = UnitNoise::<$N>.whiten_mat(MatrixX::from_fn($N, w, |i, j| m[i][j]));
        (r.nrows(), r.ncols(), r.iter().cloned().collect())
    }
})*}; }
noise!(n1 1, n2 2, n3 3, n4 4, n5 5, n6 6, n9 9, n12 12, n15 15);

macro_rules! diags { ($($m:ident $N:literal [$($i:literal)*]),*) => {pub mod diag { use super::*; $(pub mod $m { use super::*;
    type G = GaussianNoise<$N>;
    type P = [f64; $N];
    pub fn diag_sigmas(s: P, v: P) -> R { out(&G::from_diag_sigmas($(s[$i]),*), &v, $N) }
    pub fn diag_covs(s: P, v: P) -> R { out(&G::from_diag_covs($(s[$i]),*), &v, $N) }
})*} }; }
diags!(n1 1 [0], n2 2 [0 1], n3 3 [0 1 2], n4 4 [0 1 2 3], n5 5 [0 1 2 3 4], n6 6 [0 1 2 3 4 5]);
