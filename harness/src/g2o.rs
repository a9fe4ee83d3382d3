//! Loading g2o files: the graph and values that come out of load_g20, and the graph the lines describe.
use factrs::{assign_symbols, containers::*, linalg::*, noise::*, residuals::*, traits::*, variables::*};

assign_symbols!(X: SE2, SE3);
/// number of factors, cost at the given poses, the poses loaded under the given ids, number of poses loaded
pub type O = (usize, f64, Vec<Option<Vec<f64>>>, usize);
fn se2(c: &[f64]) -> SE2 { SE2::new(c[2], c[0], c[1]) }
fn se3(c: &[f64]) -> SE3 { SE3::from_rot_trans(SO3::from_xyzw(c[3], c[4], c[5], c[6]), Vector3::new(c[0], c[1], c[2])) }
/// poses by id at which the cost is evaluated
fn at2(p: &[[f64; 3]; 3], ids: &[u64]) -> Values { let mut v = Values::new(); for (i, k) in ids.iter().enumerate() { v.insert(X(*k), se2(&p[i])); } v }
fn at3(p: &[[f64; 7]; 3], ids: &[u64]) -> Values { let mut v = Values::new(); for (i, k) in ids.iter().enumerate() { v.insert(X(*k), se3(&p[i])); } v }
fn obs2(v: &Values, ids: &[u64]) -> Vec<Option<Vec<f64>>> { ids.iter().map(|k| v.get::<_, SE2>(X(*k)).map(|x| { let m = x.rot().to_matrix(); vec![x.x(), x.y(), m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]] })).collect() }
fn obs3(v: &Values, ids: &[u64]) -> Vec<Option<Vec<f64>>> { ids.iter().map(|k| v.get::<_, SE3>(X(*k)).map(|x| { let (t, r) = (x.xyz(), x.rot()); vec![t[0], t[1], t[2], r.x(), r.y(), r.z(), r.w()] })).collect() }
const IDS: [u64; 3] = [4000000007, 0, 70003];

pub fn load2(p: [[f64; 3]; 3]) -> O { let (g, v) = factrs::utils::load_g20("in.g2o"); (g.len(), g.error(&at2(&p, &IDS)), obs2(&v, &IDS), v.len()) }
pub fn load3(p: [[f64; 7]; 3]) -> O { let (g, v) = factrs::utils::load_g20("in.g2o"); (g.len(), g.error(&at3(&p, &IDS)), obs3(&v, &IDS), v.len()) }
/// n more vertices, with ids from 10
pub fn many2(n: u64, p: [[f64; 3]; 3]) -> (O, Vec<Option<Vec<f64>>>) { let (g, v) = factrs::utils::load_g20("in.g2o"); let ids: Vec<u64> = (10..10 + n).collect(); ((g.len(), g.error(&at2(&p, &IDS)), obs2(&v, &IDS), v.len()), obs2(&v, &ids)) }
pub fn many3(n: u64, p: [[f64; 7]; 3]) -> (O, Vec<Option<Vec<f64>>>) { let (g, v) = factrs::utils::load_g20("in.g2o"); let ids: Vec<u64> = (10..10 + n).collect(); ((g.len(), g.error(&at3(&p, &IDS)), obs3(&v, &IDS), v.len()), obs3(&v, &ids)) }

// ---------------------------------------------------------------- what the lines describe
pub fn prior2(c: [f64; 3], p: [[f64; 3]; 3]) -> VectorX { PriorResidual::new(se2(&c)).residual1(se2(&p[0])) }
pub fn prior3(c: [f64; 7], p: [[f64; 7]; 3]) -> VectorX { PriorResidual::new(se3(&c)).residual1(se3(&p[0])) }
/// half the squared norm of the difference weighted by the information matrix (its rows)
pub fn edge2(c: [f64; 3], inf: [f64; 9], a: [f64; 3], b: [f64; 3]) -> f64 {
    let r = BetweenResidual::new(se2(&c)).residual2(se2(&a), se2(&b));
    let n = GaussianNoise::<3>::from_matrix_inf(Matrix3::from_fn(|i, j| inf[3 * i + j]).as_view());
    n.whiten_vec(r).norm_squared() / 2.0
}
pub fn edge3(c: [f64; 7], inf: [f64; 36], a: [f64; 7], b: [f64; 7]) -> f64 {
    let r = BetweenResidual::new(se3(&c)).residual2(se3(&a), se3(&b));
    let n = GaussianNoise::<6>::from_matrix_inf(Matrix6::from_fn(|i, j| inf[6 * i + j]).as_view());
    n.whiten_vec(r).norm_squared() / 2.0
}
pub fn pose2(c: [f64; 3]) -> Vec<f64> { let x = se2(&c); let m = x.rot().to_matrix(); vec![x.x(), x.y(), m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]] }
pub fn pose3(c: [f64; 7]) -> Vec<f64> { let x = se3(&c); let (t, r) = (x.xyz(), x.rot()); vec![t[0], t[1], t[2], r.x(), r.y(), r.z(), r.w()] }
