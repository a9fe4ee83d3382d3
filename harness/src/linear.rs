//! Assembly of the sparse system and the linear solvers.
use crate::factor::*;
use factrs::{containers::*, linalg::*, linear::*, residuals::*, traits::*, variables::*};
use faer::sparse::{SparseColMat, SparseColMatRef};
use faer::{Mat, MatRef};

pub type Sys = (usize, usize, Vec<f64>, Vec<f64>, usize);
pub fn obs(d: DiffResult<Mat<f64>, SparseColMat<usize, f64>>) -> Sys {
    let (r, c) = (d.diff.nrows(), d.diff.ncols());
    let m = d.diff.to_dense();
    let mut e = Vec::new();
    for i in 0..r { for j in 0..c { e.push(m.read(i, j)); } }
    let mut b = Vec::new();
    for i in 0..d.value.nrows() { b.push(d.value.read(i, 0)); }
    (r, c, e, b, d.value.ncols())
}
pub type Ix = Vec<(u64, usize, usize)>;
pub fn ix(o: &ValuesOrder) -> Ix { o.iter().map(|(k, i)| (k.0, i.idx, i.dim)).collect() }
/// nonlinear graph: pattern from the graph, values from its linearization
pub fn assemble(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let g = graph3(&w);
    let o = g.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(g.linearize(&v).residual_jacobian(&o)), i)
}
/// the linear graph's own pattern
pub fn assemble_linear(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let l = graph3(&w).linearize(&v);
    let o = l.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(l.residual_jacobian(&o)), i)
}
macro_rules! hres { ($($R:ident $Tr:ident $f:ident $id:literal, $din:literal, $dout:literal, [$($V:ident $v:ident $n:literal),*]);* $(;)?) => {$(
    #[derive(Clone, Debug)]
    pub struct $R;
    impl std::fmt::Display for $R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("u") } }
    #[factrs::mark]
    impl $Tr for $R {
        type Differ = ForwardProp<Const<$din>>;
        $(type $V = VectorVar<$n>;)*
        type DimIn = Const<$din>;
        type DimOut = Const<$dout>;
        fn $f<T: Numeric>(&self, $($v: VectorVar<$n, T>),*) -> VectorX<T> {
            let mut xs: Vec<T> = Vec::new();
            $(for i in 0..$n { xs.push($v[i]); })*
            crate::unk::vecfn($id, $dout, &xs)
        }
    }
)*}; }
hres! {
    H1 Residual3 residual3 451, 6, 1, [V1 c 1, V2 a 3, V3 b 2];
    H3 Residual1 residual1 452, 2, 3, [V1 d 2];
    UB Residual2 residual2 453, 4, 2, [V1 a 2, V2 b 2];
    UT Residual2 residual2 454, 72, 20, [V1 a 70, V2 b 2];
    UW Residual2 residual2 455, 72, 1, [V1 a 2, V2 b 70];
}
/// factors of 1, 2, 3 and 2 rows, keys in other orders than the columns
pub fn graph4(w: &W) -> Graph {
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new3(H1, C(1), A(7), B(4)).build());
    g.add_factor(FactorBuilder::new2(U2, A(7), B(4)).noise(UNoise(*w)).build());
    g.add_factor(FactorBuilder::new1(H3, D(3)).build());
    g.add_factor(FactorBuilder::new2(UD, B(4), D(3)).build());
    g
}
pub fn heights(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let g = graph4(&w);
    let o = g.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(g.linearize(&v).residual_jacobian(&o)), i)
}
pub fn heights_linear(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let l = graph4(&w).linearize(&v);
    let o = l.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(l.residual_jacobian(&o)), i)
}
/// factors of four, five and six keys
fn graph456(w: &W) -> Graph {
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new6(U6, A(7), B(4), C(1), D(3), E(2), F(0)).build());
    g.add_factor(FactorBuilder::new4(U4, A(7), B(4), C(1), D(3)).noise(UNoise(*w)).build());
    g.add_factor(FactorBuilder::new5(U5, A(7), B(4), C(1), D(3), E(2)).build());
    g
}
pub fn arity(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let g = graph456(&w);
    let o = g.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(g.linearize(&v).residual_jacobian(&o)), i)
}
pub fn arity_linear(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let l = graph456(&w).linearize(&v);
    let o = l.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(l.residual_jacobian(&o)), i)
}
/// one order, values that moved since
pub fn moved(w: W, p: [f64; 11], q: [f64; 11]) -> (Sys, Ix) {
    let g = graph4(&w);
    let o = g.sparsity_pattern(ValuesOrder::from_values(&vals(&q)));
    let i = ix(&o.order);
    let _ = g.linearize(&vals(&q)).residual_jacobian(&o);
    (obs(g.linearize(&vals(&p)).residual_jacobian(&o)), i)
}
/// linear factors of different heights over keys in other orders than the columns
pub fn lgraph(a: &[f64; 40], b: &[f64; 6]) -> LinearGraph {
    let mut n = 0;
    let mut m = |r: usize, c: usize| { let s = n; n += r * c; MatrixX::from_fn(r, c, |i, j| a[s + i * c + j]) };
    let mut g = LinearGraph::new();
    g.add_factor(LinearFactor::new(vec![Key(3), Key(1)], MatrixBlock::new(m(2, 4), vec![0, 1]), VectorX::from_fn(2, |i, _| b[i])));
    g.add_factor(LinearFactor::new(vec![Key(2)], MatrixBlock::new(m(1, 2), vec![0]), VectorX::from_fn(1, |i, _| b[2 + i])));
    g.add_factor(LinearFactor::new(vec![Key(1), Key(2), Key(3)], MatrixBlock::new(m(3, 6), vec![0, 3, 5]), VectorX::from_fn(3, |i, _| b[3 + i])));
    g
}
fn lorder(which: usize) -> ValuesOrder {
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    let at = if which == 0 { [0, 3, 5] } else if which == 1 { [3, 1, 0] } else { [2, 0, 5] };
    m.insert(Key(1), Idx { idx: at[0], dim: 3 });
    m.insert(Key(2), Idx { idx: at[1], dim: 2 });
    m.insert(Key(3), Idx { idx: at[2], dim: 1 });
    ValuesOrder::new(m)
}
macro_rules! lin { ($($f:ident $n:literal),*) => {$(pub fn $f(a: [f64; 40], b: [f64; 6]) -> (Sys, Ix) {
    let g = lgraph(&a, &b);
    let o = g.sparsity_pattern(lorder($n));
    let i = ix(&o.order);
    (obs(g.residual_jacobian(&o)), i)
})*}; }
lin!(lin0 0, lin1 1, lin2 2);
/// entry n of the blocks (b: of the right-hand sides) is infinite or not a number: which entries of the system are
pub fn lin_special(n: usize, b: bool, nan: bool) -> (Vec<bool>, Vec<bool>, Vec<f64>, Vec<f64>) {
    let x = if nan { f64::NAN } else { f64::NEG_INFINITY };
    let (mut a, mut r) = ([0.0; 40], [0.0; 6]);
    for i in 0..40 { a[i] = (i + 1) as f64; }
    for i in 0..6 { r[i] = (i + 1) as f64; }
    if b { r[n] = x } else { a[n] = x }
    let g = lgraph(&a, &r);
    let o = g.sparsity_pattern(lorder(0));
    let d = g.residual_jacobian(&o);
    let m = d.diff.to_dense();
    let is = |v: f64| if nan { v.is_nan() } else { v.is_infinite() && v < 0.0 };
    let (mut p, mut q, mut v, mut w) = (vec![], vec![], vec![], vec![]);
    for i in 0..m.nrows() {
        for j in 0..m.ncols() { p.push(is(m[(i, j)])); v.push(if is(m[(i, j)]) { 0.0 } else { m[(i, j)] }); }
        q.push(is(d.value[(i, 0)])); w.push(if is(d.value[(i, 0)]) { 0.0 } else { d.value[(i, 0)] });
    }
    (p, q, v, w)
}

// ---------------------------------------------------------------- sizes
/// one more than each index, scaled: all entries different
fn en(a: &[f64; 4], i: usize, j: usize) -> f64 { a[0] * (i + 1) as f64 + a[1] * (j + 1) as f64 }
fn chain_order(n: usize) -> ValuesOrder {
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    for i in 0..n + 1 { m.insert(Key(i as u64), Idx { idx: n - i, dim: 1 }); }
    ValuesOrder::new(m)
}
/// for large systems only the entries at the given places
fn some(d: DiffResult<Mat<f64>, SparseColMat<usize, f64>>, at: &[(usize, usize)]) -> Sys {
    let (r, c) = (d.diff.nrows(), d.diff.ncols());
    if r * c <= 5000 { return obs(d); }
    let m = d.diff.to_dense();
    (r, c, at.iter().map(|(i, j)| m.read(*i, *j)).collect(), (0..d.value.nrows()).map(|i| d.value.read(i, 0)).collect(), d.value.ncols())
}
pub type Sized = (Sys, Ix, Vec<(usize, usize)>);
/// n factors of one row: factor i on keys i + 1 and i, columns in reverse
pub fn sized_chain(n: usize, a: [f64; 4]) -> Sized {
    let mut g = LinearGraph::new();
    for i in 0..n { g.add_factor(LinearFactor::new(vec![Key(i as u64 + 1), Key(i as u64)], MatrixBlock::new(MatrixX::from_fn(1, 2, |_, j| en(&a, i, j)), vec![0, 1]), VectorX::from_fn(1, |_, _| a[2] * (i + 1) as f64))); }
    let o = g.sparsity_pattern(chain_order(n));
    let i = ix(&o.order);
    let at: Vec<(usize, usize)> = (0..n).flat_map(|i| [(i, n - i - 1), (i, n - i), (i, 0), (n / 2, i)]).collect();
    (some(g.residual_jacobian(&o), &at), i, at)
}
/// a factor of n rows on one key of width 1, then one of one row
pub fn sized_tall(n: usize, a: [f64; 4]) -> Sized {
    let mut g = LinearGraph::new();
    g.add_factor(LinearFactor::new(vec![Key(1)], MatrixBlock::new(MatrixX::from_fn(n, 1, |i, j| en(&a, i, j)), vec![0]), VectorX::from_fn(n, |i, _| a[2] * (i + 1) as f64)));
    g.add_factor(LinearFactor::new(vec![Key(0)], MatrixBlock::new(MatrixX::from_fn(1, 1, |_, _| a[3]), vec![0]), VectorX::from_fn(1, |_, _| a[0])));
    let o = g.sparsity_pattern(chain_order(2));
    let i = ix(&o.order);
    let at: Vec<(usize, usize)> = (0..3 * n + 3).map(|i| (i / 3, i % 3)).collect();
    (some(g.residual_jacobian(&o), &at), i, at)
}
/// one factor of one row on n keys
pub fn sized_keys(n: usize, a: [f64; 4]) -> Sized {
    let mut g = LinearGraph::new();
    g.add_factor(LinearFactor::new((0..n as u64).map(Key).collect(), MatrixBlock::new(MatrixX::from_fn(1, n, |i, j| en(&a, i, j)), (0..n).collect()), VectorX::from_fn(1, |i, _| a[2] * (i + 1) as f64)));
    let o = g.sparsity_pattern(chain_order(n));
    let i = ix(&o.order);
    let at: Vec<(usize, usize)> = (0..n + 1).map(|j| (0, j)).collect();
    (some(g.residual_jacobian(&o), &at), i, at)
}
/// one factor of two rows on a key of width n and another of width 1
pub fn sized_wide(n: usize, a: [f64; 4]) -> Sized {
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    m.insert(Key(0), Idx { idx: 1, dim: n });
    m.insert(Key(1), Idx { idx: 0, dim: 1 });
    let mut g = LinearGraph::new();
    g.add_factor(LinearFactor::new(vec![Key(0), Key(1)], MatrixBlock::new(MatrixX::from_fn(2, n + 1, |i, j| en(&a, i, j)), vec![0, n]), VectorX::from_fn(2, |i, _| a[2] * (i + 1) as f64)));
    let o = g.sparsity_pattern(ValuesOrder::new(m));
    let i = ix(&o.order);
    let at: Vec<(usize, usize)> = (0..n + 1).flat_map(|j| [(0, j), (1, j)]).collect();
    (some(g.residual_jacobian(&o), &at), i, at)
}
/// n nonlinear factors on D(1), ..., D(n)
pub fn sized_graph(n: usize, a: [f64; 4]) -> (Sys, Ix, Vec<(usize, usize)>, f64, usize) {
    let mut g = Graph::new();
    let mut v = Values::new();
    for i in 0..n as u64 {
        g.add_factor(FactorBuilder::new1(H3, D(i)).build());
        v.insert(D(i), VectorVar2::new(a[0] * (i + 1) as f64, a[1]));
    }
    let o = g.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    let at: Vec<(usize, usize)> = (0..n).flat_map(|i| { let c = o.order.get(D(i as u64)).unwrap().idx; [(3 * i, c), (3 * i, c + 1), (3 * i + 1, c), (3 * i + 1, c + 1), (3 * i + 2, c), (3 * i + 2, c + 1), (3 * i, 0), (4, i)] }).collect();
    (some(g.linearize(&v).residual_jacobian(&o), &at), i, at, g.error(&v), g.len())
}
type V70 = VectorVar<70>;
use factrs::assign_symbols;
assign_symbols!(T: V70);
/// nonlinear factors of many rows on wide variables, followed by others
pub fn big(w: W, p: [f64; 11], t: [f64; 70]) -> (Sys, Ix, u64) {
    let mut v = vals(&p);
    v.insert(T(5), VectorVar::<70>(Vector::<70>::from_fn(|i, _| t[i])));
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new2(UT, T(5), B(4)).build());
    g.add_factor(FactorBuilder::new2(UW, D(3), T(5)).build());
    g.add_factor(FactorBuilder::new2(U2, A(7), B(4)).noise(UNoise(w)).build());
    let o = g.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(g.linearize(&v).residual_jacobian(&o)), i, Key::from(T(5)).0)
}
/// cost of n factors, of the linearized graph at a step, and of a chain of linear factors
pub fn sized_error(n: usize, a: [f64; 4]) -> (f64, f64, f64) {
    let mut g = Graph::new();
    let mut l = LinearGraph::new();
    let mut v = Values::new();
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    for i in 0..n as u64 {
        g.add_factor(FactorBuilder::new1(H3, D(i)).build());
        v.insert(D(i), VectorVar2::new(a[0] * (i + 1) as f64, a[1]));
        m.insert(D(i).into(), Idx { idx: 2 * i as usize, dim: 2 });
        l.add_factor(LinearFactor::new(vec![Key(i + 1), Key(i)], MatrixBlock::new(MatrixX::from_fn(1, 2, |_, j| en(&a, i as usize, j)), vec![0, 1]), VectorX::from_fn(1, |_, _| a[2] * (i + 1) as f64)));
    }
    let d = LinearValues::from_order_and_vector(ValuesOrder::new(m), VectorX::from_fn(2 * n, |i, _| a[3] * (i + 1) as f64));
    let e = LinearValues::from_order_and_vector(chain_order(n), VectorX::from_fn(n + 1, |i, _| a[3] * (i + 1) as f64));
    (g.error(&v), g.linearize(&v).error(&d), l.error(&e))
}
pub fn sized_key(i: u64) -> u64 { Key::from(D(i)).0 }
/// a factor that names the same key twice
pub fn twice(w: W, p: [f64; 11]) -> (Sys, Ix) {
    let v = vals(&p);
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new2(UB, B(4), B(4)).build());
    g.add_factor(FactorBuilder::new2(U2, A(7), B(4)).noise(UNoise(w)).build());
    let o = g.sparsity_pattern(ValuesOrder::from_values(&v));
    let i = ix(&o.order);
    (obs(g.linearize(&v).residual_jacobian(&o)), i)
}

// ---------------------------------------------------------------- solvers
pub fn sparse32(a: &[f64; 6]) -> SparseColMat<usize, f64> {
    SparseColMat::<usize, f64>::try_new_from_triplets(3, 2, &[(0, 0, a[0]), (0, 1, a[1]), (1, 0, a[2]), (1, 1, a[3]), (2, 0, a[4]), (2, 1, a[5])]).unwrap()
}
pub fn sparse22(a: &[f64; 3]) -> SparseColMat<usize, f64> {
    SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0, 0, a[0]), (0, 1, a[1]), (1, 0, a[1]), (1, 1, a[2])]).unwrap()
}
fn col(m: &Mat<f64>) -> (usize, usize, Vec<f64>) { (m.nrows(), m.ncols(), (0..m.nrows()).map(|i| m.read(i, 0)).collect()) }
macro_rules! solv { ($($m:ident $S:ty),*) => {$(pub mod $m { use super::*;
    type S = $S;
    pub fn lst(a: [f64; 6], b: [f64; 3]) -> (usize, usize, Vec<f64>) {
        col(&S::default().solve_lst_sq(sparse32(&a).as_ref(), Mat::from_fn(3, 1, |i, _| b[i]).as_ref()))
    }
    pub fn sym(a: [f64; 3], b: [f64; 2]) -> (usize, usize, Vec<f64>) {
        col(&S::default().solve_symmetric(sparse22(&a).as_ref(), Mat::from_fn(2, 1, |i, _| b[i]).as_ref()))
    }
    /// the second call has other numbers in the same pattern
    pub fn lst_again(a: [f64; 6], b: [f64; 3], c: [f64; 6], d: [f64; 3]) -> (usize, usize, Vec<f64>) {
        let mut s = S::default();
        let _ = s.solve_lst_sq(sparse32(&c).as_ref(), Mat::from_fn(3, 1, |i, _| d[i]).as_ref());
        col(&s.solve_lst_sq(sparse32(&a).as_ref(), Mat::from_fn(3, 1, |i, _| b[i]).as_ref()))
    }
    /// n unknowns, n + 1 equations: each unknown in its own equation, the first one also in the last
    pub fn sized_lst(n: usize, a: [f64; 4]) -> (usize, usize, Vec<f64>) {
        let mut t: Vec<(usize, usize, f64)> = (0..n).map(|i| (i, i, a[0] * (i + 1) as f64)).collect();
        t.push((n, 0, a[1]));
        let m = SparseColMat::<usize, f64>::try_new_from_triplets(n + 1, n, &t).unwrap();
        col(&S::default().solve_lst_sq(m.as_ref(), Mat::from_fn(n + 1, 1, |i, _| a[2] * (i + 1) as f64 + a[3]).as_ref()))
    }
    /// as many equations as unknowns
    pub fn square(a: [f64; 4], b: [f64; 2]) -> (usize, usize, Vec<f64>) {
        let m = SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0, 0, a[0]), (0, 1, a[1]), (1, 0, a[2]), (1, 1, a[3])]).unwrap();
        col(&S::default().solve_lst_sq(m.as_ref(), Mat::from_fn(2, 1, |i, _| b[i]).as_ref()))
    }
    /// square systems twice
    pub fn square_again(a: [f64; 4], b: [f64; 2], c: [f64; 4]) -> (usize, usize, Vec<f64>) {
        let mut s = S::default();
        let q = |a: [f64; 4]| SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0, 0, a[0]), (0, 1, a[1]), (1, 0, a[2]), (1, 1, a[3])]).unwrap();
        let _ = s.solve_lst_sq(q(c).as_ref(), Mat::from_fn(2, 1, |i, _| b[i]).as_ref());
        col(&s.solve_lst_sq(q(a).as_ref(), Mat::from_fn(2, 1, |i, _| b[i]).as_ref()))
    }
    /// several right-hand sides
    pub fn lst_many(a: [f64; 6], b: [f64; 3], d: [f64; 3]) -> (usize, usize, Vec<f64>, Vec<f64>) {
        let x = S::default().solve_lst_sq(sparse32(&a).as_ref(), Mat::from_fn(3, 2, |i, j| if j == 0 { b[i] } else { d[i] }).as_ref());
        (x.nrows(), x.ncols(), (0..x.nrows()).map(|i| x.read(i, 0)).collect(), (0..x.nrows()).map(|i| x.read(i, 1)).collect())
    }
    pub fn sym_many(a: [f64; 3], b: [f64; 2], d: [f64; 2]) -> (usize, usize, Vec<f64>, Vec<f64>) {
        let x = S::default().solve_symmetric(sparse22(&a).as_ref(), Mat::from_fn(2, 2, |i, j| if j == 0 { b[i] } else { d[i] }).as_ref());
        (x.nrows(), x.ncols(), (0..x.nrows()).map(|i| x.read(i, 0)).collect(), (0..x.nrows()).map(|i| x.read(i, 1)).collect())
    }
    /// one unknown
    pub fn single(a: [f64; 3], b: [f64; 3]) -> (usize, usize, Vec<f64>) {
        let m = SparseColMat::<usize, f64>::try_new_from_triplets(3, 1, &[(0, 0, a[0]), (1, 0, a[1]), (2, 0, a[2])]).unwrap();
        col(&S::default().solve_lst_sq(m.as_ref(), Mat::from_fn(3, 1, |i, _| b[i]).as_ref()))
    }
    /// structurally sparse, columns in a non-trivial pattern
    pub fn sparse(a: [f64; 6], b: [f64; 4]) -> (usize, usize, Vec<f64>) {
        let m = SparseColMat::<usize, f64>::try_new_from_triplets(4, 3, &[(0, 2, a[0]), (1, 0, a[1]), (2, 1, a[2]), (3, 0, a[3]), (3, 1, a[4]), (2, 2, a[5])]).unwrap();
        col(&S::default().solve_lst_sq(m.as_ref(), Mat::from_fn(4, 1, |i, _| b[i]).as_ref()))
    }
    /// a solver used three times
    pub fn lst_third(a: [f64; 6], b: [f64; 3], c: [f64; 6], d: [f64; 3]) -> (usize, usize, Vec<f64>) {
        let mut s = S::default();
        let _ = s.solve_lst_sq(sparse32(&c).as_ref(), Mat::from_fn(3, 1, |i, _| d[i]).as_ref());
        let _ = s.solve_lst_sq(sparse32(&c).as_ref(), Mat::from_fn(3, 1, |i, _| b[i]).as_ref());
        col(&s.solve_lst_sq(sparse32(&a).as_ref(), Mat::from_fn(3, 1, |i, _| b[i]).as_ref()))
    }
    /// 2n unknowns, coupled in pairs
    pub fn sized_sym(n: usize, a: [f64; 4]) -> (usize, usize, Vec<f64>) {
        let mut t: Vec<(usize, usize, f64)> = Vec::new();
        for i in 0..n {
            t.push((2 * i, 2 * i, a[0] * (i + 1) as f64));
            t.push((2 * i + 1, 2 * i + 1, a[0]));
            t.push((2 * i + 1, 2 * i, a[1]));
            t.push((2 * i, 2 * i + 1, a[1]));
        }
        let m = SparseColMat::<usize, f64>::try_new_from_triplets(2 * n, 2 * n, &t).unwrap();
        col(&S::default().solve_symmetric(m.as_ref(), Mat::from_fn(2 * n, 1, |i, _| a[2] * (i + 1) as f64 + a[3]).as_ref()))
    }
    pub fn sym_again(a: [f64; 3], b: [f64; 2], c: [f64; 3], d: [f64; 2]) -> (usize, usize, Vec<f64>) {
        let mut s = S::default();
        let _ = s.solve_symmetric(sparse22(&c).as_ref(), Mat::from_fn(2, 1, |i, _| d[i]).as_ref());
        col(&s.solve_symmetric(sparse22(&a).as_ref(), Mat::from_fn(2, 1, |i, _| b[i]).as_ref()))
    }
})*}; }
solv!(chol CholeskySolver, qr QRSolver, lu LUSolver);
