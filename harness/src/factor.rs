//! Factors over uninterpreted residuals, a symbolic whitening matrix and an uninterpreted kernel.
use crate::unk;
use factrs::{assign_symbols, containers::*, fac, linalg::*, linear::*, noise::*, residuals::*, robust::*, traits::*, variables::*};
use std::fmt;

pub type W = [f64; 4];
macro_rules! disp { ($($t:ty),*) => {$(impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("u") } })*}; }

/// whitening by an arbitrary 2x2 matrix
#[derive(Clone, Debug)]
pub struct UNoise(pub W);
#[factrs::mark]
impl NoiseModel for UNoise {
    type Dim = Const<2>;
    fn whiten_vec(&self, v: VectorX) -> VectorX { VectorX::from_fn(2, |i, _| self.0[2 * i] * v[0] + self.0[2 * i + 1] * v[1]) }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX { MatrixX::from_fn(2, m.ncols(), |i, j| self.0[2 * i] * m[(0, j)] + self.0[2 * i + 1] * m[(1, j)]) }
}
#[derive(Clone, Debug)]
pub struct URobust(pub usize);
#[factrs::mark]
impl RobustCost for URobust {
    fn loss(&self, d2: f64) -> f64 { unk::scal(self.0, &[d2]) }
    fn weight(&self, d2: f64) -> f64 { unk::pos(self.0, &[d2]) }
}

macro_rules! ures { ($($R:ident $Tr:ident $f:ident $id:literal, $din:literal, [$($V:ident $v:ident $n:literal),*]);* $(;)?) => {$(
    #[derive(Clone, Debug)]
    pub struct $R;
    disp!($R);
    #[factrs::mark]
    impl $Tr for $R {
        type Differ = ForwardProp<Const<$din>>;
        $(type $V = VectorVar<$n>;)*
        type DimIn = Const<$din>;
        type DimOut = Const<2>;
        fn $f<T: Numeric>(&self, $($v: VectorVar<$n, T>),*) -> VectorX<T> {
            let mut xs: Vec<T> = Vec::new();
            $(for i in 0..$n { xs.push($v[i]); })*
            unk::vecfn($id, 2, &xs)
        }
    }
)*}; }
disp!(UNoise);
ures! {
    U1 Residual1 residual1 401, 3, [V1 a 3];
    U2 Residual2 residual2 402, 5, [V1 a 3, V2 b 2];
    U3 Residual3 residual3 403, 6, [V1 a 3, V2 b 2, V3 c 1];
    U4 Residual4 residual4 404, 8, [V1 a 3, V2 b 2, V3 c 1, V4 d 2];
    U5 Residual5 residual5 405, 9, [V1 a 3, V2 b 2, V3 c 1, V4 d 2, V5 e 1];
    U6 Residual6 residual6 406, 11, [V1 a 3, V2 b 2, V3 c 1, V4 d 2, V5 e 1, V6 f 2];
}
// letters whose order is not the order of use
mod letters { use super::*; assign_symbols!(N: VectorVar3; K: VectorVar2; R: VectorVar1; J: VectorVar2; Q: VectorVar1; H: VectorVar2); }
pub use letters::{N as A, K as B, R as C, J as D, Q as E, H as F};
/// values under keys whose numeric order and insertion order differ from the factors' key order
pub fn vals(p: &[f64; 11]) -> Values {
    let mut x = Values::new();
    x.insert_unchecked(D(9), VectorVar2::new(-7.0, -8.0));
    x.insert(F(0), VectorVar2::new(p[9], p[10]));
    x.insert(B(4), VectorVar2::new(p[3], p[4]));
    x.insert(E(2), VectorVar1::new(p[8]));
    x.insert(A(7), VectorVar3::new(p[0], p[1], p[2]));
    x.insert(C(1), VectorVar1::new(p[5]));
    x.insert(D(3), VectorVar2::new(p[6], p[7]));
    x
}
pub type L = (Vec<u64>, (usize, usize), Vec<f64>, Vec<usize>, Vec<f64>, usize);
pub fn lin(l: &LinearFactor) -> L {
    (l.keys.iter().map(|k| k.0).collect(), l.a.mat().shape(), l.a.mat().iter().cloned().collect(), l.a.idx().to_vec(), l.b.iter().cloned().collect(), l.dim_out())
}
pub fn blocks(l: &LinearFactor) -> Vec<((usize, usize), Vec<f64>)> {
    (0..l.keys.len()).map(|i| { let m = l.a.get_block(i); (m.shape(), m.iter().cloned().collect()) }).collect()
}
pub type O = (Vec<u64>, f64, usize, L);
pub fn obs(f: Factor, p: &[f64; 11]) -> O {
    let v = vals(p);
    let l = f.linearize(&v);
    (f.keys().iter().map(|k| k.0).collect(), f.error(&v), f.dim_out(), lin(&l))
}
macro_rules! fans { ($($m:ident $R:ident $new:ident $newu:ident [$($k:expr),*]);* $(;)?) => {$(pub mod $m { use super::*;
    pub fn dims() -> (usize, usize) { let r: Box<dyn Residual> = Box::new($R); (r.dim_in(), r.dim_out()) }
    pub fn plain(p: [f64; 11]) -> O { obs(FactorBuilder::$new($R, $($k),*).build(), &p) }
    pub fn unchecked(p: [f64; 11]) -> O { obs(FactorBuilder::$newu($R, $($k),*).build(), &p) }
    pub fn noise(w: W, p: [f64; 11]) -> O { obs(FactorBuilder::$new($R, $($k),*).noise(UNoise(w)).build(), &p) }
    pub fn robust(p: [f64; 11]) -> O { obs(FactorBuilder::$new($R, $($k),*).robust(URobust(41)).build(), &p) }
    pub fn full(w: W, p: [f64; 11]) -> O { obs(FactorBuilder::$new($R, $($k),*).noise(UNoise(w)).robust(URobust(41)).build(), &p) }
    pub fn swapped(w: W, p: [f64; 11]) -> O { obs(FactorBuilder::$newu($R, $($k),*).robust(URobust(41)).noise(UNoise(w)).build(), &p) }
    pub fn last_wins(v: W, w: W, p: [f64; 11]) -> O { obs(FactorBuilder::$new($R, $($k),*).noise(UNoise(v)).robust(URobust(42)).robust(URobust(41)).noise(UNoise(w)).build(), &p) }
    pub fn mac(p: [f64; 11]) -> O { obs(fac![$R, [$($k),*]], &p) }
    pub fn mac_noise(w: W, p: [f64; 11]) -> O { obs(fac![$R, [$($k),*], UNoise(w)], &p) }
    pub fn mac_full(w: W, p: [f64; 11]) -> O { obs(fac![$R, [$($k),*], UNoise(w), URobust(41)], &p) }
    pub fn mac_paren(w: W, p: [f64; 11]) -> O { obs(fac![$R, ($($k,)*), UNoise(w), URobust(41)], &p) }
    pub fn blocks(w: W, p: [f64; 11]) -> Vec<((usize, usize), Vec<f64>)> {
        let v = vals(&p);
        super::blocks(&FactorBuilder::$new($R, $($k),*).noise(UNoise(w)).robust(URobust(41)).build().linearize(&v))
    }
    /// the linear factor's own error, at a step d given per variable in the order a..f
    pub fn lerr(w: W, p: [f64; 11], d: [f64; 11]) -> f64 {
        let v = vals(&p);
        let order = ValuesOrder::from_values(&v);
        let f = FactorBuilder::$new($R, $($k),*).noise(UNoise(w)).robust(URobust(41)).build().linearize(&v);
        let mut x = VectorX::zeros(order.dim());
        for (k, o, n) in [(Key::from(A(7)), 0, 3), (B(4).into(), 3, 2), (C(1).into(), 5, 1), (D(3).into(), 6, 2), (E(2).into(), 8, 1), (F(0).into(), 9, 2)] {
            let i = order.get(k).unwrap().idx;
            for j in 0..n { x[i + j] = d[o + j]; }
        }
        let junk = order.get(D(9)).unwrap().idx;
        x[junk] = -3.0;
        f.error(&LinearValues::from_order_and_vector(order, x))
    }
})*}; }
fans! {
    f1 U1 new1 new1_unchecked [A(7)];
    f2 U2 new2 new2_unchecked [A(7), B(4)];
    f3 U3 new3 new3_unchecked [A(7), B(4), C(1)];
    f4 U4 new4 new4_unchecked [A(7), B(4), C(1), D(3)];
    f5 U5 new5 new5_unchecked [A(7), B(4), C(1), D(3), E(2)];
    f6 U6 new6 new6_unchecked [A(7), B(4), C(1), D(3), E(2), F(0)];
}
pub fn keys() -> Vec<u64> { vec![Key::from(A(7)).0, Key::from(B(4)).0, Key::from(C(1)).0, Key::from(D(3)).0, Key::from(E(2)).0, Key::from(F(0)).0] }
/// single key without brackets, as an expression and as a name
pub fn mac_single(p: [f64; 11]) -> O { obs(fac![U1, A(7)], &p) }
pub fn mac_single_name(w: W, p: [f64; 11]) -> O { let k = A(7); obs(fac![U1, k, UNoise(w), URobust(41)], &p) }

/// residual over one key used twice
#[derive(Clone, Debug)]
pub struct UD;
disp!(UD);
#[factrs::mark]
impl Residual2 for UD {
    type Differ = ForwardProp<Const<4>>;
    type V1 = VectorVar2;
    type V2 = VectorVar2;
    type DimIn = Const<4>;
    type DimOut = Const<2>;
    fn residual2<T: Numeric>(&self, a: VectorVar2<T>, b: VectorVar2<T>) -> VectorX<T> { unk::vecfn(407, 2, &[a[0], a[1], b[0], b[1]]) }
}
macro_rules! wide { ($($m:ident $R:ident $id:literal $d:literal $a:literal $b:literal $c:literal);* $(;)?) => {
    ures! { $($R Residual3 residual3 $id, $d, [V1 a $a, V2 b $b, V3 c $c];)* }
    $(pub mod $m {
        use super::*;
        type VA = VectorVar<$a>;
        type VB = VectorVar<$b>;
        type VC = VectorVar<$c>;
        assign_symbols!(P: VA; Q: VB; R: VC);
        pub fn all(w: W, p: [f64; $d]) -> (f64, L, Vec<((usize, usize), Vec<f64>)>) {
            let mut v = Values::new();
            v.insert(R(0), VectorVar::<$c>(Vector::<$c>::from_fn(|i, _| p[$a + $b + i])));
            v.insert(P(0), VectorVar::<$a>(Vector::<$a>::from_fn(|i, _| p[i])));
            v.insert(Q(0), VectorVar::<$b>(Vector::<$b>::from_fn(|i, _| p[$a + i])));
            let f = FactorBuilder::new3($R, P(0), Q(0), R(0)).noise(UNoise(w)).robust(URobust(41)).build();
            let l = f.linearize(&v);
            (f.error(&v), lin(&l), blocks(&l))
        }
        pub fn lerr(w: W, p: [f64; $d], d: [f64; $d]) -> f64 {
            let mut v = Values::new();
            v.insert(R(0), VectorVar::<$c>(Vector::<$c>::from_fn(|i, _| p[$a + $b + i])));
            v.insert(P(0), VectorVar::<$a>(Vector::<$a>::from_fn(|i, _| p[i])));
            v.insert(Q(0), VectorVar::<$b>(Vector::<$b>::from_fn(|i, _| p[$a + i])));
            let l = FactorBuilder::new3($R, P(0), Q(0), R(0)).noise(UNoise(w)).robust(URobust(41)).build().linearize(&v);
            let order = ValuesOrder::from_values(&v);
            let mut x = VectorX::zeros(order.dim());
            let (i, j, k) = (order.get(P(0)).unwrap().idx, order.get(Q(0)).unwrap().idx, order.get(R(0)).unwrap().idx);
            for n in 0..$a { x[i + n] = d[n]; }
            for n in 0..$b { x[j + n] = d[$a + n]; }
            for n in 0..$c { x[k + n] = d[$a + $b + n]; }
            l.error(&LinearValues::from_order_and_vector(order, x))
        }
    })*
}; }
wide! { w9 U9 409 14 3 9 2; w17 U17 417 25 17 7 1; w40 U40 440 52 8 40 4 }
pub fn same_key(w: W, p: [f64; 11]) -> O { obs(FactorBuilder::new2(UD, B(4), B(4)).noise(UNoise(w)).robust(URobust(41)).build(), &p) }
pub fn same_key_lerr(w: W, p: [f64; 11], d: [f64; 2]) -> f64 {
    let v = vals(&p);
    let f = FactorBuilder::new2(UD, B(4), B(4)).noise(UNoise(w)).robust(URobust(41)).build().linearize(&v);
    let order = ValuesOrder::from_values(&v);
    let mut x = VectorX::zeros(order.dim());
    let i = order.get(B(4)).unwrap().idx;
    x[i] = d[0];
    x[i + 1] = d[1];
    f.error(&LinearValues::from_order_and_vector(order, x))
}
/// a graph of three factors: error, and the linear graph's error at a step, per factor and in total
pub fn graph3(w: &W) -> Graph {
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new2(U2, A(7), B(4)).noise(UNoise(*w)).build());
    g.add_factor(FactorBuilder::new1(U1, A(7)).robust(URobust(41)).build());
    g.add_factor(FactorBuilder::new2(UD, B(4), D(3)).robust(URobust(42)).build());
    g
}
pub fn graph_error(w: W, p: [f64; 11]) -> (f64, f64, f64, f64) {
    let v = vals(&p);
    let a = FactorBuilder::new2(U2, A(7), B(4)).noise(UNoise(w)).build().error(&v);
    let b = FactorBuilder::new1(U1, A(7)).robust(URobust(41)).build().error(&v);
    let c = FactorBuilder::new2(UD, B(4), D(3)).robust(URobust(42)).build().error(&v);
    (graph3(&w).error(&v), a, b, c)
}
pub fn graph_empty(p: [f64; 11]) -> (f64, usize, bool) { let g = Graph::new(); (g.error(&vals(&p)), g.len(), g.is_empty()) }
/// the linearized graph's error at a step, and the sum of its factors' errors
pub fn lgraph_error(w: W, p: [f64; 11], d: [f64; 11]) -> (f64, f64) {
    let v = vals(&p);
    let g = graph3(&w).linearize(&v);
    let order = ValuesOrder::from_values(&v);
    let mut x = VectorX::zeros(order.dim());
    for (k, o, n) in [(Key::from(A(7)), 0, 3), (B(4).into(), 3, 2), (D(3).into(), 6, 2)] {
        let i = order.get(k).unwrap().idx;
        for j in 0..n { x[i + j] = d[o + j]; }
    }
    let y = LinearValues::from_order_and_vector(order, x);
    let a = FactorBuilder::new2(U2, A(7), B(4)).noise(UNoise(w)).build().linearize(&v).error(&y);
    let b = FactorBuilder::new1(U1, A(7)).robust(URobust(41)).build().linearize(&v).error(&y);
    let c = FactorBuilder::new2(UD, B(4), D(3)).robust(URobust(42)).build().linearize(&v).error(&y);
    (g.error(&y), a + b + c)
}

/// a linear factor of any height over blocks of any widths: dimension, shapes, blocks, error at a step (entry i is t i of the stacked parts)
pub fn block_factor(rows: usize, widths: Vec<usize>, a: [f64; 4], t: f64) -> (usize, Vec<((usize, usize), Vec<f64>)>, Vec<Vec<f64>>, f64) {
    let (mut idx, mut keys, mut n) = (Vec::new(), Vec::new(), 0);
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    for (i, w) in widths.iter().enumerate() {
        idx.push(n);
        keys.push(Key(100 - i as u64));
        m.insert(Key(100 - i as u64), Idx { idx: n, dim: *w });
        n += *w;
    }
    let l = LinearFactor::new(keys, MatrixBlock::new(MatrixX::from_fn(rows, n, |i, j| a[0] * (i + 1) as f64 + a[1] * (j * j + 1) as f64), idx), VectorX::from_fn(rows, |i, _| a[2] * (i + 1) as f64 + a[3]));
    let x = VectorX::from_fn(n, |i, _| t * (i + 1) as f64);
    let p = (0..widths.len()).map(|i| { let v = VectorX::from_fn(widths[i], |j, _| t * (j + 1) as f64); l.a.mul(i, v.as_view()).iter().cloned().collect() }).collect();
    (l.dim_out(), blocks(&l), p, l.error(&LinearValues::from_order_and_vector(ValuesOrder::new(m), x)))
}
/// residual with as many rows as wanted
#[derive(Clone, Debug)]
pub struct Tall<const R: usize>;
impl<const R: usize> fmt::Display for Tall<R> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("u") } }
macro_rules! talls { ($($f:ident $r:literal $id:literal),*) => {$(
    #[factrs::mark]
    impl Residual1 for Tall<$r> {
        type Differ = ForwardProp<Const<2>>;
        type V1 = VectorVar2;
        type DimIn = Const<2>;
        type DimOut = Const<$r>;
        fn residual1<T: Numeric>(&self, a: VectorVar2<T>) -> VectorX<T> { unk::vecfn($id, $r, &[a[0], a[1]]) }
    }
    pub fn $f(p: [f64; 11]) -> (O, f64) {
        let mut g = Graph::new();
        g.add_factor(FactorBuilder::new1(Tall::<$r>, B(4)).robust(URobust(41)).build());
        (obs(FactorBuilder::new1(Tall::<$r>, B(4)).robust(URobust(41)).build(), &p), g.error(&vals(&p)))
    }
)*}; }
talls! { tall9 9 461, tall20 20 462, tall33 33 463 }
/// residual k x
#[derive(Clone, Debug)]
pub struct Lin(pub f64);
disp!(Lin);
#[factrs::mark]
impl Residual1 for Lin {
    type Differ = ForwardProp<Const<1>>;
    type V1 = VectorVar1;
    type DimIn = Const<1>;
    type DimOut = Const<1>;
    fn residual1<T: Numeric>(&self, x: VectorVar1<T>) -> VectorX<T> { VectorX::from_fn(1, |_, _| x[0] * T::from(self.0)) }
}
/// a graph in which factor i is infinite or not a number
pub fn graph_special(n: usize, at: usize, nan: bool, k: f64) -> (f64, bool, bool) {
    let mut g = Graph::new();
    let mut v = Values::new();
    for i in 0..n {
        g.add_factor(FactorBuilder::new1(Lin(k), C(i as u64)).build());
        v.insert(C(i as u64), VectorVar1::new(if i != at { 2.0 } else if nan { f64::NAN } else { f64::INFINITY }));
    }
    let e = g.error(&v);
    (e, e.is_infinite(), e.is_nan())
}
