//! Optimizers: the stopping loop over an uninterpreted step and error; Gauss-Newton and Levenberg-Marquardt steps.


use crate::unk;
use factrs::{assign_symbols, containers::*, linalg::*, linear::*, optimizers::*, residuals::*, traits::*, variables::*};
use faer::sparse::SparseColMatRef;
use faer::{Mat, MatRef};
use std::cell::Cell;
use std::rc::Rc;

// ---------------------------------------------------------------- the loop
/// `h` summarises, as one term, every call made and its arguments; `bad[k]` makes the error after k steps NaN (1) or infinite (2)
pub struct UOpt { pub params: OptParams, pub h: f64, pub ready: f64, pub bad: [u8; 5] }
impl Optimizer for UOpt {
    type Input = (f64, usize);
    fn params(&self) -> &OptParams { &self.params }
    fn error(&self, v: &(f64, usize)) -> f64 { match self.bad[v.1] { 1 => f64::NAN, 2 => f64::INFINITY, _ => unk::pos(503, &[v.0, self.ready]) } }
    fn init(&mut self, v: &(f64, usize)) { self.ready = unk::scal(505, &[v.0, self.ready]); }
    fn step(&mut self, w: (f64, usize), idx: usize) -> OptResult<(f64, usize)> {
        let v = w.0;
        self.h = unk::scal(504, &[self.h, v, idx as f64]);
        if unk::cond(501, &[v, idx as f64]) { Ok((unk::scal(502, &[v, idx as f64]), w.1 + 1)) }
        else if unk::cond(506, &[v, idx as f64]) { Err(OptError::InvalidSystem) }
        else { Err(OptError::FailedToStep) }
    }
}
pub type Out = (usize, f64, f64, f64);
fn out(r: OptResult<(f64, usize)>, o: &UOpt) -> Out {
    let (t, v) = match r { Ok(v) => (0, v.0), Err(OptError::MaxIterations(v)) => (1, v.0), Err(OptError::InvalidSystem) => (2, 0.0), Err(OptError::FailedToStep) => (3, 0.0) };
    (t, v, o.h, o.ready)
}
fn uopt(n: usize, t: &[f64; 3], bad: [u8; 5]) -> UOpt {
    UOpt { params: OptParams { max_iterations: n, error_tol: t[0], error_tol_absolute: t[1], error_tol_relative: t[2] }, h: 0.0, ready: 0.0, bad }
}
/// the documented contract
fn contract(o: &mut UOpt, x: f64) -> OptResult<(f64, usize)> {
    let mut x = (x, 0);
    o.init(&x);
    let mut e = o.error(&x);
    if e <= o.params.error_tol { return Ok(x); }
    let mut k = 0;
    while k < o.params.max_iterations {
        k += 1;
        let y = o.step(x, k)?;
        let f = o.error(&y);
        if f <= o.params.error_tol || e - f <= o.params.error_tol_absolute || (e - f) / e <= o.params.error_tol_relative { return Ok(y); }
        x = y;
        e = f;
    }
    Err(OptError::MaxIterations(x))
}
macro_rules! loops { ($($m:ident $n:literal $bad:expr),*) => {$(pub mod $m { use super::*;
    pub fn run(x: f64, t: [f64; 3]) -> Out { let mut o = uopt($n, &t, $bad); let r = o.optimize((x, 0)); out(r, &o) }
    pub fn want(x: f64, t: [f64; 3]) -> Out { let mut o = uopt($n, &t, $bad); let r = contract(&mut o, x); out(r, &o) }
})*}; }
loops!(n0 0 [0; 5], n1 1 [0; 5], n2 2 [0; 5], n3 3 [0; 5], n4 4 [0; 5],
    nan0 1 [1, 0, 0, 0, 0], nan1 1 [0, 1, 0, 0, 0], nan2 3 [0, 1, 0, 0, 0], nan3 3 [0, 0, 1, 0, 0], nan4 2 [1, 1, 1, 1, 1], inf0 2 [2, 0, 0, 0, 0], inf1 2 [0, 2, 0, 0, 0], inf2 3 [0, 2, 2, 0, 0]);
/// n iterations
pub fn sized_run(n: usize, x: f64, t: [f64; 3]) -> Out { let mut o = uopt(n, &t, [0; 5]); let r = o.optimize((x, 0)); out(r, &o) }
pub fn sized_want(n: usize, x: f64, t: [f64; 3]) -> Out { let mut o = uopt(n, &t, [0; 5]); let r = contract(&mut o, x); out(r, &o) }
/// errors that fall by one at every step but reach no tolerance, and steps that succeed, except that at step `stop` the error stands still
/// (seen by the absolute tolerance alone, mode 0, or the relative one alone, mode 1) or falls below the tolerance (mode 2)
pub struct Calm { pub params: OptParams, pub h: f64, pub stop: usize, pub mode: usize, pub calls: usize }
impl Optimizer for Calm {
    type Input = (f64, usize);
    fn params(&self) -> &OptParams { &self.params }
    fn error(&self, v: &(f64, usize)) -> f64 { if v.1 < self.stop { (100000 - v.1) as f64 } else if self.mode == 2 { 0.125 } else { (100001 - v.1) as f64 } }
    fn step(&mut self, w: (f64, usize), idx: usize) -> OptResult<(f64, usize)> {
        self.calls += 1;
        self.h = unk::scal(504, &[w.0, idx as f64]);
        Ok((self.h, w.1 + 1))
    }
}
pub fn calm_run(n: usize, stop: usize, mode: usize, x: f64) -> (usize, f64, usize, usize) {
    let t = match mode { 0 => [-1.0, 0.5, -1.0], 1 => [-1.0, -1.0, 0.0000001], _ => [0.25, -1.0, -1.0] };
    let mut o = Calm { params: OptParams { max_iterations: n, error_tol: t[0], error_tol_absolute: t[1], error_tol_relative: t[2] }, h: 0.0, stop, mode, calls: 0 };
    match o.optimize((x, 0)) { Ok(v) => (0, v.0, v.1, o.calls), Err(OptError::MaxIterations(v)) => (1, v.0, v.1, o.calls), Err(_) => (2, 0.0, 0, o.calls) }
}
pub fn calm_want(n: usize, stop: usize, x: f64) -> (usize, f64, usize, usize) {
    let mut x = x;
    let m = if stop <= n { stop } else { n };
    for i in 0..m { x = unk::scal(504, &[x, (i + 1) as f64]); }
    (if stop <= n { 0 } else { 1 }, x, m, m)
}
/// given errors after 0, 1, 2, 3 steps
pub struct Script { pub params: OptParams, pub e: [f64; 4], pub calls: usize }
impl Optimizer for Script {
    type Input = usize;
    fn params(&self) -> &OptParams { &self.params }
    fn error(&self, v: &usize) -> f64 { self.e[*v] }
    fn step(&mut self, w: usize, _: usize) -> OptResult<usize> { self.calls += 1; Ok(w + 1) }
}
pub fn script_run(e: [f64; 4], t: [f64; 3]) -> (usize, usize, usize) {
    let mut o = Script { params: OptParams { max_iterations: 3, error_tol: t[0], error_tol_absolute: t[1], error_tol_relative: t[2] }, e, calls: 0 };
    match o.optimize(0) { Ok(v) => (0, v, o.calls), Err(OptError::MaxIterations(v)) => (1, v, o.calls), Err(_) => (2, 0, o.calls) }
}
pub fn default_params() -> (usize, f64, f64, f64) { let p = OptParams::default(); (p.max_iterations, p.error_tol_relative, p.error_tol_absolute, p.error_tol) }

// ---------------------------------------------------------------- the steps
macro_rules! sres { ($($R:ident $Tr:ident $f:ident $id:literal, $din:literal, $dout:literal, [$($V:ident $v:ident $n:literal),*]);* $(;)?) => {$(
    #[derive(Clone, Debug)]
    pub struct $R;
    impl std::fmt::Display for $R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("u") } }
    #[factrs::mark]
    impl $Tr for $R {
        type Differ = ForwardProp<Const<$din>>;
        $(type $V = VectorVar<$n>;)*
        type DimIn = Const<$din>;
        type DimOut = Const<$dout>;
        fn $f<T: Numeric>(&self, $($v: VectorVar<$n, T>),*) -> VectorX<T> {
            let mut xs: Vec<T> = Vec::new();
            $(for i in 0..$n { xs.push($v[i]); })*
            unk::vecfn($id, $dout, &xs)
        }
    }
)*}; }
sres! {
    S2 Residual2 residual2 551, 2, 2, [V1 a 1, V2 b 1];
    S1 Residual1 residual1 552, 1, 1, [V1 a 1];
    T2 Residual2 residual2 553, 3, 2, [V1 a 2, V2 b 1];
    T1 Residual1 residual1 554, 2, 1, [V1 a 2];
}
assign_symbols!(P: VectorVar1; Q: VectorVar2);
/// records, as one term, every notification
pub struct Obs { pub h: Rc<Cell<f64>>, pub id: usize }
impl OptObserver for Obs {
    type Input = Values;
    fn on_step(&self, v: &Values, time: f64) { let t = seen(v); self.h.set(unk::scal(self.id, &[self.h.get(), t[0], t[1], t[2], time])); }
}
/// P(0), P(1) or Q(0), P(1)
fn seen(v: &Values) -> [f64; 3] {
    let mut o = [0.0; 3];
    if let Some(a) = v.get(Q(0)) { o[0] = a[0]; o[1] = a[1]; }
    if let Some(a) = v.get(P(0)) { o[0] = a[0]; }
    if let Some(a) = v.get(P(1)) { o[2] = a[0]; }
    o
}
pub type SOut = (usize, [f64; 3], f64, f64, usize);
fn sout(r: OptResult<Values>, a: f64, b: f64) -> SOut {
    match r { Ok(v) => (0, seen(&v), a, b, v.len()), Err(OptError::MaxIterations(v)) => (1, seen(&v), a, b, v.len()), Err(OptError::InvalidSystem) => (2, [0.0; 3], a, b, 0), Err(OptError::FailedToStep) => (3, [0.0; 3], a, b, 0) }
}
/// two scalars, three rows
fn g2() -> Graph {
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new2(S2, P(0), P(1)).build());
    g.add_factor(FactorBuilder::new1(S1, P(1)).build());
    g
}
fn v2(x: f64, y: f64) -> Values { let mut v = Values::new(); v.insert(P(0), VectorVar1::new(x)); v.insert(P(1), VectorVar1::new(y)); v }
fn v2r(x: f64, y: f64) -> Values { let mut v = Values::new(); v.insert(P(1), VectorVar1::new(y)); v.insert(P(0), VectorVar1::new(x)); v }
macro_rules! gn { ($($m:ident $S:ty),*) => {$(pub mod $m { use super::*;
    pub fn step(x: f64, y: f64) -> SOut {
        let (a, b) = (Rc::new(Cell::new(0.0)), Rc::new(Cell::new(0.0)));
        let mut o: GaussNewton<$S> = GaussNewton::new(g2());
        o.observers.add(Obs { h: a.clone(), id: 561 });
        o.observers.add(Obs { h: b.clone(), id: 562 });
        let v = v2(x, y);
        o.init(&v);
        let r = o.step(v, 7);
        sout(r, a.get(), b.get())
    }
    /// the step is taken where the values are, not where init saw them
    pub fn later(x: f64, y: f64, x0: f64, y0: f64) -> SOut {
        let mut o: GaussNewton<$S> = GaussNewton::new(g2());
        o.init(&v2(x0, y0));
        let r = o.step(v2r(x, y), 1);
        sout(r, 0.0, 0.0)
    }
})*}; }
gn!(gn_chol CholeskySolver, gn_qr QRSolver, gn_lu LUSolver);
pub fn gn_error(x: f64, y: f64) -> (f64, f64, usize) { let v = v2(x, y); let o: GaussNewton = GaussNewton::new(g2()); (o.error(&v), g2().error(&v), o.graph().len()) }
pub fn lm_error(x: f64, y: f64) -> (f64, f64, usize) { let v = v2(x, y); let o: LevenMarquardt = LevenMarquardt::new(g2()); (o.error(&v), g2().error(&v), o.graph().len()) }

// ---------------------------------------------------------------- Levenberg-Marquardt
pub struct LP { pub lambda_min: f64, pub lambda_max: f64, pub lambda_factor: f64, pub diagonal_damping: bool }
/// the solution of a system is an uninterpreted function of the system
#[derive(Default)]
pub struct USolver;
fn entries(a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Vec<f64> {
    let m = a.to_dense();
    let mut e = Vec::new();
    for i in 0..m.nrows() { for j in 0..m.ncols() { e.push(m.read(i, j)); } }
    for i in 0..b.nrows() { e.push(b.read(i, 0)); }
    e
}
impl LinearSolver for USolver {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let m = unk::mat(511, a.ncols(), 1, &entries(a, b));
        Mat::from_fn(a.ncols(), 1, |i, _| m[(i, 0)])
    }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let m = unk::mat(512, a.ncols(), 1, &entries(a, b));
        Mat::from_fn(a.ncols(), 1, |i, _| m[(i, 0)])
    }
}
/// hands back the diagonal of the system it is given
#[derive(Default)]
pub struct Probe;
impl LinearSolver for Probe {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, _: MatRef<f64>) -> Mat<f64> { let m = a.to_dense(); Mat::from_fn(a.ncols(), 1, |i, _| m.read(i, i)) }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> { loop {} }
}
fn ft2() -> Factor { FactorBuilder::new2(T2, Q(0), P(1)).build() }
fn ft1() -> Factor { FactorBuilder::new1(T1, Q(0)).build() }
fn g3() -> Graph { let mut g = Graph::new(); g.add_factor(ft2()); g.add_factor(ft1()); g }
fn v3(x: &[f64; 3]) -> Values { let mut v = Values::new(); v.insert(Q(0), VectorVar2::new(x[0], x[1])); v.insert(P(1), VectorVar1::new(x[2])); v }
fn v3r(x: &[f64; 3]) -> Values { let mut v = Values::new(); v.insert(P(1), VectorVar1::new(x[2])); v.insert(Q(0), VectorVar2::new(x[0], x[1])); v }
fn leven<S: LinearSolver>(g: Graph, l: &LP) -> LevenMarquardt<S> {
    let mut o: LevenMarquardt<S> = LevenMarquardt::new(g);
    o.params_leven.lambda_min = l.lambda_min;
    o.params_leven.lambda_max = l.lambda_max;
    o.params_leven.lambda_factor = l.lambda_factor;
    o.params_leven.diagonal_damping = l.diagonal_damping;
    o
}
/// one step of the documented method from damping `lam`, columns of Q(0) first or last
fn lm_ref(x: &[f64; 3], lam: &mut f64, l: &LP, first: bool) -> Option<[f64; 3]> {
    let v = v3(x);
    let (f, g) = (ft2().linearize(&v), ft1().linearize(&v));
    let at = if first { [0, 1, 2] } else { [1, 2, 0] };
    let mut j = [[0.0; 3]; 3];
    let (f0, f1, g0) = (f.a.get_block(0), f.a.get_block(1), g.a.get_block(0));
    for r in 0..2 { for c in 0..2 { j[r][at[c]] = f0[(r, c)]; } j[r][at[2]] = f1[(r, 0)]; }
    for c in 0..2 { j[2][at[c]] = g0[(0, c)]; }
    let rhs = [f.b[0], f.b[1], g.b[0]];
    let mut jtj = [[0.0; 3]; 3];
    let mut jtr = [0.0; 3];
    for p in 0..3 { for q in 0..3 { for r in 0..3 { jtj[p][q] += j[r][p] * j[r][q]; } } for r in 0..3 { jtr[p] += j[r][p] * rhs[r]; } }
    let lin = |d: &[f64; 3]| {
        let mut e = 0.0;
        for r in 0..3 { let mut t = -rhs[r]; for c in 0..3 { t += j[r][c] * d[c]; } e += t * t; }
        e / 2.0
    };
    let old = lin(&[0.0; 3]);
    loop {
        let mut xs = Vec::new();
        for p in 0..3 { for q in 0..3 {
            let damp = if p == q { if l.diagonal_damping { jtj[p][p] } else { 1.0 } } else { 0.0 };
            xs.push(jtj[p][q] + *lam * damp);
        } }
        for p in 0..3 { xs.push(jtr[p]); }
        let m = unk::mat(511, 3, 1, &xs);
        let d = [m[(0, 0)], m[(1, 0)], m[(2, 0)]];
        if lin(&d) < old {
            *lam = *lam / l.lambda_factor;
            if *lam < l.lambda_min { *lam = l.lambda_min; }
            return Some([x[0] + d[at[0]], x[1] + d[at[1]], x[2] + d[at[2]]]);
        }
        *lam *= l.lambda_factor;
        if *lam > l.lambda_max { return None; }
    }
}
pub type LOut = (usize, [f64; 3], f64, f64);
fn lout(r: OptResult<Values>, a: f64, b: f64) -> LOut {
    match r { Ok(v) => (0, seen(&v), a, b), Err(OptError::MaxIterations(v)) => (1, seen(&v), a, b), Err(OptError::InvalidSystem) => (2, [0.0; 3], a, b), Err(OptError::FailedToStep) => (3, [0.0; 3], a, b) }
}
fn lm_run(x: &[f64; 3], l: &LP, steps: usize) -> LOut {
    let (a, b) = (Rc::new(Cell::new(0.0)), Rc::new(Cell::new(0.0)));
    let mut o: LevenMarquardt<USolver> = leven(g3(), l);
    o.observers.add(Obs { h: a.clone(), id: 561 });
    o.observers.add(Obs { h: b.clone(), id: 562 });
    let mut v = v3(x);
    o.init(&v);
    let mut k = 0;
    while k < steps {
        k += 1;
        match o.step(v, k + 4) { Ok(w) => v = w, e => return lout(e, a.get(), b.get()) }
    }
    lout(Ok(v), a.get(), b.get())
}
fn lm_want(x: &[f64; 3], l: &LP, steps: usize, lam: f64, first: bool) -> LOut {
    let mut h = [0.0, 0.0];
    let mut x = *x;
    let mut lam = lam;
    let mut k = 0;
    while k < steps {
        k += 1;
        match lm_ref(&x, &mut lam, l, first) {
            Some(y) => { x = y; let t = (k + 4) as f64; h = [unk::scal(561, &[h[0], x[0], x[1], x[2], t]), unk::scal(562, &[h[1], x[0], x[1], x[2], t])]; }
            None => return (3, [0.0; 3], h[0], h[1]),
        }
    }
    (0, x, h[0], h[1])
}
pub fn lm_probe(x: [f64; 3]) -> [f64; 3] {
    let l = LP { lambda_min: 0.0, lambda_max: 0.0, lambda_factor: 10.0, diagonal_damping: false };
    let mut o: LevenMarquardt<Probe> = leven(g3(), &l);
    let v = v3(&x);
    o.init(&v);
    match o.step(v, 1) { Ok(v) => { let t = seen(&v); [t[0] - x[0], t[1] - x[1], t[2] - x[2]] } _ => [0.0; 3] }
}
macro_rules! lms { ($($m:ident $min:expr, $max:expr, $fac:expr, $diag:expr, $steps:literal);* $(;)?) => {$(pub mod $m { use super::*;
    fn par() -> LP { LP { lambda_min: $min, lambda_max: $max, lambda_factor: $fac, diagonal_damping: $diag } }
    pub fn run(x: [f64; 3]) -> LOut { lm_run(&x, &par(), $steps) }
    pub fn want(x: [f64; 3], lam: f64) -> LOut { lm_want(&x, &par(), $steps, lam, true) }
    pub fn want2(x: [f64; 3], lam: f64) -> LOut { lm_want(&x, &par(), $steps, lam, false) }
})*}; }
lms! {
    once_diag 0.0, 5e-4, 10.0, true, 1;
    once_ident 0.0, 5e-4, 10.0, false, 1;
    edge 0.0, 1e-3, 10.0, true, 1;
    many 0.0, 1e-2, 7.0, false, 1;
    twice 0.0, 2e-5, 10.0, true, 2;
    floor 4e-6, 2e-5, 10.0, false, 2;
    above 1e-4, 5e-4, 10.0, true, 2;
    other 2e-7, 3e-5, 4.0, false, 2;
}
/// a solver that fails: its solution is not a number, for the first two systems or for ever
#[derive(Default)]
pub struct NSolver { n: usize }
impl LinearSolver for NSolver {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        self.n += 1;
        if self.n <= 2 { return Mat::from_fn(a.ncols(), 1, |_, _| f64::NAN); }
        let m = unk::mat(511, a.ncols(), 1, &entries(a, b));
        Mat::from_fn(a.ncols(), 1, |i, _| m[(i, 0)])
    }
    fn solve_lst_sq(&mut self, _: SparseColMatRef<usize, f64>, _: MatRef<f64>) -> Mat<f64> { loop {} }
}
/// at most two systems can be tried: both solutions are NaN
pub fn lm_nan(x: [f64; 3]) -> LOut {
    let l = LP { lambda_min: 0.0, lambda_max: 5e-4, lambda_factor: 10.0, diagonal_damping: true };
    let (a, b) = (Rc::new(Cell::new(0.0)), Rc::new(Cell::new(0.0)));
    let mut o: LevenMarquardt<NSolver> = leven(g3(), &l);
    o.params_leven.lambda_max = 1e-4;
    o.observers.add(Obs { h: a.clone(), id: 561 });
    o.observers.add(Obs { h: b.clone(), id: 562 });
    let v = v3(&x);
    o.init(&v);
    lout(o.step(v, 5), a.get(), b.get())
}
pub fn leven_defaults() -> (f64, f64, f64, usize) { let o: LevenMarquardt = LevenMarquardt::new(Graph::new()); let p = o.params_leven; (p.lambda_min, p.lambda_max, p.lambda_factor, p.diagonal_damping as usize) }
/// the step is taken where the values are, not where init saw them
pub fn lm_later(x: [f64; 3], y: [f64; 3]) -> LOut {
    let l = LP { lambda_min: 0.0, lambda_max: 5e-5, lambda_factor: 10.0, diagonal_damping: true };
    let mut o: LevenMarquardt<USolver> = leven(g3(), &l);
    o.init(&v3(&y));
    lout(o.step(v3r(&x), 1), 0.0, 0.0)
}
pub fn lm_later_want(x: [f64; 3], lam: f64) -> LOut { let l = LP { lambda_min: 0.0, lambda_max: 5e-5, lambda_factor: 10.0, diagonal_damping: true }; let mut m = lam; match lm_ref(&x, &mut m, &l, true) { Some(x) => (0, x, 0.0, 0.0), None => (3, [0.0; 3], 0.0, 0.0) } }
pub fn lm_later_want2(x: [f64; 3], lam: f64) -> LOut { let l = LP { lambda_min: 0.0, lambda_max: 5e-5, lambda_factor: 10.0, diagonal_damping: true }; let mut m = lam; match lm_ref(&x, &mut m, &l, false) { Some(x) => (0, x, 0.0, 0.0), None => (3, [0.0; 3], 0.0, 0.0) } }

// ---------------------------------------------------------------- sizes
/// residual c x
#[derive(Clone, Debug)]
pub struct Lin1(pub f64);
impl std::fmt::Display for Lin1 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("u") } }
#[factrs::mark]
impl Residual1 for Lin1 {
    type Differ = ForwardProp<Const<1>>;
    type V1 = VectorVar1;
    type DimIn = Const<1>;
    type DimOut = Const<1>;
    fn residual1<T: Numeric>(&self, x: VectorVar1<T>) -> VectorX<T> { VectorX::from_fn(1, |_, _| x[0] * T::from(self.0)) }
}
/// a system with a diagonal matrix
#[derive(Default)]
pub struct DSolver;
impl LinearSolver for DSolver {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let m = a.to_dense();
        Mat::from_fn(a.ncols(), 1, |i, _| b.read(i, 0) / m.read(i, i))
    }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let m = a.to_dense();
        Mat::from_fn(a.ncols(), 1, |j, _| {
            let mut q = (0.0, 0.0);
            for i in 0..m.nrows() { let e = m.read(i, j); q = (q.0 + e * e, q.1 + e * b.read(i, 0)); }
            q.1 / q.0
        })
    }
}
fn sized_graph(n: usize) -> Graph { let mut g = Graph::new(); for i in 0..n { g.add_factor(FactorBuilder::new1(Lin1((i + 1) as f64), P(i as u64)).build()); } g }
fn sized_values(n: usize, s: f64) -> Values { let mut v = Values::new(); for i in 0..n { v.insert(P(i as u64), VectorVar1::new(s * (n - i) as f64)); } v }
fn sized_seen(n: usize, v: &Values) -> Vec<f64> { (0..n).map(|i| v.get(P(i as u64)).unwrap()[0]).collect() }
pub type ZOut = (usize, Vec<f64>, usize, f64);
fn zout(n: usize, r: OptResult<Values>, h: f64) -> ZOut { match r { Ok(v) => (0, sized_seen(n, &v), v.len(), h), Err(OptError::MaxIterations(v)) => (1, sized_seen(n, &v), v.len(), h), Err(OptError::InvalidSystem) => (2, Vec::new(), 0, h), Err(OptError::FailedToStep) => (3, Vec::new(), 0, h) } }
/// counts notifications and remembers the last time
pub struct Count { pub h: Rc<Cell<f64>> }
impl OptObserver for Count {
    type Input = Values;
    fn on_step(&self, _: &Values, time: f64) { self.h.set(self.h.get() + time); }
}
/// n variables, n observers
pub fn sized_gn(n: usize, s: f64) -> ZOut {
    let h = Rc::new(Cell::new(0.0));
    let mut o: GaussNewton<DSolver> = GaussNewton::new(sized_graph(n));
    for _ in 0..n { o.observers.add(Count { h: h.clone() }); }
    let v = sized_values(n, s);
    o.init(&v);
    let r = o.step(v, n);
    zout(n, r, h.get())
}
pub fn sized_lm(n: usize, s: f64, diag: bool) -> ZOut {
    let h = Rc::new(Cell::new(0.0));
    let mut o: LevenMarquardt<DSolver> = LevenMarquardt::new(sized_graph(n));
    o.params_leven.diagonal_damping = diag;
    for _ in 0..n { o.observers.add(Count { h: h.clone() }); }
    let v = sized_values(n, s);
    o.init(&v);
    let r = o.step(v, n);
    zout(n, r, h.get())
}
/// n steps in a row, two variables
pub fn sized_steps(n: usize, s: f64, floor: f64, lm: bool) -> ZOut {
    let h = Rc::new(Cell::new(0.0));
    let mut v = sized_values(2, s);
    if lm {
        let mut o: LevenMarquardt<DSolver> = LevenMarquardt::new(sized_graph(2));
        o.params_leven.lambda_min = floor;
        o.params_leven.lambda_factor = 2.0;
        o.observers.add(Count { h: h.clone() });
        o.init(&v);
        let mut k = 0;
        while k < n { k += 1; match o.step(v, k) { Ok(w) => v = w, e => return zout(2, e, h.get()) } }
    } else {
        let mut o: GaussNewton<DSolver> = GaussNewton::new(sized_graph(2));
        o.observers.add(Count { h: h.clone() });
        o.init(&v);
        let mut k = 0;
        while k < n { k += 1; match o.step(v, k) { Ok(w) => v = w, e => return zout(2, e, h.get()) } }
    }
    zout(2, Ok(v), h.get())
}
/// rejects every system that is not damped enough
#[derive(Default)]
pub struct RSolver;
impl LinearSolver for RSolver {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let m = a.to_dense();
        let bad = m.read(0, 0) < 1000.0;
        Mat::from_fn(a.ncols(), 1, |i, _| if bad { f64::NAN } else { b.read(i, 0) / m.read(i, i) })
    }
    fn solve_lst_sq(&mut self, _: SparseColMatRef<usize, f64>, _: MatRef<f64>) -> Mat<f64> { loop {} }
}
/// two steps, with as many rejections as the factor asks for
pub fn sized_rejections(s: f64, factor: f64) -> ZOut {
    let h = Rc::new(Cell::new(0.0));
    let mut o: LevenMarquardt<RSolver> = LevenMarquardt::new(sized_graph(2));
    o.params_leven.diagonal_damping = false;
    o.params_leven.lambda_factor = factor;
    o.observers.add(Count { h: h.clone() });
    let v = sized_values(2, s);
    o.init(&v);
    let v = match o.step(v, 1) { Ok(v) => v, e => return zout(2, e, h.get()) };
    let r = o.step(v, 2);
    zout(2, r, h.get())
}

/// rejects the systems whose number is set in the mask
#[derive(Default)]
pub struct MSolver<const M: u64> { n: u32 }
impl<const M: u64> LinearSolver for MSolver<M> {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let m = a.to_dense();
        let bad = (M >> self.n) & 1 == 1;
        self.n += 1;
        Mat::from_fn(a.ncols(), 1, |i, _| if bad { f64::NAN } else { b.read(i, 0) / m.read(i, i) })
    }
    fn solve_lst_sq(&mut self, _: SparseColMatRef<usize, f64>, _: MatRef<f64>) -> Mat<f64> { loop {} }
}
/// up to n steps with the rejections of a mask
fn masked<const M: u64>(n: usize, s: f64, min: f64, max: f64, factor: f64, diag: bool) -> ZOut {
    let h = Rc::new(Cell::new(0.0));
    let mut o: LevenMarquardt<MSolver<M>> = LevenMarquardt::new(sized_graph(2));
    let p = &mut o.params_leven;
    p.lambda_min = min;
    p.lambda_max = max;
    p.lambda_factor = factor;
    p.diagonal_damping = diag;
    o.observers.add(Count { h: h.clone() });
    let mut v = sized_values(2, s);
    o.init(&v);
    let mut k = 0;
    while k < n { k += 1; match o.step(v, k) { Ok(w) => v = w, e => return zout(2, e, h.get()) } }
    zout(2, Ok(v), h.get())
}
macro_rules! masks { ($($f:ident $m:literal),*) => {$(pub fn $f(n: usize, s: f64, min: f64, max: f64, factor: f64, diag: bool) -> ZOut { masked::<$m>(n, s, min, max, factor, diag) })*}; }
masks! { mask_a 0x300, mask_b 0x10, mask_c 0x5554, mask_d 0x70e2, mask_e 0xf8, mask_f 0x1 }

// ---------------------------------------------------------------- cached analyses (C14): a second run on values in another order
fn chain() -> Graph {
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new2(T2, Q(0), P(1)).build());
    g.add_factor(FactorBuilder::new2(S2, P(1), P(2)).build());
    g.add_factor(FactorBuilder::new1(T1, Q(0)).build());
    g.add_factor(FactorBuilder::new1(S1, P(2)).build());
    g
}
macro_rules! again { ($($m:ident $O:ident $S:ty, $o:ident $set:expr);* $(;)?) => {$(pub mod $m { use super::*;
    pub fn run(x: [f64; 4], y: [f64; 4]) -> [f64; 3] {
        let mut $o: $O<$S> = $O::new(chain());
        $set;
        let mut v = Values::new();
        v.insert(Q(0), VectorVar2::new(x[0], x[1])); v.insert(P(1), VectorVar1::new(x[2])); v.insert(P(2), VectorVar1::new(x[3]));
        $o.init(&v);
        let _ = $o.step(v, 1);
        let mut w = Values::new();
        w.insert(P(1), VectorVar1::new(y[2])); w.insert(Q(0), VectorVar2::new(y[0], y[1])); w.insert(P(2), VectorVar1::new(y[3]));
        $o.init(&w);
        match $o.step(w, 1) { Ok(w) => seen(&w), _ => [0.0; 3] }
    }
})*}; }
again! {
    gn_chol_again GaussNewton CholeskySolver, o (); gn_qr_again GaussNewton QRSolver, o (); gn_lu_again GaussNewton LUSolver, o ();
    lm_chol_again LevenMarquardt CholeskySolver, o o.params_leven.lambda_max = 0.0; lm_qr_again LevenMarquardt QRSolver, o o.params_leven.lambda_max = 0.0;
    lm_lu_again LevenMarquardt LUSolver, o o.params_leven.lambda_max = 0.0;
}
