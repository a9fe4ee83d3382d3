//! Values, ValuesOrder, LinearValues and Graph as containers.
use crate::vars::UVar;
use factrs::{assign_symbols, containers::*, linalg::*, linear::*, residuals::*, traits::*, variables::*};
assign_symbols!(X: VectorVar2, UVar; Y: VectorVar3; Z: VectorVar1);
type V2 = VectorVar2;
type V3 = VectorVar3;
pub type S = Option<Vec<f64>>;
pub fn v2(x: Option<&V2>) -> S { x.map(|v| vec![v[0], v[1]]) }
pub fn v3(x: Option<&V3>) -> S { x.map(|v| vec![v[0], v[1], v[2]]) }
pub fn bx(x: &dyn VariableSafe) -> Vec<f64> {
    if let Some(v) = x.downcast_ref::<V2>() { return vec![v[0], v[1]]; }
    if let Some(v) = x.downcast_ref::<V3>() { return vec![v[0], v[1], v[2]]; }
    if let Some(v) = x.downcast_ref::<VectorVar1>() { return vec![v[0]]; }
    vec![]
}
fn old(x: Option<Box<dyn VariableSafe>>) -> S { x.map(|b| bx(&*b)) }
fn c2(p: &[f64], i: usize) -> V2 { V2::new(p[i], p[i + 1]) }
fn c3(p: &[f64], i: usize) -> V3 { V3::new(p[i], p[i + 1], p[i + 2]) }
pub type P = [f64; 16];
/// everything observable through iteration
pub fn dump(x: &Values) -> Vec<(u64, usize, Vec<f64>)> { x.iter().map(|(k, v)| (k.0, v.dim(), bx(&**v))).collect() }
pub fn base(p: &P) -> Values {
    let mut x = Values::new();
    x.insert(X(0), c2(p, 0));
    x.insert(Y(0), c3(p, 2));
    x.insert(X(5), c2(p, 5));
    x
}
pub fn empty() -> (usize, bool, Vec<(u64, usize, Vec<f64>)>, S, usize, bool) {
    let x = Values::new();
    let y = Values::default();
    let r = (x.len(), x.is_empty(), dump(&x), v2(x.get(X(0))), y.len(), y.is_empty());
    r
}
pub fn inserted(p: P) -> (usize, bool, Vec<(u64, usize, Vec<f64>)>) { let x = base(&p); (x.len(), x.is_empty(), dump(&x)) }
pub fn insert_returns(p: P) -> (S, S, S, usize, Vec<(u64, usize, Vec<f64>)>) {
    let mut x = base(&p);
    let a = old(x.insert(X(0), c2(&p, 7)));
    let b = old(x.insert(X(1), c2(&p, 9)));
    let c = old(x.insert_unchecked(Y(0), c2(&p, 11)));
    (a, b, c, x.len(), dump(&x))
}
pub fn get(p: P) -> (S, S, S, S, S, S, bool) {
    let x = base(&p);
    (v2(x.get(X(0))), v2(x.get(X(5))), v2(x.get(X(1))), v3(x.get(Y(0))), v2(x.get_unchecked(X(5))), v3(x.get_unchecked::<_, V3>(X(5))), x.get_unchecked::<_, V2>(Y(0)).is_none())
}
pub fn get_mut(p: P) -> (bool, bool, bool, Vec<(u64, usize, Vec<f64>)>) {
    let mut x = base(&p);
    if let Some(v) = x.get_mut::<_, V2>(X(5)) { *v = c2(&p, 7); }
    if let Some(v) = x.get_unchecked_mut::<_, V3>(Y(0)) { *v = c3(&p, 9); }
    let a = x.get_unchecked_mut::<_, V3>(X(0)).is_none();
    let b = x.get_mut::<_, V2>(X(9)).is_none();
    let c = x.get_mut::<_, UVar>(X(0)).is_none();
    (a, b, c, dump(&x))
}
pub fn remove(p: P) -> (S, S, S, usize, bool, Vec<(u64, usize, Vec<f64>)>) {
    let mut x = base(&p);
    let a: Option<V2> = x.remove(X(5));
    let b: Option<V2> = x.remove(X(5));
    let c: Option<V3> = x.remove(Y(7));
    let g = x.get::<_, V2>(X(5)).is_none();
    (v2(a.as_ref()), v2(b.as_ref()), v3(c.as_ref()), x.len(), g, dump(&x))
}
pub fn remove_all(p: P) -> (usize, bool, S) {
    let mut x = base(&p);
    let a: Option<V2> = x.remove(X(0));
    let b: Option<V2> = x.remove(X(5));
    let c: Option<V3> = x.remove(Y(0));
    (x.len(), x.is_empty(), v3(c.as_ref()))
}
pub fn reinsert(p: P) -> (S, usize, Vec<(u64, usize, Vec<f64>)>) {
    let mut x = base(&p);
    let _: Option<V2> = x.remove(X(0));
    let r = old(x.insert(X(0), c2(&p, 7)));
    (r, x.len(), dump(&x))
}
pub fn filter(p: P) -> (Vec<Vec<f64>>, Vec<Vec<f64>>, usize) {
    let x = base(&p);
    (x.filter::<V2>().map(|v| vec![v[0], v[1]]).collect(), x.filter::<V3>().map(|v| vec![v[0], v[1], v[2]]).collect(), x.filter::<SO3>().count())
}
pub fn into_iter(p: P) -> Vec<(u64, usize, Vec<f64>)> { base(&p).into_iter().map(|(k, v)| (k.0, v.dim(), bx(&*v))).collect() }
pub fn clone(p: P) -> (Vec<(u64, usize, Vec<f64>)>, Vec<(u64, usize, Vec<f64>)>) {
    let x = base(&p);
    let mut y = x.clone();
    y.insert(X(0), c2(&p, 7));
    (dump(&x), dump(&y))
}
pub fn entry(p: P) -> (Vec<(u64, usize, Vec<f64>)>, bool) {
    let mut x = base(&p);
    x.entry(X(0)).or_insert_with(|| Box::new(c2(&p, 7)));
    x.entry(X(3)).or_insert_with(|| Box::new(c2(&p, 9)));
    (dump(&x), x.len() == 4)
}
/// many variables: nothing depends on small sizes
pub fn many(n: u64, p: P) -> (usize, Vec<(u64, usize, Vec<f64>)>, Vec<S>, bool) {
    let mut x = Values::new();
    for i in 0..n { x.insert(X(i * 3), V2::new(p[0] + i as f64, p[1])); }
    for i in 0..n { x.insert(Y(i * 2), V3::new(p[2], p[3], p[4] * i as f64)); }
    for i in 0..(n + 1) / 2 { let _: Option<V2> = x.remove(X(i * 6)); }
    (x.len(), dump(&x), (0..n).map(|i| v2(x.get(X(i * 3)))).collect(), x.get::<_, V2>(X(1)).is_none())
}
/// a history of operations (code, key, value)
pub fn history(ops: Vec<(u64, u64, u64)>, p: P) -> (Vec<S>, Vec<(u64, usize, Vec<f64>)>, usize, bool, usize) {
    let mut x = Values::new();
    let a = |i: u64| V2::new(p[0] * i as f64, p[1] + i as f64);
    let b = |i: u64| V3::new(p[2], p[3] * i as f64, p[4] + i as f64);
    let mut out: Vec<S> = Vec::new();
    for (c, k, i) in ops {
        let r = match c {
            0 => old(x.insert(X(k), a(i))),
            1 => old(x.insert(Y(k), b(i))),
            2 => v2(x.get(X(k))),
            3 => v3(x.get(Y(k))),
            4 => { let r: Option<V2> = x.remove(X(k)); v2(r.as_ref()) }
            5 => { let r: Option<V3> = x.remove(Y(k)); v3(r.as_ref()) }
            6 => x.get_mut::<_, V2>(X(k)).map(|v| { let o = vec![v[0], v[1]]; *v = a(i); o }),
            7 => x.get_unchecked_mut::<_, V3>(X(k)).map(|v| { let o = vec![v[0], v[1], v[2]]; *v = b(i); o }),
            8 => old(x.insert_unchecked(X(k), b(i))),
            9 => { let v = x.entry(X(k)).or_insert_with(|| Box::new(a(i))); Some(bx(&**v)) }
            10 => v3(x.get_unchecked(X(k))),
            11 => { x = x.clone(); None }
            _ => Some(vec![x.len() as f64, x.filter::<V2>().count() as f64]),
        };
        out.push(r);
    }
    (out, dump(&x), x.len(), x.is_empty(), x.filter::<V3>().count())
}
/// update by a step over the same keys
pub fn oplus(p: P, d: [f64; 7]) -> (Vec<(u64, usize, Vec<f64>)>, Vec<(u64, usize, usize)>) {
    let mut x = base(&p);
    let o = ValuesOrder::from_values(&x);
    let t = order(&o);
    x.oplus_mut(&LinearValues::from_order_and_vector(o, VectorX::from_fn(7, |i, _| d[i])));
    (dump(&x), t)
}
/// the same for n variables and a step over every variable but the first
pub fn oplus_many(n: u64, p: P) -> (Vec<(u64, usize, Vec<f64>)>, Vec<(u64, usize, usize)>, usize, usize) {
    let mut x = Values::new();
    let mut y = Values::new();
    for i in 0..n { x.insert(X(i * 3), V2::new(p[0] + i as f64, p[1])); if i > 0 { y.insert(X(i * 3), c2(&p, 3)); } }
    let o = ValuesOrder::from_values(&y);
    let t = order(&o);
    let d = o.dim();
    x.oplus_mut(&LinearValues::from_order_and_vector(o, VectorX::from_fn(d, |i, _| p[2] * i as f64)));
    (dump(&x), t, d, x.filter::<V2>().count())
}
/// variables of many widths, between others
macro_rules! wides { ($($f:ident $n:literal $k:literal);* $(;)?) => {
    /// values, order, dimension, values after a step that gives entry i the amount d i
    pub fn oplus_wide(a: f64, d: f64) -> (Vec<(u64, Vec<f64>)>, Vec<(u64, usize, usize)>, Vec<(u64, Vec<f64>)>, Vec<(u64, usize)>, usize) {
        let mut x = Values::new();
        $(x.insert_unchecked(Key($k), VectorVar::<$n>(Vector::<$n>::from_fn(|i, _| a * (i + $k) as f64)));)*
        let see = |x: &Values| vec![$(($k, x.get_unchecked::<_, VectorVar<$n>>(Key($k)).map_or(vec![], |v| v.0.iter().cloned().collect()))),*];
        let p = see(&x);
        let o = ValuesOrder::from_values(&x);
        let t = order(&o);
        let m = o.dim();
        x.oplus_mut(&LinearValues::from_order_and_vector(o, VectorX::from_fn(m, |i, _| d * (i + 1) as f64)));
        let n = x.len();
        (p, t, see(&x), x.iter().map(|(k, v)| (k.0, v.dim())).collect(), n)
    }
}; }
wides! { v0 0 5; v1 1 6; v3 3 12; v7 7 7; v8 8 8; v9 9 9; v10 10 10; v12 12 1; v16 16 2; v17 17 3; v33 33 4; v300 300 13 }
/// update by a step over some of the keys
pub fn oplus_sub(p: P, d: [f64; 5]) -> (Vec<(u64, usize, Vec<f64>)>, Vec<(u64, usize, usize)>) {
    let mut x = base(&p);
    let mut y = Values::new();
    y.insert(Y(0), c3(&p, 9));
    y.insert(X(5), c2(&p, 12));
    let o = ValuesOrder::from_values(&y);
    let t = order(&o);
    x.oplus_mut(&LinearValues::from_order_and_vector(o, VectorX::from_fn(5, |i, _| d[i])));
    (dump(&x), t)
}
/// a step whose part for a key has another length than the variable: refused
pub fn oplus_bad(p: P, d: [f64; 3]) -> usize {
    let mut x = base(&p);
    let mut y = Values::new();
    y.insert_unchecked(X(5), c3(&p, 9));
    x.oplus_mut(&LinearValues::from_values_and_vector(&y, VectorX::from_fn(3, |i, _| d[i])));
    x.len()
}
/// update of an uninterpreted variable: its own retraction
pub fn oplus_unk(a: [f64; 2], b: [f64; 2], d: [f64; 2]) -> ([f64; 2], [f64; 2], [f64; 2]) {
    use crate::vars::Co;
    let mut x = Values::new();
    x.insert(X(1), UVar::mk(a));
    x.insert(X(2), UVar::mk(b));
    let mut y = Values::new();
    y.insert(X(2), UVar::mk(a));
    x.oplus_mut(&LinearValues::from_values_and_vector(&y, VectorX::from_fn(2, |i, _| d[i])));
    let want = UVar::mk(b).oplus(VectorX::from_fn(2, |i, _| d[i]).as_view());
    let r = (x.get::<_, UVar>(X(1)).unwrap().obs(), x.get::<_, UVar>(X(2)).unwrap().obs(), want.obs());
    r
}

// ---------------------------------------------------------------- orders
pub fn order(o: &ValuesOrder) -> Vec<(u64, usize, usize)> { o.iter().map(|(k, i)| (k.0, i.idx, i.dim)).collect() }
pub fn wide(p: &P) -> Values {
    let mut x = base(p);
    x.insert(Z(2), VectorVar1::new(p[7]));
    x.insert_unchecked(Key(77), SE3::identity());
    x.insert_unchecked(Key(78), SO3::identity());
    x.insert_unchecked(Key(79), ImuBias::identity());
    x.insert_unchecked(Key(80), SO2::identity());
    x.insert_unchecked(Key(81), SE2::identity());
    x
}
type Ord = (Vec<(u64, usize, usize)>, usize, usize, bool, Vec<(u64, usize)>);
fn ord(x: &Values) -> Ord { let o = ValuesOrder::from_values(x); (order(&o), o.dim(), o.len(), o.is_empty(), x.iter().map(|(k, v)| (k.0, v.dim())).collect()) }
pub fn order_empty() -> Ord { ord(&Values::new()) }
pub fn order_base(p: P) -> Ord { ord(&base(&p)) }
pub fn order_wide(p: P) -> Ord { ord(&wide(&p)) }
/// a step over n variables, by iteration and by key
pub fn lv_many(n: u64, p: P) -> (usize, usize, Vec<(u64, Vec<f64>)>, Vec<Option<Vec<f64>>>, Vec<(u64, usize, usize)>, Vec<Option<(usize, usize)>>) {
    let mut x = Values::new();
    for i in 0..n { x.insert(X(i * 3), V2::new(p[0], p[1])); }
    x.insert(Y(1), c3(&p, 4));
    let o = ValuesOrder::from_values(&x);
    let d = o.dim();
    let l = LinearValues::from_order_and_vector(o.clone(), VectorX::from_fn(d, |i, _| p[2] * i as f64));
    (l.len(), l.dim(), l.iter().map(|(k, v)| (k.0, v.iter().cloned().collect())).collect(),
     (0..n).map(|i| l.get(X(i * 3)).map(|v| v.iter().cloned().collect::<Vec<f64>>())).collect(), order(&o),
     (0..n).map(|i| o.get(X(i * 3)).map(|i| (i.idx, i.dim))).collect())
}
/// blocks of any width, the extreme keys, a block of zeros
pub fn lv_wide(n: usize, p: P) -> (usize, usize, Vec<(u64, Vec<f64>)>, Vec<Option<Vec<f64>>>, bool) {
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    m.insert(Key(0), Idx { idx: 0, dim: n });
    m.insert(Key(u64::MAX), Idx { idx: n, dim: 1 });
    m.insert(Key(5), Idx { idx: n + 1, dim: n + 2 });
    let l = LinearValues::from_order_and_vector(ValuesOrder::new(m), VectorX::from_fn(2 * n + 3, |i, _| if i == n { 0.0 } else { p[2] * i as f64 + p[1] }));
    (l.len(), l.dim(), l.iter().map(|(k, v)| (k.0, v.iter().cloned().collect())).collect(),
     [0, u64::MAX, 5, 1].iter().map(|k| l.get(Key(*k)).map(|v| v.iter().cloned().collect::<Vec<f64>>())).collect(), l.is_empty())
}
/// the extreme keys
pub fn raw(p: P) -> (usize, Vec<(u64, usize, Vec<f64>)>, Vec<Vec<f64>>, Vec<S>, Vec<(u64, usize, usize)>, Vec<(u64, usize, Vec<f64>)>) {
    let mut x = Values::new();
    for (i, k) in [0u64, u64::MAX, 1 << 63, 1].iter().enumerate() { x.insert_unchecked(Key(*k), c2(&p, 2 * i)); }
    let f = x.filter::<V2>().map(|v| vec![v[0], v[1]]).collect();
    let g = [0u64, u64::MAX, 1 << 63, 1, 2].iter().map(|k| v2(x.get_unchecked(Key(*k)))).collect();
    let d = dump(&x);
    let o = ValuesOrder::from_values(&x);
    let t = order(&o);
    let n = x.len();
    x.oplus_mut(&LinearValues::from_order_and_vector(o, VectorX::from_fn(8, |i, _| p[8 + i])));
    (n, d, f, g, t, dump(&x))
}
pub fn order_many(n: u64, p: P) -> Ord {
    let mut x = Values::new();
    for i in 0..n { x.insert(X(i * 3), V2::new(p[0], p[1])); }
    for i in 0..n { x.insert(Y(i * 2), V3::new(p[2], p[3], p[4])); }
    ord(&x)
}
pub fn order_get(p: P) -> (Vec<Option<(usize, usize)>>, Vec<(u64, usize, usize)>) {
    let o = ValuesOrder::from_values(&wide(&p)).clone();
    let g = |k: Key| o.get(k).map(|i| (i.idx, i.dim));
    (vec![g(X(0).into()), g(Y(0).into()), g(X(5).into()), g(Z(2).into()), g(Key(77)), g(Key(78)), g(Key(79)), g(Key(80)), g(Key(81)), g(Key(1))], order(&o))
}
pub fn order_keys() -> Vec<u64> { vec![Key::from(X(0)).0, Key::from(Y(0)).0, Key::from(X(5)).0, Key::from(Z(2)).0, 77, 78, 79, 80, 81] }
/// order from an explicit map
pub fn order_new() -> (Vec<(u64, usize, usize)>, usize, usize) {
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    m.insert(Key(4), Idx { idx: 2, dim: 5 });
    m.insert(Key(9), Idx { idx: 0, dim: 2 });
    m.insert(Key(1), Idx { idx: 7, dim: 1 });
    let o = ValuesOrder::new(m);
    (order(&o), o.dim(), o.len())
}
type LV = (usize, usize, bool, Vec<(u64, Vec<f64>)>, Vec<Option<Vec<f64>>>, Vec<(u64, usize, usize)>);
fn lv(l: &LinearValues, o: &ValuesOrder) -> LV {
    let g = |k: Key| l.get(k).map(|v| v.iter().cloned().collect::<Vec<f64>>());
    (l.len(), l.dim(), l.is_empty(), l.iter().map(|(k, v)| (k.0, v.iter().cloned().collect())).collect(),
     vec![g(X(0).into()), g(Y(0).into()), g(X(5).into()), g(Key(1))], order(o))
}
pub fn lv_order(p: P, d: [f64; 7]) -> LV {
    let o = ValuesOrder::from_values(&base(&p));
    lv(&LinearValues::from_order_and_vector(o.clone(), VectorX::from_fn(7, |i, _| d[i])), &o)
}
pub fn lv_values(p: P, d: [f64; 7]) -> LV {
    let x = base(&p);
    lv(&LinearValues::from_values_and_vector(&x, VectorX::from_fn(7, |i, _| d[i])), &ValuesOrder::from_values(&x))
}
pub fn lv_zero_order(p: P) -> LV { let o = ValuesOrder::from_values(&base(&p)); lv(&LinearValues::zero_from_order(o.clone()), &o) }
pub fn lv_zero_values(p: P) -> LV { let x = base(&p); lv(&LinearValues::zero_from_values(&x), &ValuesOrder::from_values(&x)) }
pub fn lv_short_order(p: P, d: [f64; 7]) -> usize { LinearValues::from_order_and_vector(ValuesOrder::from_values(&base(&p)), VectorX::from_fn(6, |i, _| d[i])).len() }
pub fn lv_long_order(p: P, d: [f64; 7]) -> usize { LinearValues::from_order_and_vector(ValuesOrder::from_values(&base(&p)), VectorX::from_fn(8, |i, _| d[i % 7])).len() }
pub fn lv_short_values(p: P, d: [f64; 7]) -> usize { LinearValues::from_values_and_vector(&base(&p), VectorX::from_fn(3, |i, _| d[i])).len() }
pub fn lv_long_values(p: P, d: [f64; 7]) -> usize { LinearValues::from_values_and_vector(&base(&p), VectorX::from_fn(9, |i, _| d[i % 7])).len() }

// ---------------------------------------------------------------- graph
pub fn graph(p: P) -> Vec<(usize, bool)> {
    let mut g = Graph::new();
    let mut out = vec![(g.len(), g.is_empty())];
    for i in 0..3 { g.add_factor(FactorBuilder::new1(PriorResidual::new(c2(&p, i)), X(0)).build()); out.push((g.len(), g.is_empty())); }
    out
}
/// n factors
pub fn graph_many(n: usize, p: P) -> Vec<(usize, bool)> {
    let mut g = Graph::new();
    (0..n).map(|_| { g.add_factor(FactorBuilder::new1(PriorResidual::new(c2(&p, 0)), X(0)).build()); (g.len(), g.is_empty()) }).collect()
}
pub fn graph_cap(p: P) -> (usize, bool, usize) {
    let mut g = Graph::with_capacity(7);
    let a = (g.len(), g.is_empty());
    g.add_factor(FactorBuilder::new1(PriorResidual::new(c2(&p, 0)), X(0)).build());
    (a.0, a.1, g.len())
}

/// keeps `next` of the crate's own iterator among the analysed functions even when only library adaptors call it
pub fn lv_next(p: P) -> Option<u64> {
    let l = LinearValues::zero_from_values(&base(&p));
    let mut i = l.iter();
    i.next().map(|(k, _)| k.0)
}

/// parts of a long vector, by key and by iteration
pub fn lv_far(n: usize, a: f64) -> (Vec<f64>, Vec<(u64, usize, f64)>, usize) {
    let mut m: ahash::HashMap<Key, Idx> = Default::default();
    m.insert(Key(1), Idx { idx: 2, dim: n });
    m.insert(Key(2), Idx { idx: n + 2, dim: 2 });
    m.insert(Key(3), Idx { idx: 0, dim: 2 });
    let v = LinearValues::from_order_and_vector(ValuesOrder::new(m), VectorX::from_fn(n + 4, |i, _| a * i as f64));
    let r = v.get(Key(2)).unwrap().iter().cloned().collect();
    (r, v.iter().map(|(k, x)| (k.0, x.len(), x[x.len() - 1])).collect(), v.dim())
}
