//! Small programs over the library functions a refactoring of factrs might use: evaluated by the analyser
//! (symbolic arguments, then numbers) and, for testing the analyser only, natively.
#![allow(clippy::all)]
use nalgebra as na;
use na::{DMatrix, DVector, Matrix2, Matrix3, Matrix3x4, Matrix4, SMatrix, SVector, Vector2, Vector3, Vector4, Vector6, RowVector3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
pub type P = [f64; 12];
pub type R = Vec<f64>;
fn m3(p: &P) -> Matrix3<f64> { Matrix3::new(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]) }
fn n3(p: &P) -> Matrix3<f64> { Matrix3::new(p[3], p[1], p[7], p[11], p[4], p[2], p[6], p[9], p[8]) }
fn v3(p: &P) -> Vector3<f64> { Vector3::new(p[9], p[10], p[11]) }
fn w3(p: &P) -> Vector3<f64> { Vector3::new(p[0], p[4], p[2]) }
fn dm(p: &P) -> DMatrix<f64> { DMatrix::from_row_slice(3, 4, p) }
fn o<const A: usize, const B: usize>(m: SMatrix<f64, A, B>) -> R { m.iter().copied().collect() }
fn od(m: DMatrix<f64>) -> R { m.iter().copied().collect() }
fn b(x: bool) -> f64 { if x { 1.0 } else { 0.0 } }
// ---- nalgebra
pub fn la01(p: P) -> R { let mut m = m3(&p); m.fill_lower_triangle_with_upper_triangle(); o(m) }
pub fn la02(p: P) -> R { let mut m = m3(&p); m.fill_upper_triangle_with_lower_triangle(); o(m) }
pub fn la03(p: P) -> R { let mut m = m3(&p); m.fill_lower_triangle(p[9], 1); o(m) }
pub fn la04(p: P) -> R { let mut m = m3(&p); m.fill_upper_triangle(p[9], 1); o(m) }
pub fn la05(p: P) -> R { let mut m = m3(&p); m.fill_row(1, p[9]); m.fill_column(2, p[10]); o(m) }
pub fn la06(p: P) -> R { let mut m = m3(&p); m.add_scalar_mut(p[9]); m.swap_columns(0, 2); m.swap_rows(0, 1); o(m) }
pub fn la07(p: P) -> R { let mut v = v3(&p); v.gemv_tr(p[1], &m3(&p), &w3(&p), p[2]); o(v) }
pub fn la08(p: P) -> R { let mut v = m3(&p); v.gemm_tr(p[1], &m3(&p), &n3(&p), p[2]); o(v) }
pub fn la09(p: P) -> R { let mut v = m3(&p); v.ger(p[1], &v3(&p), &w3(&p), p[2]); o(v) }
pub fn la10(p: P) -> R { let mut v = m3(&p); v.quadform(p[1], &m3(&p), &n3(&p), p[2]); o(v) }
pub fn la11(p: P) -> R { let mut v = m3(&p); v.quadform_tr(p[1], &m3(&p), &n3(&p), p[2]); o(v) }
pub fn la12(p: P) -> R { let mut v = v3(&p); v.axpy(p[1], &w3(&p), p[2]); v.axcpy(p[1], &w3(&p), p[4], p[2]); o(v) }
pub fn la13(p: P) -> R { let mut v = m3(&p).symmetric_part(); v.set_diagonal(&v3(&p)); o(v) }
pub fn la14(p: P) -> R { vec![m3(&p).amax(), m3(&p).amin(), m3(&p).max(), m3(&p).min(), m3(&p).sum(), m3(&p).trace(), m3(&p).product(), m3(&p).mean()] }
pub fn la15(p: P) -> R { let mut r = o(m3(&p).row_sum()); r.extend(o(m3(&p).column_sum())); r }
pub fn la16(p: P) -> R { let mut r = od(dm(&p).remove_row(1)); r.extend(od(dm(&p).insert_column(2, p[3]))); r.extend(od(dm(&p).remove_columns(1, 2))); r }
pub fn la17(p: P) -> R { let mut r = o(m3(&p).fixed_view::<2, 2>(1, 0).into_owned()); r.extend(o(m3(&p).fixed_rows::<2>(1).into_owned())); r.extend(o(m3(&p).fixed_columns::<1>(2).into_owned())); r }
pub fn la18(p: P) -> R { let mut r = od(dm(&p).select_rows(&[2, 0])); r.extend(o(m3(&p).map_diagonal(|x| x * 2.0))); r }
pub fn la19(p: P) -> R { let mut m = m3(&p); m.fill_with(|| p[2]); o(m) }
pub fn la20(p: P) -> R { let mut m = m3(&p); m.zip_apply(&n3(&p), |a, b| *a = *a * 2.0 - b); o(m) }
pub fn la21(p: P) -> R { vec![m3(&p).zip_fold(&n3(&p), 0.5, |a, x, y| a * 0.5 + x * y), m3(&p).fold(0.25, |a, x| a * 0.5 + x)] }
pub fn la22(p: P) -> R { o(m3(&p).zip_zip_map(&n3(&p), &m3(&p), |a: f64, b: f64, c: f64| a - b * c + c)) }
pub fn la23(p: P) -> R { let mut m = Matrix3::zeros(); m3(&p).transpose_to(&mut m); o(m) }
pub fn la24(p: P) -> R { let mut v = v3(&p); v.set_magnitude(p[1]); o(v) }
pub fn la25(p: P) -> R { let mut r = o(Vector3::y() * p[0]); r.extend(o(v3(&p).xy())); r.extend(o(v3(&p).zyx())); r.extend(o(Vector3::x() + Vector3::z() * p[1])); r }
pub fn la26(p: P) -> R { let m = m3(&p); let mut r = o(m.tr_mul(&n3(&p))); r.extend(o(m.component_mul(&n3(&p)))); r.extend(o(m.component_div(&n3(&p)))); r }
pub fn la27(p: P) -> R { let mut m = m3(&p); m *= n3(&p); m += n3(&p); m -= Matrix3::identity(); m *= p[2]; m /= p[3]; m.neg_mut(); o(m) }
pub fn la28(p: P) -> R { let mut m = m3(&p); m.apply(|x| *x = *x * 2.0); o(m.apply_into(|x| *x += 1.0)) }
pub fn la29(p: P) -> R { let c = v3(&p).cross(&w3(&p)); let k = v3(&p).cross_matrix() * w3(&p); vec![c.x, c.y, c.z, k[0], k[1], k[2], v3(&p).dot(&w3(&p)), v3(&p).norm(), v3(&p).norm_squared(), v3(&p).magnitude()] }
pub fn la30(p: P) -> R { let mut r = o(v3(&p).push(p[0])); r.extend(o(v3(&p).to_homogeneous())); r.extend(o(v3(&p).insert_row(1, p[3]))); r }
pub fn la31(p: P) -> R { let mut m = Matrix4::<f64>::zeros(); m.fixed_view_mut::<3, 3>(0, 0).copy_from(&m3(&p)); m.fixed_view_mut::<3, 1>(0, 3).copy_from(&v3(&p)); m[(3, 3)] = 1.0; o(m) }
pub fn la32(p: P) -> R { let mut m = DMatrix::<f64>::zeros(4, 4); m.view_mut((1, 1), (3, 3)).copy_from(&m3(&p)); m.view_mut((0, 0), (1, 4)).fill(p[9]); m.columns_mut(1, 2).scale_mut(2.0); m.rows_mut(2, 1).add_scalar_mut(1.0); m.row_mut(0)[2] = 7.0; m.column_mut(3)[1] = 8.0; od(m) }
pub fn la33(p: P) -> R { let m = dm(&p); let mut r = vec![]; for row in m.row_iter() { r.push(row.sum()); } for c in m.column_iter() { r.push(c[0] * c[1]); } for (i, x) in m.iter().enumerate() { r.push(*x * i as f64); } r }
pub fn la34(p: P) -> R { let mut m = dm(&p); for mut row in m.row_iter_mut() { row *= 2.0; } for mut c in m.column_iter_mut() { c[0] += 1.0; } for x in m.iter_mut() { *x -= 0.5; } od(m) }
pub fn la35(p: P) -> R { let m = Matrix3::from_columns(&[v3(&p), w3(&p), v3(&p) + w3(&p)]); let n = Matrix3::from_rows(&[v3(&p).transpose(), w3(&p).transpose(), RowVector3::new(1.0, 2.0, 3.0)]); o(m * n) }
pub fn la36(p: P) -> R { let d = DVector::from_vec(p.to_vec()); let a = d.rows(3, 4).into_owned(); let h = d.rows_range(8..).into_owned(); let mut r: R = a.iter().cloned().collect(); r.extend(h.iter()); r.push(d.len() as f64); r.extend(d.as_slice()[2..4].iter()); r }
pub fn la37(p: P) -> R { let m = SMatrix::<f64, 2, 3>::from_fn(|i, j| p[i * 3 + j]); let mut r = o(m); r.extend(o(m.transpose())); r.extend(o(SMatrix::<f64, 2, 3>::from_iterator(p.iter().copied()))); r.extend(o(SMatrix::<f64, 2, 3>::from_row_slice(&p[..6]))); r.extend(o(SMatrix::<f64, 2, 3>::from_column_slice(&p[..6]))); r }
pub fn la38(p: P) -> R { let i = Matrix2::new(p[0] + 3.0, p[1], p[2], p[3] + 4.0).try_inverse().unwrap(); let mut r = o(i); r.push(Matrix2::new(p[0], p[1], p[2], p[3]).determinant()); r.push(m3(&p).determinant()); r }
pub fn la39(p: P) -> R { let m = m3(&p); let a: [[f64; 3]; 3] = m.into(); let v: [f64; 3] = v3(&p).into(); let w = Vector3::from(v); let u = Vector3::from_row_slice(&v); let z: Vector3<f64> = [1.0, 2.0, 3.0].into(); let mut r: R = a.iter().flatten().copied().collect(); r.extend(o(w + u + z)); r }
pub fn la40(p: P) -> R { let v = Vector6::from_iterator(p.iter().cloned()); let (a, c) = (v.fixed_rows::<3>(0), v.fixed_rows::<3>(3)); let mut r = o(a + c); r.extend(o(a.cross(&c))); let s: SVector<f64, 6> = SVector::from_fn(|i, _| if i < 3 { a[i] } else { c[i - 3] * 2.0 }); r.extend(o(s)); r }
pub fn la41(p: P) -> R { let v = v3(&p); let (x, y, z) = (v.x, v.y, v.z); let n = v.normalize(); let mut r = vec![x, y, z]; r.extend(o(n)); r.push(v.iter().map(|a| a * a).sum::<f64>().sqrt()); r.push(v.metric_distance(&w3(&p))); r }
pub fn la42(p: P) -> R { let m: Matrix3x4<f64> = dm(&p).fixed_view::<3, 4>(0, 0).into_owned(); let h = Vector4::new(1.0, p[1], p[2], 1.0); let mut r = o(m * h); r.extend(o(m.fixed_columns::<3>(0) * v3(&p))); r }
pub fn la43(p: P) -> R { let m = DMatrix::from_fn(2, 3, |i, j| p[i + 2 * j]); let k = m.clone().resize(3, 3, 0.5); let d = DMatrix::from_diagonal(&DVector::from_column_slice(&p[..3])); let mut r = od(&k * &d); r.extend(od(m.kronecker(&DMatrix::identity(2, 2)))); r }
pub fn la44(p: P) -> R { let c = m3(&p).lower_triangle() - m3(&p).upper_triangle(); let mut r = o(c); r.extend(o(m3(&p).diagonal())); r.extend(o(Matrix3::from_diagonal(&v3(&p)))); r.extend(o(Matrix3::from_diagonal_element(p[2]))); r.extend(o(Matrix3::repeat(p[2]))); r }
pub fn la45(p: P) -> R { let mut a = v3(&p); a.swap((0, 0), (2, 0)); a.y = -a.y; a[2] *= 2.0; let s = a.as_mut_slice(); s[0] += 1.0; let q = a.map(|x| x + 1.0); o(q) }
pub fn la46(p: P) -> R { vec![b(m3(&p).is_square()), b(m3(&p).is_empty()), m3(&p).nrows() as f64, dm(&p).ncols() as f64, dm(&p).shape().0 as f64, dm(&p).len() as f64, m3(&p).get((1, 2)).copied().unwrap_or(0.0), b(m3(&p).get((3, 0)).is_none())] }
pub fn la47(p: P) -> R { let d = DVector::<f64>::zeros(3); let mut e = DVector::from_element(3, p[0]); e.copy_from_slice(&p[3..6]); e += &d; e.rows_mut(1, 2).copy_from(&DVector::from_row_slice(&p[7..9])); e.iter().copied().chain(d.iter().copied()).collect() }
pub fn la48(p: P) -> R { let m = Matrix2::new(p[0] + 9.0, p[1], p[2], p[3] + 7.0); let s = m * m.transpose(); let c = s.cholesky().unwrap(); let x = c.solve(&Vector2::new(p[4], p[5])); let l = c.l(); let mut r = o(x); r.extend(o(l)); r.extend(o(c.inverse())); r }
pub fn la49(p: P) -> R { let l = (m3(&p) + Matrix3::from_diagonal_element(9.0)).lower_triangle(); let mut r = o(l.solve_lower_triangular(&v3(&p)).unwrap()); r.extend(o(l.transpose().solve_upper_triangular(&v3(&p)).unwrap())); r.extend(o(l.tr_solve_lower_triangular(&v3(&p)).unwrap())); r }
// ---- f64
pub fn f01(p: P) -> R { vec![p[0].mul_add(p[1], p[2]), p[0].hypot(p[1]), p[0].powi(3), p[0].powi(2), p[0].powi(-2), p[0].abs().powf(1.5), p[0].recip(), p[0].clamp(-0.25, 0.25), p[0].signum(), p[0].copysign(p[1]), p[0].abs().sqrt(), p[0].exp(), p[0].abs().ln(), p[0].sin_cos().1, p[0].tan(), p[0].atan2(p[1]), p[0].asin(), p[0].acos(), p[0].atan()] }
pub fn f02(p: P) -> R { vec![p[0].max(p[1]), p[0].min(p[1]), p[0].to_radians(), p[0].to_degrees(), b(p[0].is_nan()), b(p[0].is_finite()), b(p[0].is_sign_negative()), b(p[0] < p[1]), (p[0] - p[1]).abs(), -p[0], p[0].exp_m1(), p[0].abs().ln_1p()] }
pub fn f03(p: P) -> R { vec![f64::EPSILON, f64::MAX, f64::MIN_POSITIVE, std::f64::consts::PI, std::f64::consts::FRAC_PI_2, f64::from(3u8), 7usize as f64, (3.7f64 as i32) as f64, f64::from(true as u8), 2.0f64.powi(10), 1e-3] }
pub fn f04(p: P) -> R { let mut x = p[0]; x += p[1]; x *= 2.0; x -= p[2]; x /= p[3]; vec![x, if x > 0.0 { x } else { -x }, match x { y if y > 1.0 => 1.0, y if y < -1.0 => -1.0, y => y }] }
pub fn f05(p: P) -> R { let c = p[0].partial_cmp(&p[1]); let t = p[0].total_cmp(&p[1]); vec![match c { Some(std::cmp::Ordering::Less) => 1.0, Some(_) => 2.0, None => 3.0 }, b(t.is_lt()), b(p[0] >= p[1]), b(!(p[0] == p[1]))] }
pub fn f06(p: P) -> R { let (n, i) = (f64::NAN, f64::INFINITY); let x = p[0]; let s = |v: f64| if v.is_nan() { 5.0 } else if v == i { 6.0 } else if v == -i { 7.0 } else { v }; vec![b(n < x), b(n <= x), b(x >= n), b(n == n), b(n != n), b(!(n > x)), b(x < i), b(-i <= x), b(i <= i), b(i - i <= x), s(x + i), s(x - i), s(i - i), s(x / i), s(n.max(x)), s(x.min(n)), s(x.min(i)), s(i.sqrt()), s((-i).exp()), s((x * x + 1.0) * i), s("NaN".parse().unwrap()), s("-inf".parse().unwrap()), b(x.partial_cmp(&n).is_none()), b((n.abs() + x).is_finite()), s(i.signum()), s(0.0 * i)] }
// ---- iterators
pub fn it01(p: P) -> R { p.iter().zip(p[1..].iter()).map(|(a, b)| a * b).collect() }
pub fn it02(p: P) -> R { p.windows(2).map(|w| w[1] - w[0]).chain(p.chunks(5).map(|c| c.iter().sum())).collect() }
pub fn it03(p: P) -> R { p.iter().rev().enumerate().skip(2).step_by(3).map(|(i, x)| i as f64 + x).collect() }
pub fn it04(p: P) -> R { p.iter().scan(0.0, |s, x| { *s += x; Some(*s) }).collect() }
pub fn it05(p: P) -> R { vec![p.iter().sum(), p.iter().product(), p.iter().copied().fold(0.5, |a, x| a * 0.5 + x), p[..4].iter().fold(f64::NEG_INFINITY, |a, &x| a.max(x)), p[..4].iter().cloned().reduce(|a, b| a.min(b)).unwrap(), p.iter().count() as f64, *p.iter().last().unwrap(), *p.iter().nth(3).unwrap()] }
pub fn it06(p: P) -> R { vec![b(p.iter().any(|x| *x > 0.5)), b(p.iter().all(|x| *x > -9.0)), p.iter().position(|x| *x > 0.0).map_or(-1.0, |i| i as f64), p.iter().find(|x| **x > 0.0).copied().unwrap_or(-2.0), p.iter().filter(|x| **x > 0.0).count() as f64, p.iter().filter_map(|x| if *x > 0.0 { Some(*x * 2.0) } else { None }).sum::<f64>()] }
pub fn it07(p: P) -> R { (0..3).flat_map(|i| (0..4).map(move |j| (i, j))).map(|(i, j)| p[i * 4 + j]).collect() }
pub fn it08(p: P) -> R { let (a, c): (Vec<f64>, Vec<f64>) = p.iter().map(|x| (x * 2.0, x + 1.0)).unzip(); a.into_iter().chain(c).collect() }
pub fn it09(p: P) -> R { let mut i = p.iter().peekable(); let mut r = vec![]; while let Some(x) = i.next() { if let Some(n) = i.peek() { r.push(x * **n); } } r }
pub fn it10(p: P) -> R { p.iter().take(5).cycle().take(12).copied().collect::<Vec<_>>().into_iter().rev().collect() }
pub fn it11(p: P) -> R { let m: [f64; 12] = std::array::from_fn(|i| p[11 - i]); m.map(|x| x * 2.0).to_vec() }
pub fn it12(p: P) -> R { let mut r = vec![0.0; 4]; for (x, y) in r.iter_mut().zip(&p) { *x = *y + 1.0; } r.extend(std::iter::once(3.0)); r.extend(std::iter::repeat(p[0]).take(2)); r.extend_from_slice(&p[2..4]); r }
pub fn it13(p: P) -> R { (1..=4).rev().map(|i| p[i]).inspect(|_| {}).map_while(|x| if x < 100.0 { Some(x) } else { None }).collect() }
pub fn it14(p: P) -> R { let o: Option<Vec<f64>> = p.iter().map(|x| if *x < 50.0 { Some(*x) } else { None }).collect(); let q: Result<Vec<f64>, String> = p.iter().map(|x| if *x < 50.0 { Ok(x * 2.0) } else { Err("big".to_string()) }).collect(); let mut r = o.unwrap(); r.extend(q.unwrap()); r }
pub fn it15(p: P) -> R { p.chunks_exact(3).flat_map(|c| [c[0] + c[1], c[2]]).collect() }
pub fn it16(p: P) -> R { let s: f64 = p.iter().enumerate().map(|(i, x)| if i % 2 == 0 { *x } else { -x }).sum(); let t = p.iter().try_fold(0.0, |a: f64, x| if x.abs() < 100.0 { Some(a + x) } else { None }); vec![s, t.unwrap()] }
pub fn it17(p: P) -> R { let mut r: R = std::iter::successors(Some(1.0), |x| if *x < 20.0 { Some(x * 2.0) } else { None }).collect(); let mut k = 0; r.extend(std::iter::from_fn(|| { k += 1; if k < 4 { Some(p[k]) } else { None } })); r }
pub fn it18(p: P) -> R { let (a, c) = p.split_at(5); let (f, rest) = p.split_first().unwrap(); let l = p.last().unwrap(); let mut r = a.to_vec(); r.push(c[0]); r.push(*f); r.push(rest[0]); r.push(*l); r.push(*p.first().unwrap()); r }
// ---- Vec and slices
pub fn ve01(p: P) -> R { let mut v = p.to_vec(); v.swap(0, 3); v.reverse(); v.truncate(8); v.insert(2, 9.0); v.remove(0); v.push(p[0]); let l = v.pop().unwrap(); v.rotate_left(2); v.push(l); v }
pub fn ve02(p: P) -> R { let mut v: Vec<usize> = vec![3, 1, 2, 9, 0]; v.sort(); let mut w = vec![5usize, 2, 7]; w.sort_unstable_by(|a, b| b.cmp(a)); let mut u = vec![(2, 'b'), (1, 'a'), (3, 'c')]; u.sort_by_key(|x| std::cmp::Reverse(x.0)); v.iter().chain(&w).map(|i| p[*i]).chain(u.iter().map(|x| x.0 as f64)).collect() }
pub fn ve03(p: P) -> R { let mut v: Vec<usize> = (0..12).collect(); v.retain(|i| i % 3 != 0); let d: Vec<usize> = v.drain(1..3).collect(); let mut w = v.split_off(3); w.extend(d); w.append(&mut v); w.iter().map(|i| p[*i]).collect() }
pub fn ve04(p: P) -> R { let mut a = [0.0; 6]; a[..3].copy_from_slice(&p[3..6]); a[3..].clone_from_slice(&p[6..9]); a[1..3].iter_mut().for_each(|x| *x += 1.0); let z = [&a[..2], &p[..2]].concat(); let mut r = a.to_vec(); r.extend(z); r.resize(12, 4.0); r.fill(2.0); r[0] = p[0]; r }
pub fn ve05(p: P) -> R { let v = vec![vec![p[0], p[1]], vec![p[2]], vec![]]; let f: Vec<f64> = v.iter().flatten().copied().collect(); let c = v.concat(); let n: usize = v.iter().map(Vec::len).sum(); let mut r = f; r.extend(c); r.push(n as f64); r.push(b(v.iter().any(|x| x.is_empty()))); r }
pub fn ve06(p: P) -> R { let mut q: VecDeque<f64> = VecDeque::new(); q.push_back(p[0]); q.push_front(p[1]); q.push_back(p[2]); let mut r = vec![q.len() as f64]; while let Some(x) = q.pop_front() { r.push(x); } r }
pub fn ve07(p: P) -> R { let v: Vec<usize> = vec![1, 3, 5, 7]; let a = v.binary_search(&5).unwrap(); let c = v.binary_search(&4).unwrap_err(); let d = v.contains(&3); let e = v.iter().max().unwrap() + v.iter().min().unwrap(); let f = v.iter().copied().max_by_key(|x| (*x as i32 - 4).abs()).unwrap(); let g = v.partition_point(|x| *x < 4); vec![a as f64, c as f64, b(d), e as f64, f as f64, g as f64, p[a]] }
pub fn ve08(p: P) -> R { let s: &[f64] = &p; match s { [a, bb, .., z] => vec![*a, *bb, *z], _ => vec![] } }
pub fn ve09(p: P) -> R { let v: Box<[f64]> = p.to_vec().into_boxed_slice(); let mut w = v.into_vec(); let x = w.swap_remove(1); w.push(x); if let Some(y) = w.get_mut(2) { *y = 1.5; } w.extend(w.clone().get(3..5).unwrap()); w }
// ---- Option/Result
pub fn op01(p: P) -> R { let a = if p[0] > 0.0 { Some(p[0]) } else { None }; vec![a.unwrap_or(1.0), a.map_or(2.0, |x| x * 3.0), a.unwrap_or_else(|| p[1]), a.unwrap_or_default(), b(a.is_some_and(|x| x > 0.5)), a.filter(|x| *x > 0.5).unwrap_or(-1.0), a.or(Some(p[2])).unwrap(), a.and_then(|x| if x > 0.1 { Some(x + 1.0) } else { None }).unwrap_or(0.25), a.xor(Some(1.0)).unwrap_or(7.0), a.zip(Some(2.0)).map(|(x, y)| x * y).unwrap_or(9.0), a.iter().sum::<f64>(), a.ok_or("x").unwrap_or(3.5), a.map_or_else(|| 4.5, |x| x)] }
pub fn op02(p: P) -> R { let mut a = Some(p[0]); let t = a.take(); let i = *a.get_or_insert_with(|| p[1]); let r = a.replace(p[2]); let n = a.insert(p[3]); *n += 1.0; if let Some(x) = a.as_mut() { *x += 1.0; } vec![t.unwrap(), i, r.unwrap(), a.unwrap()] }
pub fn op03(p: P) -> R { fn f(x: f64) -> Result<f64, String> { if x > 0.0 { Ok(x) } else { Err("neg".to_string()) } } fn g(p: &P) -> Result<f64, String> { let a = f(p[0].abs() + 1.0)?; let c = f(p[1].abs() + 1.0).map(|x| x * 2.0)?; Ok(a + c) } let e = f(p[2]); vec![g(&p).unwrap(), e.clone().unwrap_or(1.0), b(e.is_ok()), e.as_ref().map(|x| *x).unwrap_or_else(|s| s.len() as f64), e.clone().ok().unwrap_or(2.5), b(e.is_err()), e.map_err(|s| s.len()).map_or_else(|n| n as f64, |x| x)] }
pub fn op04(p: P) -> R { fn h(p: &P) -> Option<f64> { let Some(x) = p.get(3) else { return None; }; let y = p.get(20).or(p.get(4))?; Some(x * y) } vec![h(&p).unwrap(), Some(3).and(Some(4.0)).unwrap(), Some(Some(1.0)).flatten().unwrap(), Some(5.0).into_iter().chain(None).sum(), b(Some(1) < Some(2)), b(None < Some(1)), Option::<f64>::None.copied_or(2.0)] }
trait Co { fn copied_or(self, d: f64) -> f64; }
impl Co for Option<f64> { fn copied_or(self, d: f64) -> f64 { match self { Some(x) => x, None => d } } }
// ---- control flow, closures, traits
pub fn cf01(p: P) -> R { let mut r = vec![]; 'o: for i in 0..4 { for j in 0..3 { if j > i { continue 'o; } if i == 3 { break 'o; } r.push(p[i * 3 + j]); } } r }
pub fn cf02(p: P) -> R { let mut i = 0; let x = loop { if i > 4 { break p[i]; } i += 2; }; let y = { let t = x * 2.0; t + 1.0 }; let z = match i { 0 => 0.0, 1..=5 => 1.0, 6 | 7 => 2.0, _ => 3.0 }; vec![x, y, z] }
pub fn cf03(p: P) -> R { let mut n = 0.0; let mut add = |x: f64| { n += x; n }; let a = add(p[0]); let c = add(p[1]); let fs: Vec<Box<dyn Fn(f64) -> f64>> = vec![Box::new(|x| x + 1.0), Box::new(move |x| x * a)]; let g: fn(f64) -> f64 = f64::sin; let h = &|x: f64| x - c; vec![a, c, fs.iter().fold(2.0, |x, f| f(x)), g(p[2]), h(p[3]), [1.0, 4.0].map(f64::sqrt)[1]] }
pub trait Sh { fn area(&self) -> f64; fn dbl(&self) -> f64 { self.area() * 2.0 } }
struct Sq(f64); struct Re { a: f64, b: f64 }
impl Sh for Sq { fn area(&self) -> f64 { self.0 * self.0 } }
impl Sh for Re { fn area(&self) -> f64 { self.a * self.b } fn dbl(&self) -> f64 { 1.0 } }
pub fn cf04(p: P) -> R { let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(p[0])), Box::new(Re { a: p[1], b: p[2] })]; v.iter().flat_map(|s| [s.area(), s.dbl()]).collect() }
#[derive(Clone, Debug, PartialEq, Default)] struct St { x: f64, y: Vec<f64>, z: Option<usize> }
pub fn cf05(p: P) -> R { let a = St { x: p[0], ..Default::default() }; let mut c = a.clone(); c.y.push(p[1]); let St { x, ref y, .. } = c; let d = std::mem::take(&mut c.y.clone()); let mut e = Some(St::default()); if let Some(s) = &mut e { s.z = Some(3); } vec![x, y[0], d.len() as f64, b(a == c), b(a == a.clone()), e.and_then(|s| s.z).unwrap() as f64] }
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)] enum E3 { A, B(u32), C { k: u64 } }
pub fn cf06(p: P) -> R { let v = [E3::C { k: 4 }, E3::A, E3::B(2), E3::B(1)]; let mut w = v.to_vec(); w.sort(); w.iter().map(|e| match *e { E3::A => p[0], E3::B(n) if n > 1 => p[1], E3::B(n) => p[2] * n as f64, E3::C { k } => k as f64 }).chain([b(matches!(v[0], E3::C { .. })), b(v[2] > v[3]), b(v[1] == E3::A)]).collect() }
pub fn cf07(p: P) -> R { let (mut a, mut c) = (p[0], p[1]); std::mem::swap(&mut a, &mut c); let old = std::mem::replace(&mut a, p[2]); [a, c] = [c, a]; (a, c) = (a + 1.0, c + 2.0); vec![a, c, old] }
pub fn cf08(p: P) -> R { fn rec(p: &[f64]) -> f64 { match p { [] => 0.0, [x, r @ ..] => x + 0.5 * rec(r) } } fn gen<T: Into<f64> + Copy>(x: &[T]) -> f64 { x.iter().map(|v| (*v).into()).sum() } vec![rec(&p[..5]), gen(&[1u8, 2]), gen(&[p[0], 2.5])] }
pub fn cf09(p: P) -> R { use std::rc::Rc; use std::cell::{Cell, RefCell}; let r = Rc::new(RefCell::new(vec![p[0]])); r.borrow_mut().push(p[1]); let q = Rc::clone(&r); q.borrow_mut().push(1.0); let c = Cell::new(2.0); c.set(c.get() + p[2]); let mut o = r.borrow().clone(); o.push(c.get()); o }
// ---- integers
pub fn in01(p: P) -> R { let a = 0xF0u64; let x = (a << 8 | 0x3) ^ 0x10; vec![x as f64, (x >> 4) as f64, a.count_ones() as f64, a.leading_zeros() as f64, a.trailing_zeros() as f64, (7usize.pow(2)) as f64, (7i32.rem_euclid(-4)) as f64, (-7i32 / 2) as f64, (-7i32 % 4) as f64, 5usize.saturating_sub(9) as f64, b(5usize.checked_sub(9).is_none()), 250u8.wrapping_add(10) as f64, (5usize.abs_diff(9)) as f64, 10usize.div_ceil(3) as f64, usize::from(3u8) as f64, b(u8::try_from(300i32).is_err()), (-1i64 as u64 >> 60) as f64, 'a' as u32 as f64, 3.min(4) as f64, (!0u32).count_ones() as f64, p[1]] }
pub fn in02(p: P) -> R { let (v, o) = 250u8.overflowing_add(10); let x = u64::from_be_bytes(0x0102030405060708u64.to_be_bytes()); let y = char::from_u32('x' as u32).unwrap(); let z = char::from_digit(7, 10).unwrap().to_digit(10).unwrap(); vec![v as f64, b(o), b(x == 0x0102030405060708), b(y.is_alphabetic()), z as f64, b(y.is_ascii_lowercase()), (y as u8 - b'a') as f64, 4u64.is_power_of_two() as u8 as f64, 6usize.next_power_of_two() as f64, i64::MAX.wrapping_add(1).is_negative() as u8 as f64, p[0]] }
// ---- maps
pub fn ma01(p: P) -> R { let mut m: HashMap<u64, Vec<f64>> = HashMap::new(); m.entry(3).or_default().push(p[0]); m.entry(3).or_insert_with(Vec::new).push(p[1]); m.entry(5).and_modify(|v| v.push(9.0)).or_insert(vec![p[2]]); let mut ks: Vec<_> = m.keys().copied().collect(); ks.sort_unstable(); let mut r: R = ks.iter().flat_map(|k| m[k].clone()).collect(); r.push(m.len() as f64); r.push(b(m.contains_key(&4))); r.push(m.get(&5).map(|v| v[0]).unwrap_or(0.0)); r.push(m.values().map(|v| v.len()).sum::<usize>() as f64); if let Some(v) = m.get_mut(&3) { v.clear(); } r.push(m.remove(&3).unwrap().len() as f64); r.push(b(m.insert(5, vec![]).is_some())); r }
pub fn ma02(p: P) -> R { let m: BTreeMap<usize, f64> = (0..4).map(|i| (3 - i, p[i])).collect(); let mut r: R = m.values().copied().collect(); r.extend(m.range(1..3).map(|(k, v)| *k as f64 * v)); r.push(*m.first_key_value().unwrap().1); r.push(*m.last_key_value().unwrap().1); let s: BTreeSet<usize> = [3, 1, 2, 3].into_iter().collect(); r.extend(s.iter().map(|x| *x as f64)); r }
pub fn ma03(p: P) -> R { let a: HashSet<u32> = [1, 2, 3].into(); let c: HashSet<u32> = HashSet::from([2, 3, 4]); let mut i: Vec<u32> = a.intersection(&c).copied().collect(); i.sort(); let mut u: Vec<_> = a.union(&c).collect(); u.sort(); let mut h = HashSet::new(); let d = [1, 2, 1].iter().filter(|x| h.insert(**x)).count(); vec![i[0] as f64, i.len() as f64, u.len() as f64, d as f64, b(a.contains(&1)), b(a.is_subset(&c)), p[0]] }
pub fn ma04(p: P) -> R { let m: HashMap<&str, f64> = [("a", p[0]), ("b", p[1])].into_iter().collect(); let mut n: HashMap<String, usize> = HashMap::with_capacity(4); for (i, k) in ["x", "y", "x"].iter().enumerate() { *n.entry(k.to_string()).or_insert(0) += i; } let mut v: Vec<(String, usize)> = n.into_iter().collect(); v.sort(); let mut r = vec![m["a"], m.get("b").copied().unwrap()]; r.extend(v.iter().map(|x| x.1 as f64)); let mut q: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect(); q.sort_by(|a, b| a.0.cmp(b.0)); r.extend(q.iter().map(|x| x.1)); r }
#[derive(Clone, Copy)]
pub struct Nt(f64, usize);
pub enum En { A(f64), B }
pub fn ct01(p: P) -> R { let v: Vec<Nt> = p.iter().map(|x| (*x, 3)).map(|(a, c)| Nt(a, c)).collect(); let w: Vec<Option<f64>> = p[..2].iter().copied().map(Some).collect(); let u: Vec<En> = p[..3].iter().copied().map(En::A).chain([En::B]).collect(); let t: Vec<std::cmp::Reverse<usize>> = [2usize, 1].into_iter().map(std::cmp::Reverse).collect(); let k: Result<Vec<f64>, f64> = p[..3].iter().copied().map(Ok).collect(); vec![v[2].0, v[1].1 as f64, w[1].unwrap(), u.iter().map(|e| match e { En::A(x) => *x, En::B => 1.0 }).sum(), t[0].0 as f64, k.unwrap()[1]] }
// ---- strings
pub fn st01(p: P) -> R { let s = "A 1 2.5 -3e2 x"; let t: Vec<&str> = s.split_whitespace().collect(); let mut r: R = t[1..4].iter().map(|x| x.parse::<f64>().unwrap()).collect(); r.push(t.len() as f64); r.push(b(t[0].starts_with('A'))); r.push(b(s.contains("2.5"))); r.push(s.find('2').unwrap() as f64); r.push(s.len() as f64); r.push(b("x".parse::<i32>().is_err())); r.push("42".parse::<u64>().unwrap() as f64); r.push(p[0]); r }
pub fn st02(p: P) -> R { let s = String::from("ab-") + "007"; let (a, c) = s.split_once('-').unwrap(); let u = a.to_uppercase(); let j = ["x", "y"].join(","); let mut it = j.split(','); vec![s.len() as f64, c.trim_start_matches('0').parse::<f64>().unwrap(), b(u == "AB"), b(it.next() == Some("x")), it.count() as f64, b("  q ".trim() == "q"), "a\nb\n".lines().count() as f64, b(s.is_empty()), "abc".chars().rev().map(|c| c as u32 as f64).sum(), b("abc".strip_prefix("a") == Some("bc")), b("b" > "a"), p[2]] }
// ---- faer
fn fm(p: &P) -> faer::Mat<f64> { faer::Mat::from_fn(3, 4, |i, j| p[i * 4 + j]) }
fn fo(m: faer::MatRef<'_, f64>) -> R { let mut r = vec![]; for i in 0..m.nrows() { for j in 0..m.ncols() { r.push(m.read(i, j)); } } r }
fn sp(p: &P) -> faer::sparse::SparseColMat<usize, f64> { faer::sparse::SparseColMat::try_new_from_triplets(3, 3, &[(0, 0, p[0] + 4.0), (1, 1, p[1] + 5.0), (2, 2, p[2] + 6.0), (2, 0, p[3]), (0, 2, p[3])]).unwrap() }
pub fn fa01(p: P) -> R { let mut m = fm(&p); m[(1, 2)] = p[0] * 2.0; m[(0, 0)] += 1.0; let mut r = fo(m.as_ref()); r.push(m[(2, 3)]); r.push(*m.get(1, 1)); r.push(m.nrows() as f64); r }
pub fn fa02(p: P) -> R { let m = fm(&p); let c = m.col(2); let d = c.to_owned(); let mut r = vec![]; for i in 0..d.nrows() { r.push(d[i]); r.push(c.read(i)); } r }
pub fn fa03(p: P) -> R { let m = fm(&p); let mut r = fo((&m * m.transpose()).as_ref()); r.extend(fo((&m + &m).as_ref())); r.extend(fo((&m - faer::scale(2.0) * &m).as_ref())); r.extend(fo((-&m).as_ref())); r }
pub fn fa04(p: P) -> R { let m = fm(&p); vec![m.norm_l2(), m.squared_norm_l2(), m.norm_max(), m.sum(), m.norm_l1()] }
pub fn fa05(p: P) -> R { let m = sp(&p); let mut r = vec![]; for (i, j) in [(0, 0), (2, 0), (1, 0)] { r.push(m.get(i, j).copied().unwrap_or(-1.0)); } r.extend(m.values().iter().copied()); r.extend(m.row_indices().iter().map(|x| *x as f64)); r.extend(m.col_ptrs().iter().map(|x| *x as f64)); r }
pub fn fa06(p: P) -> R { let m = sp(&p); let d = m.to_dense(); let mut r = fo(d.as_ref()); r.extend(fo((&m * &d).as_ref())); r.extend(fo((d.transpose() * &m).as_ref())); r }
pub fn fa07(p: P) -> R { let mut m = sp(&p); for x in m.values_mut() { *x *= 2.0; } let mut r = fo(m.to_dense().as_ref()); r.push(m.compute_nnz() as f64); r }
pub fn fa08(p: P) -> R { let mut m = faer::Mat::<f64>::zeros(3, 1); m.as_mut().subrows_mut(1, 2).fill(p[0]); m.col_mut(0).fill(0.5); m.row_mut(2).write(0, p[1]); let mut r = fo(m.as_ref()); m.fill_zero(); r.extend(fo(m.as_ref())); r }
pub fn fa09(p: P) -> R { let m = fm(&p); let mut r = vec![]; for c in m.col_iter() { r.push(c.sum()); } for w in m.row_iter() { r.push(w.read(1)); } r }
pub fn fa10(p: P) -> R { let v = faer::Col::<f64>::from_fn(3, |i| p[i]); let m = fm(&p); let y = m.transpose() * &v; let mut r: R = (0..y.nrows()).map(|i| y[i]).collect(); r.push(v.norm_l2()); r }
pub fn fa11(p: P) -> R { let mut m = fm(&p); m += fm(&p); m -= faer::scale(0.5) * fm(&p); m *= faer::scale(3.0); fo(m.as_ref()) }
pub fn fa12(p: P) -> R { let m = fm(&p); let s = m.col_as_slice(1); let mut r = s.to_vec(); r.extend(fo(m.submatrix(1, 1, 2, 2))); r.extend(fo(m.subcols(1, 2))); r.extend(fo(m.get(0..2, ..))); r }
pub fn fa13(p: P) -> R { let d = sp(&p).to_dense(); let b = fm(&p).subcols(0, 1).to_owned(); use faer::solvers::SpSolver; let x = d.cholesky(faer::Side::Lower).unwrap().solve(&b); let y = &d * &x; fo(y.as_ref()) }
pub fn fa14(p: P) -> R { let d = sp(&p); let b = fm(&p).subcols(0, 1).to_owned(); use faer::solvers::SpSolver; let mut x = b.clone(); d.sp_cholesky(faer::Side::Lower).unwrap().solve_in_place(x.as_mut()); let y = &d * &x; fo(y.as_ref()) }
pub fn fa17(p: P) -> R { let m = faer::mat![[p[0], p[1]], [p[2], p[3]]]; let c = faer::col![p[0], p[1]]; let mut r = fo(m.as_ref()); r.push(c[1]); r.push(m.determinant()); r }
pub fn fa18(p: P) -> R { let m = sp(&p); let mut r = vec![]; for j in 0..m.ncols() { for (i, v) in m.row_indices_of_col(j).zip(m.values_of_col(j)) { r.push(i as f64); r.push(*v); } } r }
pub fn fa19(p: P) -> R { let m = sp(&p); let g = m.transpose().to_col_major().unwrap() * &m; let h = &m + &m; let mut r = fo(g.to_dense().as_ref()); r.extend(fo(h.to_dense().as_ref())); r.extend(fo((faer::scale(2.0) * &m).to_dense().as_ref())); r }
pub fn fa20(p: P) -> R { let m = fm(&p); let mut n = faer::Mat::<f64>::full(3, 4, p[0]); n.as_mut().col_mut(1).copy_from(m.col(2)); n.as_mut().subrows_mut(0, 1).copy_from(m.subrows(2, 1)); let v = faer::Mat::<f64>::from_fn(2, 2, |i, j| if i == j { 1.0 } else { m[(i, j)] }); let mut r = fo(n.as_ref()); r.extend(fo(v.as_ref())); r.extend(fo(m.reverse_rows())); r }
pub fn fa21(p: P) -> R { let d = faer::Col::<f64>::from_fn(3, |i| p[i]); let dg = d.column_vector_as_diagonal(); let m = dg * fm(&p); fo(m.as_ref()) }
// ---- num_dual
use num_dual::{DualNum, DualSVec64, DualDVec64, DualVec, Derivative};
fn du(p: &P, k: usize) -> num_dual::DualSVec64<3> { DualVec::new(p[k], Derivative::some(na::SVector::<f64, 3>::from_fn(|i, _| p[(k + i + 1) % 12]))) }
fn dd(x: num_dual::DualSVec64<3>) -> R { let mut r = vec![x.re]; r.extend(x.eps.unwrap_generic(na::Const::<3>, na::Const::<1>).iter()); r }
pub fn nd01(p: P) -> R { dd(du(&p, 0).sin() * du(&p, 1).cos() + du(&p, 2).exp()) }
pub fn nd02(p: P) -> R { dd((du(&p, 0) * du(&p, 0) + 1.0).sqrt() / (du(&p, 1) + 2.0).ln()) }
pub fn nd03(p: P) -> R { dd((du(&p, 0) + 2.0).powi(3) - (du(&p, 1) + 2.0).recip()) }
pub fn nd04(p: P) -> R { dd(na::RealField::atan2(du(&p, 0), du(&p, 1)) + du(&p, 2).tan() + du(&p, 3).atan()) }
pub fn nd05(p: P) -> R { dd(du(&p, 0).asin() - du(&p, 1).acos() + du(&p, 2).sinh() * du(&p, 3).cosh() + du(&p, 4).tanh()) }
pub fn nd06(p: P) -> R { let (s, c) = du(&p, 0).sin_cos(); dd(s * 2.0 - c * du(&p, 1) - du(&p, 3).mul_add(du(&p, 4), du(&p, 5))) }
pub fn nd07(p: P) -> R { dd((du(&p, 0) + 2.0).powf(1.5) + (du(&p, 1) + 2.0).powd(du(&p, 2)) + du(&p, 1).exp_m1() + (du(&p, 3)).ln_1p()) }
pub fn nd08(p: P) -> R { use na::{RealField, ComplexField}; let a = du(&p, 0); let c = du(&p, 1); let mut r = dd(RealField::max(a.clone(), c.clone())); r.extend(dd(RealField::min(a.clone(), c.clone()))); r.extend(dd(ComplexField::abs(a.clone()))); r.extend(dd(RealField::copysign(a, c))); r }
pub fn nd09(p: P) -> R { let a = du(&p, 0); let c = du(&p, 1); let mut r = vec![b(a > c), b(a == a), a.re(), DualNum::re(&c)]; r.extend(dd(-a.clone())); let mut e = a; e += c.clone(); e *= c.clone(); e -= 1.0; e /= 2.0; r.extend(dd(e)); r.push(b(c.is_derivative_zero_())); r }
trait Dz { fn is_derivative_zero_(&self) -> bool; }
impl Dz for num_dual::DualSVec64<3> { fn is_derivative_zero_(&self) -> bool { self.eps == Derivative::none() } }
pub fn nd10(p: P) -> R { let v = Vector3::new(du(&p, 0), du(&p, 1), du(&p, 2)); let m = v.clone().cross(&Vector3::new(du(&p, 3), du(&p, 4), du(&p, 5))); let mut r = dd(v.dot(&m)); r.extend(dd(v.norm())); r.extend(dd(m[1].clone())); r }
pub fn nd11(p: P) -> R { let (f, g) = num_dual::gradient(|v: SVector<DualSVec64<3>, 3>| v[0].clone() * v[1].clone() + v[2].sin(), v3(&p)); let mut r = vec![f]; r.extend(o(g)); r }
pub fn nd12(p: P) -> R { let (f, g) = num_dual::jacobian(|v: SVector<DualSVec64<3>, 3>| Vector2::new(v[0].clone() * v[1].clone(), v[2].sin()), v3(&p)); let mut r = o(f); r.extend(o(g)); r }
pub fn nd13(p: P) -> R { let x = DualDVec64::new(p[0], Derivative::derivative_generic(na::Dyn(4), na::U1, 2)); let y = DualDVec64::from(p[1]); let z = x.sin() * y + 1.0; let mut r = vec![z.re]; r.extend(z.eps.unwrap_generic(na::Dyn(4), na::U1).iter()); r }
pub fn nd14(p: P) -> R { let x: num_dual::Dual64 = num_dual::Dual64::new(p[0], 1.0); let y = x.sin() * x + x.exp(); vec![y.re, y.eps] }
pub fn nd15(p: P) -> R { let x: num_dual::Dual64 = num_dual::Dual64::from_re(p[0]).derivative(); let y = x * x * 3.0; let (f, d) = num_dual::first_derivative(|v| v.cos() * v, p[1]); vec![y.re, y.eps, f, d] }
// ---- more nalgebra geometry and decompositions
pub fn ge08(p: P) -> R { let a = m3(&p); let s = a * a.transpose() + Matrix3::identity() * 2.0; let c = s.cholesky().unwrap(); let mut r = o(c.l()); r.extend(o(c.inverse())); r.extend(o(c.solve(&v3(&p)))); r.push(c.determinant()); r }
pub fn ge09(p: P) -> R { let a = m3(&p); let s = a * a.transpose() + Matrix3::identity() * 2.0; let y = s.lu().solve(&v3(&p)).unwrap(); let z = s.qr().solve(&v3(&p)).unwrap(); let mut r = o(y); r.extend(o(z)); r.push(s.is_invertible() as u8 as f64); r }
pub fn ge10(p: P) -> R { let a = m3(&p); let s = a * a.transpose() + Matrix3::identity() * 2.0; let l = s.cholesky().unwrap().l(); let y = l.solve_lower_triangular(&v3(&p)).unwrap(); let z = l.tr_solve_lower_triangular(&v3(&p)).unwrap(); let mut r = o(y); r.extend(o(z)); let u = l.transpose(); r.extend(o(u.solve_upper_triangular(&v3(&p)).unwrap())); r.extend(o(l.lower_triangle())); r.extend(o(m3(&p).upper_triangle())); r }
pub fn ge13(p: P) -> R { let mut m = dm(&p); m.resize_mut(4, 4, 0.0); let mut k = m.clone().insert_rows(1, 1, 2.0); k = k.remove_column(0); let mut r = od(k); let (a, c) = m.shape(); r.push((a * 10 + c) as f64); r.push(m.is_square() as u8 as f64); r.push(m.nrows() as f64); r }
// ---- more std
pub fn sd01(p: P) -> R { let mut v = p.to_vec(); v.truncate(8); v.rotate_left(2); v.swap_remove(1); v.insert(1, 3.0); v.dedup(); v.drain(..2).collect::<Vec<_>>().into_iter().chain(v.split_off(1)).collect() }
pub fn sd02(p: P) -> R { let a: [f64; 3] = std::array::from_fn(|i| p[i] * 2.0); let c = a.map(|x| x + 1.0); let mut r: R = c.into_iter().zip(a).map(|(x, y)| x * y).collect(); let (h, t) = p.split_at(5); r.extend(h.iter().rev().take(2)); r.extend(t.iter().step_by(3)); if let [x, .., y] = t { r.push(x + y); } if let Some((f, rest)) = h.split_first() { r.push(*f); r.push(rest.len() as f64); } r }
pub fn sd03(p: P) -> R { let mut i = 0; let mut r = vec![]; let x = 'o: loop { while i < 10 { i += 1; if i % 2 == 0 { continue; } if i > 6 { break 'o i; } r.push(p[i]); } break 0; }; r.push(x as f64); r }
pub fn sd04(p: P) -> R { let f: Box<dyn Fn(f64) -> f64> = Box::new(move |x| x * p[0]); let g = |h: &dyn Fn(f64) -> f64, k: f64| h(k) + 1.0; let fs: [fn(f64) -> f64; 2] = [f64::sin, f64::cos]; let mut r = vec![g(&f, 2.0)]; r.extend(fs.iter().map(|h| h(p[1]))); r }
pub fn sd06(p: P) -> R { let r: Result<f64, String> = if true { Ok(p[0]) } else { Err("x".into()) }; let s: Option<f64> = r.as_ref().ok().copied(); let t = (|| -> Option<f64> { let a = s?; let c = p.get(20).or(p.get(3))?; Some(a + c) })(); vec![t.unwrap_or_default(), r.clone().is_ok_and(|x| x < 5.0) as u8 as f64, s.map_or(0.0, |x| x + 1.0), s.filter(|_| false).unwrap_or(9.0), s.xor(None).unwrap_or(4.0), r.unwrap_or_else(|_| 0.0)] }
pub fn sd07(p: P) -> R { let mut s = String::new(); use std::fmt::Write; write!(s, "{}-{:03}", "ab", 7).unwrap(); s.push_str("zz"); let t = s.split('-').map(|x| x.len()).collect::<Vec<_>>(); vec![s.len() as f64, t[0] as f64, t[1] as f64, b(s.starts_with("ab")), b(s.contains("07")), s.find('0').unwrap() as f64, s.chars().rev().count() as f64, "12".parse::<usize>().unwrap() as f64 + p[0], s.to_uppercase().bytes().next().unwrap() as f64] }
pub fn sd08(p: P) -> R { let mut m: BTreeMap<usize, Vec<f64>> = BTreeMap::new(); for (i, x) in p.iter().enumerate() { m.entry(i % 3).or_default().push(*x); } if let Some(v) = m.get_mut(&1) { v[0] += 1.0; } let mut r: R = m.values().map(|v| v.iter().sum()).collect(); r.push(*m.first_key_value().unwrap().0 as f64); r.push(m.range(1..).count() as f64); r.push(m.remove(&2).map(|v| v.len()).unwrap_or(0) as f64); r.extend(m.into_iter().map(|(k, v)| k as f64 + v[0])); r }
pub fn sd09(p: P) -> R { let a = p.iter().copied().fold((0.0, 1.0), |(s, t), x| (s + x, t * x)); let mx = p.iter().copied().fold(f64::NEG_INFINITY, f64::max); let c: Vec<f64> = p.chunks(5).map(|c| c.iter().sum()).collect(); let w: Vec<f64> = p.windows(2).map(|w| w[1] - w[0]).collect(); let mut r = vec![a.0, a.1, mx]; r.extend(c); r.extend(w); r.extend(p.iter().scan(0.0, |s, x| { *s += x; Some(*s) })); r }
pub fn sd10(p: P) -> R { let x = p[0]; vec![x.clamp(-0.5, 0.5), x.signum(), x.abs().sqrt(), x.hypot(p[1]), x.to_radians(), x.rem_euclid(0.3), x.floor(), x.ceil(), x.round(), x.trunc(), x.fract(), x.mul_add(2.0, 1.0), x.max(p[1]).min(p[2]), x.exp2(), x.cbrt(), x.powi(-2), (x * x + 1.0).log10(), x.atan2(p[1]), b(x.is_finite()), b(x.is_sign_negative()), x.total_cmp(&p[1]) as i8 as f64, f64::from_bits(x.to_bits())] }
pub fn sd11(p: P) -> R { let (mut i, mut r) = (7u64, vec![]); i = i.wrapping_shl(3) | 1; r.push(i as f64); r.push((i >> 2 & 0xF) as f64); r.push(i.count_ones() as f64); r.push(i.leading_zeros() as f64); r.push(i.checked_sub(100).map_or(-1.0, |x| x as f64)); r.push(5usize.saturating_sub(9) as f64); r.push((300i32 as u8) as f64); r.push((-1i8 as u8) as f64); r.push(7usize.div_ceil(2) as f64); r.push(7i32.rem_euclid(3) as f64); r.push((2.9f64 as usize) as f64); r.push(usize::MAX.wrapping_add(2) as f64); r.push(9u32.pow(2) as f64); r.push(5usize.abs_diff(9) as f64); r.push(p[0]); r.push(6usize.next_power_of_two() as f64); r.push(u16::from_str_radix("ff", 16).unwrap() as f64); r }
pub fn sd12(p: P) -> R { #[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)] struct T { a: f64, c: Option<usize> } let t = T { a: p[0], ..Default::default() }; let u = T { c: Some(1), ..t }; vec![b(t == u), b(t < u), u.c.unwrap() as f64, std::mem::size_of::<u64>() as f64, std::mem::replace(&mut vec![p[0]], vec![])[0], { let (mut x, mut y) = (p[0], p[1]); std::mem::swap(&mut x, &mut y); x - y }, std::mem::take(&mut Some(p[3])).unwrap()] }
pub fn sd13(p: P) -> R { let mut v: Vec<(usize, f64)> = p.iter().copied().enumerate().collect(); v.sort_unstable_by_key(|t| std::cmp::Reverse(t.0)); let k = v.binary_search_by(|t| 5usize.cmp(&t.0)).unwrap(); let q = v.partition_point(|t| t.0 > 3); let (a, c): (Vec<(usize, f64)>, Vec<(usize, f64)>) = v.iter().copied().partition(|t| t.0 % 2 == 0); let (x, y): (Vec<usize>, Vec<f64>) = v.iter().copied().unzip(); vec![k as f64, q as f64, a.len() as f64, c[0].1, x[2] as f64, y[1], v.iter().map(|t| t.0).max().unwrap() as f64, v.iter().min_by_key(|t| t.0).unwrap().1, v.iter().position(|t| t.0 == 4).unwrap() as f64, b(v.iter().any(|t| t.0 == 3)), b(v.iter().all(|t| t.0 < 12)), v.last().unwrap().1, v.iter().rposition(|t| t.0 > 5).unwrap() as f64] }

// ---------------------------------------------------------------- more
pub fn g_arrays(p: P) -> R { let a: [f64; 4] = std::array::from_fn(|i| p[i] * 2.0); let b = a.map(|x| x + 1.0); let mut v = b.to_vec(); v.extend(a.iter().rev().enumerate().map(|(i, x)| x * i as f64)); v }
pub fn g_minmax_by(p: P) -> R { let p = [p[0], p[1], p[2]]; let m = p.iter().cloned().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap(); let n = p.iter().cloned().min_by(|a, b| a.total_cmp(b)).unwrap(); vec![m, n, p.iter().cloned().fold(f64::NEG_INFINITY, f64::max), p.iter().cloned().fold(f64::INFINITY, f64::min)] }
pub fn g_while(p: P) -> R { let v: Vec<f64> = (0..12).take_while(|i| *i < 7).skip_while(|i| *i < 2).map(|i| p[i]).collect(); let f = (0..12).find_map(|i| if i > 4 { Some(p[i]) } else { None }); let mut r = v; r.push(f.unwrap()); r.push((0..9).rfind(|i| i % 4 == 0).unwrap() as f64); r }
pub fn g_mem(p: P) -> R { let mut a = vec![p[0], p[1]]; let mut b = vec![p[2]]; std::mem::swap(&mut a, &mut b); let c = std::mem::take(&mut a); let d = std::mem::replace(&mut b, vec![p[5]]); let mut o = Some(p[6]); let t = o.take(); vec![a.len() as f64, c[0], d[0], d[1], b[0], t.unwrap(), o.is_none() as u8 as f64] }
pub fn g_splitmut(p: P) -> R { let mut a = p; { let (x, y) = a.split_at_mut(4); for (u, v) in x.iter_mut().zip(y.iter_mut()) { std::mem::swap(u, v); } } if let Some(x) = a.last_mut() { *x += 1.0; } if let [f, .., l] = &mut a { *f -= 1.0; *l *= 2.0; } a.to_vec() }
pub fn g_rchunks(p: P) -> R { let mut r: R = p.rchunks(5).map(|c| c.iter().sum()).collect(); r.extend(p.rsplitn(2, |x| *x > 5.0).map(|s| s.len() as f64)); r }
pub fn g_boxfn(p: P) -> R { let fs: Vec<Box<dyn Fn(f64) -> f64>> = vec![Box::new(|x| x * 2.0), Box::new(move |x| x + p[1]), Box::new(f64::sin)]; fs.iter().map(|f| f(p[0])).collect() }
pub fn g_fnptr(p: P) -> R { fn dbl(x: f64) -> f64 { x + x } let t: [fn(f64) -> f64; 3] = [f64::cos, dbl, |x| x - 1.0]; t.iter().zip(p.iter()).map(|(f, x)| f(*x)).collect() }
pub fn g_rc(p: P) -> R { use std::{rc::Rc, cell::{Cell, RefCell}}; let c = Rc::new(RefCell::new(vec![p[0]])); let d = Rc::clone(&c); d.borrow_mut().push(p[1]); let e = Cell::new(p[2]); e.set(e.get() * 2.0); let k = e.replace(p[3]); let mut r = c.borrow().clone(); r.push(k); r.push(e.get()); r.push(Rc::strong_count(&c) as f64); r }
pub fn g_cow(p: P) -> R { use std::borrow::Cow; let f = |n: usize| -> Cow<[f64]> { if n > 1 { Cow::Owned(vec![p[0]; n]) } else { Cow::Borrowed(&p[..2]) } }; let mut r = f(3).into_owned(); r.extend_from_slice(&f(1)); r }
pub fn g_iters(p: P) -> R { let a = [1usize, 2, 3]; let b = [1usize, 2, 4]; vec![a.iter().eq(b.iter()) as u8 as f64, a.iter().lt(b.iter()) as u8 as f64, a.iter().cmp(b.iter()) as i32 as f64, a.windows(2).all(|w| w[0] <= w[1]) as u8 as f64, a.iter().rev().zip(&b).map(|(x, y)| x * y).sum::<usize>() as f64, p.iter().step_by(3).sum(), p.iter().skip(2).step_by(4).product()] }
pub fn g_labels(p: P) -> R { let mut r = vec![]; 'a: for i in 0..5 { for j in 0..5 { if i * j > 6 { break 'a; } if j > i { continue 'a; } r.push(p[i] * j as f64); } } let x = 'b: { if r.len() > 3 { break 'b 1.0; } 2.0 }; r.push(x); let mut n = 20; let y = loop { n -= 3; if n < 5 { break n; } }; r.push(y as f64); r }
pub fn g_letelse(p: P) -> R { fn f(x: Option<f64>) -> f64 { let Some(y) = x else { return -1.0 }; y * 2.0 } vec![f(Some(p[0])), f(None), if let Some(x) = p.get(3) { *x } else { 0.0 }, matches!(p.get(12), None) as u8 as f64] }
pub fn g_intops(p: P) -> R { let k = 0xdead_beef_1234_5678u64; vec![(k.rotate_left(13) & 0xffff) as f64, (k.rotate_right(7) >> 40) as f64, (k.swap_bytes() & 0xfff) as f64, (k as u32 as f64), (k as i16 as f64), k.checked_add(u64::MAX).is_none() as u8 as f64, (k.wrapping_mul(31) >> 48) as f64, 7i32.rem_euclid(-3) as f64, (-7i32).div_euclid(2) as f64, (300u32 as u8) as f64, (-1i8) as u8 as f64, u8::try_from(300u32).is_err() as u8 as f64, 5usize.saturating_sub(9) as f64, 17u32.ilog2() as f64, 9u64.isqrt() as f64, p[0]] }
pub fn g_floats(p: P) -> R { vec![p[0].clamp(-0.25, 0.25), p[1].max(p[2]), p[3].min(p[4]), p[5].copysign(p[6]), p[7].signum(), p[8].rem_euclid(0.3), p[9].mul_add(p[1], p[2]), p[10].abs().sqrt(), p[11].abs().powf(0.7), p[0].exp(), p[1].abs().ln(), p[2].hypot(p[3]), p[4].tan(), p[5].sinh(), p[6].to_degrees(), (p[7] * 10.0).floor(), (p[8] * 10.0).round(), (p[9] * 10.0).trunc(), (p[10] * 10.0).ceil(), p[0] % 0.2, p[1].is_sign_negative() as u8 as f64, p[2].abs().log2(), p[4].div_euclid(0.4), p[3].asinh(), p[5].atanh(), 1.5f64.acosh()] }
pub fn g_fixedslices(p: P) -> R { let a: [f64; 3] = p[2..5].try_into().unwrap(); let [x, y, z] = a; let (q, r) = p.split_first_chunk::<2>().unwrap(); let mut v = vec![x - y, z, q[1], r[0]]; v.extend(p.first_chunk::<3>().unwrap()); v.extend(p.as_chunks_or(4)); v }
trait ChunksOr { fn as_chunks_or(&self, n: usize) -> Vec<f64>; }
impl ChunksOr for [f64; 12] { fn as_chunks_or(&self, n: usize) -> Vec<f64> { self.chunks(n).map(|c| c[0] * c[n - 1]).collect() } }
pub fn g_na_ranges(p: P) -> R { let m = dm(&p); let mut r: R = m.view_range(1..3, ..2).iter().cloned().collect(); r.extend(m.view((0, 1), (2, 3)).column(1).iter()); r.extend(m.rows_with_step(0, 2, 1).iter()); r.extend(m.columns_with_step(0, 2, 1).iter()); r.extend(m.row(1).transpose().iter()); r.extend(m.rows_range(1..).iter()); r }
pub fn g_na_stat(p: P) -> R { let m = DMatrix::from_row_slice(1, 3, &p[..3]).transpose() * nalgebra::RowVector3::new(1.0, 2.0, 3.0); let v = m.column(2); let (i, j) = m.iamax_full(); vec![m.max(), m.min(), v.imax() as f64, v.imin() as f64, v.argmax().1, i as f64, j as f64, m.row_mean()[1], m.column_mean()[1], m.sum(), m.iter().map(|x| x * x).sum::<f64>(), m.norm(), v.iamax() as f64, m.variance()] }
pub fn g_na_arith(p: P) -> R { let (a, b) = (m3(&p), n3(&p)); let mut c = a; c += &b; c -= a * b; c *= 2.0; c /= 3.0; let mut d = Matrix3::zeros(); a.mul_to(&b, &mut d); let mut e = Matrix3::zeros(); a.add_to(&b, &mut e); let mut f = a; f.gemm(2.0, &a, &b, 0.5); let mut g = v3(&p); g.gemv(1.5, &a, &w3(&p), -1.0); let mut r = o(c); r.extend(d.iter()); r.extend(e.iter()); r.extend(f.iter()); r.extend(g.iter()); r.extend(a.ad_mul(&b).iter()); r.extend(a.adjoint().iter()); r.extend((-a).abs().iter()); r.extend(a.unscale(2.0).iter()); r }
pub fn g_na_comp(p: P) -> R { let (mut a, b) = (m3(&p), n3(&p)); a.component_mul_assign(&b); let mut c = a.component_div(&b); c.cmpy(0.5, &a, &b, 2.0); let mut r = o(a); r.extend(c.iter()); r.extend(a.inf(&b).iter()); r.extend(a.sup(&b).iter()); r.extend(v3(&p).lerp(&w3(&p), 0.3).iter()); r.extend(v3(&p).cap_magnitude(0.1).iter()); r.push(v3(&p).angle(&w3(&p))); r.push(v3(&p).dotc(&w3(&p))); r.push(a.dot(&b)); r }
pub fn g_na_chol(p: P) -> R { let a = m3(&p); let s = a * a.transpose() + Matrix3::identity() * 2.0; let c = s.cholesky().unwrap(); let mut r = o(c.inverse()); r.extend(c.solve(&v3(&p)).iter()); r.push(c.determinant()); r.extend(c.l().iter()); r.extend(c.unpack().iter()); r }
pub fn g_na_lu(p: P) -> R { let a = m3(&p) + Matrix3::identity() * 4.0; let l = a.lu(); let mut r = o(l.try_inverse().unwrap()); r.extend(l.solve(&v3(&p)).unwrap().iter()); r.push(l.determinant()); let mut z = a; r.push(z.try_inverse_mut() as u8 as f64); r.extend(z.iter()); r }
pub fn g_na_sizes(p: P) -> R { let m = dm(&p); let mut r: R = m.clone().insert_fixed_rows::<1>(1, 7.0).iter().cloned().collect(); r.extend(m.clone().remove_fixed_columns::<2>(1).iter()); r.extend(m.clone().resize_vertically(2, 0.0).iter()); r.extend(m.clone().resize_horizontally(5, 3.0).iter()); r.extend(m3(&p).fixed_resize::<2, 4>(1.0).iter()); r.extend(m.reshape_generic(na::Dyn(4), na::Dyn(3)).iter()); r.extend(v3(&p).push(p[0]).iter()); r.extend(v3(&p).to_homogeneous().iter()); r }
pub fn g_na_stack(p: P) -> R { let (a, b) = (m3(&p), n3(&p)); let mut r = o(na::stack![a, b; b, 0]); let v: DVector<f64> = na::stack![v3(&p); w3(&p)].as_slice().to_vec().into(); r.extend(v.iter()); r.extend(na::dvector![p[0], p[1]].iter()); r.extend(na::dmatrix![p[0], p[1]; p[2], p[3]].iter()); r.extend(na::matrix![p[0], p[1]; p[2], p[3]].iter()); r.extend(na::vector![p[4], p[5]].iter()); r }
pub fn g_na_rot(p: P) -> R { let w = v3(&p); let q = na::UnitQuaternion::from_scaled_axis(w); let m = na::Rotation3::from_scaled_axis(w); let v = w3(&p); let mut r: R = (q * v).iter().cloned().collect(); r.extend((m * v).iter()); r.extend((q.inverse() * v).iter()); r.extend(q.to_rotation_matrix().matrix().iter()); r.push(q.i); r.push(q.w); r.extend((q * q).scaled_axis().iter()); r }
pub fn g_na_rot2(p: P) -> R { let a = na::Rotation2::new(p[0]); let b = na::UnitComplex::new(p[1]); let v = Vector2::new(p[2], p[3]); let mut r: R = (a * v).iter().cloned().collect(); r.extend((b * v).iter()); r.push(a.angle()); r.push((b * b).angle()); r.push(a.inverse().angle()); r }
pub fn g_na_quat(p: P) -> R { let a = na::Quaternion::new(p[0], p[1], p[2], p[3]); let b = na::Quaternion::new(p[4], p[5], p[6], p[7]); let c = a * b; let d = a.conjugate() + b * 2.0; vec![c.w, c.i, c.j, c.k, d.w, d.i, d.j, d.k, a.norm(), a.dot(&b), c.scalar(), c.vector()[1], a.coords[3], a.normalize().i] }
pub fn g_na_iter(p: P) -> R { let m = dm(&p); let mut r = vec![]; for (i, c) in m.column_iter().enumerate() { for (j, x) in c.iter().enumerate() { r.push(x * (i + 10 * j) as f64); } } for (a, b) in m.row_iter().zip(m.row_iter().skip(1)) { r.push(a.dot(&b)); } r.extend(m.iter().zip(dm(&p).transpose().iter()).map(|(a, b)| a - b)); let x: DMatrix<f64> = DMatrix::from_iterator(2, 2, p.iter().cloned().take(4)); r.extend(x.iter()); let y = DVector::from_iterator(3, p[3..6].iter().cloned()); r.extend(y.iter()); let s: DVector<f64> = [y.clone(), y * 2.0].iter().sum(); r.extend(s.iter()); r }
pub fn g_enum(p: P) -> R { #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)] enum E { A, B(u8), C { x: i32 } } let v = [E::C { x: 3 }, E::A, E::B(9), E::B(2)]; let mut w = v; w.sort(); let mut r: R = w.iter().map(|e| match e { E::A => 1.0, E::B(n) if *n > 5 => 2.0, E::B(n) => *n as f64 * 10.0, E::C { x } => *x as f64 * 100.0 }).collect(); r.push((v[1] < v[2]) as u8 as f64); r.push(v.iter().position(|e| *e == E::B(2)).unwrap() as f64 * p[0]); let h: HashMap<E, f64> = v.iter().copied().zip(p.iter().copied()).collect(); r.push(h[&E::B(9)]); r }
pub fn g_default_trait(p: P) -> R { #[derive(Default, Clone, PartialEq)] struct S { a: f64, b: Option<usize>, c: Vec<f64> } let mut s = S::default(); let z = s == S::default(); s = S { a: p[0], ..s }; s.c.push(s.a); let t = s.clone(); vec![t.a, t.b.is_none() as u8 as f64, t.c[0], z as u8 as f64] }
pub fn g_entry(p: P) -> R { use std::collections::{hash_map::Entry, btree_map}; let mut h: HashMap<usize, f64> = HashMap::new(); for (i, x) in p.iter().enumerate() { match h.entry(i % 3) { Entry::Occupied(mut o) => { *o.get_mut() += x; } Entry::Vacant(v) => { v.insert(*x); } } } *h.entry(7).or_insert(0.0) += p[2]; h.entry(0).and_modify(|x| *x = -*x).or_insert(1.0); let mut r: R = vec![h[&0], h[&1], h[&2], h[&7]]; let mut b = BTreeMap::new(); for i in [5usize, 2, 9] { if let btree_map::Entry::Vacant(v) = b.entry(i) { v.insert(p[i]); } } r.extend(b.values()); r.extend(b.range(3..).map(|(k, v)| *k as f64 * v)); h.retain(|k, _| *k > 1); r.push(h.len() as f64); r.push(h.remove(&2).unwrap()); r.push(h.get(&2).copied().unwrap_or_default()); r }
pub fn g_strings(p: P) -> R { let s = format!("{} {:>3} {:02}", 5, "ab", 7); let t: String = s.chars().filter(|c| !c.is_whitespace()).collect(); let u = t.find('a').unwrap(); let w: Vec<&str> = "a,b,,c".split(',').collect(); let n: Vec<i32> = "1 2 x 4".split(' ').filter_map(|x| x.parse().ok()).collect(); let (l, r) = "k=v=w".split_once('=').unwrap(); vec![s.len() as f64, u as f64, w.len() as f64, n.iter().sum::<i32>() as f64, l.len() as f64, r.len() as f64, "abc".cmp("abd") as i32 as f64, "x y".replace(' ', "").len() as f64, "Ab".to_lowercase().eq_ignore_ascii_case("aB") as u8 as f64, "é".len() as f64, ("ab".bytes().rev().next().unwrap()) as f64, "tag::x".rsplit("::").next().unwrap().len() as f64, "abcabc".rfind("bc").unwrap() as f64, "a\r\nb".lines().count() as f64, "xx1".trim_start_matches('x').parse::<f64>().unwrap() * p[0], "end".ends_with("nd") as u8 as f64, "  q ".trim_end().len() as f64, "3.5e2".parse::<f64>().unwrap()] }
pub fn g_static(p: P) -> R { static T: [f64; 3] = [1.0, 2.0, 4.0]; const K: usize = 2; thread_local! { static C: std::cell::Cell<u32> = const { std::cell::Cell::new(3) }; } C.with(|c| c.set(c.get() + 1)); static A: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(5); let a = A.fetch_add(0, std::sync::atomic::Ordering::SeqCst); vec![T[K] * p[0], T.iter().sum::<f64>(), C.with(|c| c.get()).min(4) as f64, a as f64] }
pub fn g_once(p: P) -> R { use std::sync::{OnceLock, Mutex}; static O: OnceLock<Vec<f64>> = OnceLock::new(); let v = O.get_or_init(|| vec![1.0, 2.0]); let m = Mutex::new(p[0]); *m.lock().unwrap() += 1.0; let x = *m.lock().unwrap(); vec![v[1], x, m.into_inner().unwrap()] }
pub fn g_generic(p: P) -> R { fn acc<T: Copy + std::ops::Add<Output = T> + Default, I: IntoIterator<Item = T>>(i: I) -> T { i.into_iter().fold(T::default(), |a, b| a + b) } fn ap(f: impl Fn(&f64) -> f64, x: &[f64]) -> Vec<f64> { x.iter().map(f).collect() } fn it<'a>(x: &'a [f64]) -> impl Iterator<Item = f64> + 'a { x.iter().map(|y| y * 3.0) } fn bx<'a>(x: &'a [f64], r: bool) -> Box<dyn Iterator<Item = &'a f64> + 'a> { if r { Box::new(x.iter().rev()) } else { Box::new(x.iter()) } } let mut r = vec![acc(p), acc([1u8, 2]) as f64]; r.extend(ap(|x| x.sin(), &p[..2])); r.extend(it(&p[2..4])); r.extend(bx(&p[..3], true)); r.extend(bx(&p[..3], false)); r }
pub fn g_vecops(p: P) -> R { let mut v = p.to_vec(); v.insert(2, 9.0); v.remove(0); v.truncate(9); v.rotate_right(2); v.splice(1..3, [p[0], p[1], p[2]]); let d: Vec<f64> = v.drain(..2).collect(); v.dedup_by_key(|x| (*x * 1e6) as i64); v.extend(d); v.resize(14, 0.5); v.swap(0, 3); v.fill_with_tail(); let b = v.clone().into_boxed_slice(); let (l, r) = b.split_at(5); let mut o = [r, l].concat(); o.extend_from_within(..2); o.iter_mut().rev().step_by(2).for_each(|x| *x = -*x); o }
trait Tail { fn fill_with_tail(&mut self); }
impl Tail for Vec<f64> { fn fill_with_tail(&mut self) { let n = self.len(); self[n - 2..].fill(4.0); self.copy_within(0..2, 6); } }
pub fn g_tuples(p: P) -> R { let v: Vec<(usize, f64)> = p.iter().copied().enumerate().collect(); let (a, b): (Vec<_>, Vec<_>) = v.into_iter().partition(|(i, _)| i % 3 == 0); let mx = a.iter().map(|t| t.0).max().unwrap(); let s: Result<Vec<f64>, ()> = b.iter().map(|t| if t.0 < 20 { Ok(t.1) } else { Err(()) }).collect(); let q: Option<f64> = a.iter().map(|t| Some(t.1)).sum(); let mut r = s.unwrap(); r.push(mx as f64); r.push(q.unwrap()); r.push((1, 2.0) .1); r.push(((1, 2) < (1, 3)) as u8 as f64); r }
