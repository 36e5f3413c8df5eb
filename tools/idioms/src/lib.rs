#![allow(dead_code, unused, clippy::all)]
//! Ways of writing the same computation: the analysis has to see that they agree.
pub mod dot {
    type A = [f32; 4];
    pub fn base(a: A, b: A) -> f32 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] }
    pub fn index(a: A, b: A) -> f32 { let mut r = 0.0; for i in 0..4 { r += a[i] * b[i]; } r }
    pub fn inclusive(a: A, b: A) -> f32 { let mut r = 0.0; for i in 0..=3 { r += a[i] * b[i]; } r }
    pub fn whil(a: A, b: A) -> f32 { let mut r = 0.0; let mut i = 0; while i < a.len() { r += a[i] * b[i]; i += 1; } r }
    pub fn lop(a: A, b: A) -> f32 { let mut r = 0.0; let mut i = 0; loop { if i == 4 { break r; } r += a[i] * b[i]; i += 1; } }
    pub fn zip_fold(a: A, b: A) -> f32 { a.iter().zip(b.iter()).fold(0.0, |s, (x, y)| s + x * y) }
    pub fn zip_ref_fold(a: A, b: A) -> f32 { a.iter().zip(&b).fold(0.0, |s, (&x, &y)| s + x * y) }
    pub fn zip_map_sum(a: A, b: A) -> f32 { a.iter().zip(b.iter()).map(|(x, y)| x * y).sum() }
    pub fn zip_val_sum(a: A, b: A) -> f32 { a.into_iter().zip(b).map(|(x, y)| x * y).sum::<f32>() }
    pub fn range_map_sum(a: A, b: A) -> f32 { (0..4).map(|i| a[i] * b[i]).sum() }
    pub fn range_fold(a: A, b: A) -> f32 { (0..4).fold(0.0, |s, i| s + a[i] * b[i]) }
    pub fn incl_fold(a: A, b: A) -> f32 { (0..=3).fold(0.0, |s, i| s + a[i] * b[i]) }
    pub fn enumerate(a: A, b: A) -> f32 { let mut r = 0.0; for (i, x) in a.iter().enumerate() { r += x * b[i]; } r }
    pub fn enumerate_val(a: A, b: A) -> f32 { a.into_iter().enumerate().map(|(i, x)| x * b[i]).sum() }
    pub fn rev(a: A, b: A) -> f32 { let mut r = 0.0; for i in (0..4).rev() { r += a[i] * b[i]; } r }
    pub fn iter_rev(a: A, b: A) -> f32 { a.iter().rev().zip(b.iter().rev()).map(|(x, y)| x * y).sum() }
    pub fn for_each(a: A, b: A) -> f32 { let mut r = 0.0; a.iter().zip(b.iter()).for_each(|(x, y)| r += x * y); r }
    pub fn for_zip(a: A, b: A) -> f32 { let mut r = 0.0; for (x, y) in a.iter().zip(b.iter()) { r += x * y; } r }
    pub fn for_zip_val(a: A, b: A) -> f32 { let mut r = 0.0; for (x, y) in a.into_iter().zip(b.into_iter()) { r += x * y; } r }
    pub fn copied(a: A, b: A) -> f32 { a.iter().copied().zip(b.iter().cloned()).map(|(x, y)| x * y).fold(0.0, |p, q| p + q) }
    pub fn reduce(a: A, b: A) -> f32 { a.iter().zip(b.iter()).map(|(x, y)| x * y).reduce(|p, q| p + q).unwrap() }
    pub fn take_skip(a: A, b: A) -> f32 { let h: f32 = (0..4).take(2).map(|i| a[i] * b[i]).sum(); let t: f32 = (0..4).skip(2).map(|i| a[i] * b[i]).sum(); h + t }
    pub fn skip_iter(a: A, b: A) -> f32 { let mut r = a[0] * b[0]; for (x, y) in a.iter().zip(b.iter()).skip(1) { r += x * y; } r }
    pub fn slice_tail(a: A, b: A) -> f32 { let mut r = a[0] * b[0]; for (x, y) in a[1..].iter().zip(&b[1..]) { r += x * y; } r }
    pub fn step(a: A, b: A) -> f32 { let mut r = 0.0; for i in (0..4).step_by(2) { r += a[i] * b[i] + a[i + 1] * b[i + 1]; } r }
    pub fn chain(a: A, b: A) -> f32 { (0..2).chain(2..4).map(|i| a[i] * b[i]).sum() }
    pub fn arr_map(a: A, b: A) -> f32 { let mut i = 0; let p = a.map(|x| { i += 1; x * b[i - 1] }); p[0] + p[1] + p[2] + p[3] }
    pub fn from_fn(a: A, b: A) -> f32 { let p: A = std::array::from_fn(|i| a[i] * b[i]); p.iter().sum() }
    pub fn vec_collect(a: A, b: A) -> f32 { let p: Vec<f32> = a.iter().zip(b.iter()).map(|(x, y)| x * y).collect(); p.iter().sum() }
    pub fn vec_push(a: A, b: A) -> f32 { let mut p = Vec::with_capacity(4); for i in 0..4 { p.push(a[i] * b[i]); } p.into_iter().sum() }
    pub fn chunks(a: A, b: A) -> f32 { a.chunks(2).zip(b.chunks(2)).map(|(x, y)| x[0] * y[0] + x[1] * y[1]).sum() }
    pub fn rec(a: A, b: A) -> f32 { fn go(a: &[f32], b: &[f32]) -> f32 { if a.is_empty() { 0.0 } else { a[0] * b[0] + go(&a[1..], &b[1..]) } } go(&a, &b) }
    pub fn split(a: A, b: A) -> f32 { fn go(a: &[f32], b: &[f32]) -> f32 { match (a.split_first(), b.split_first()) { (Some((x, s)), Some((y, t))) => x * y + go(s, t), _ => 0.0 } } go(&a, &b) }
    pub fn pat(a: A, b: A) -> f32 { let [x, y, z, w] = a; let [p, q, r, s] = b; x * p + y * q + z * r + w * s }
    pub fn slice_pat(a: A, b: A) -> f32 { match (&a[..], &b[..]) { ([x, s @ ..], [p, t @ ..]) => x * p + s[0] * t[0] + s[1] * t[1] + s[2] * t[2], _ => 0.0 } }
    pub fn iter_next(a: A, b: A) -> f32 { let (mut i, mut j) = (a.iter(), b.iter()); let mut r = 0.0; while let (Some(x), Some(y)) = (i.next(), j.next()) { r += x * y; } r }
    pub fn iter_mut(a: A, b: A) -> f32 { let mut p = a; for (x, y) in p.iter_mut().zip(b.iter()) { *x *= *y; } p.iter().copied().sum() }
    pub fn mul_add(a: A, b: A) -> f32 { let mut r = 0.0; for i in 0..4 { r = a[i].mul_add(b[i], r); } r }
    pub fn closure(a: A, b: A) -> f32 { let t = |i: usize| a[i] * b[i]; t(0) + t(1) + t(2) + t(3) }
    pub fn flat(a: A, b: A) -> f32 { (0..2).flat_map(|i| (0..2).map(move |j| 2 * i + j)).map(|i| a[i] * b[i]).sum() }
    pub fn filt(a: A, b: A) -> f32 { (0..8).filter(|i| i % 2 == 0).map(|i| a[i / 2] * b[i / 2]).sum() }
    pub fn filt_map(a: A, b: A) -> f32 { (0..8).filter_map(|i| if i % 2 == 0 { Some(a[i / 2] * b[i / 2]) } else { None }).sum() }
    pub fn scan(a: A, b: A) -> f32 { a.iter().zip(b.iter()).scan(0.0, |s, (x, y)| { *s += x * y; Some(*s) }).last().unwrap() }
    pub fn try_fold(a: A, b: A) -> f32 { a.iter().zip(b.iter()).try_fold(0.0f32, |s, (x, y)| Some(s + x * y)).unwrap_or(0.0) }
    pub fn take_while(a: A, b: A) -> f32 { (0..8).take_while(|&i| i < 4).map(|i| a[i] * b[i]).sum() }
    pub fn peek(a: A, b: A) -> f32 { let mut it = a.iter().zip(b.iter()).peekable(); let mut r = 0.0; while it.peek().is_some() { let (x, y) = it.next().unwrap(); r += x * y; } r }
    pub fn tuple_arr(a: A, b: A) -> f32 { let mut r = 0.0; for (x, y) in [(a[0], b[0]), (a[1], b[1]), (a[2], b[2]), (a[3], b[3])] { r += x * y; } r }
    pub fn each_ref(a: A, b: A) -> f32 { let mut r = 0.0; for (x, y) in a.each_ref().into_iter().zip(b.each_ref()) { r += x * y; } r }
    pub fn get(a: A, b: A) -> f32 { let mut r = 0.0; for i in 0..10 { if let (Some(x), Some(y)) = (a.get(i), b.get(i)) { r += x * y; } } r }
    pub fn swap_dot(a: A, b: A) -> f32 { let mut p = a; let mut q = b; p.swap(0, 3); q.swap(0, 3); let mut r = 0.0; for i in 0..4 { r += p[i] * q[i]; } r }
    pub fn boxed(a: A, b: A) -> f32 { let f: Box<dyn Fn(usize) -> f32> = Box::new(move |i| a[i] * b[i]); f(0) + f(1) + f(2) + f(3) }
    pub fn fnptr(a: A, b: A) -> f32 { fn m(x: f32, y: f32) -> f32 { x * y } let f: fn(f32, f32) -> f32 = m; (0..4).map(|i| f(a[i], b[i])).sum() }
    pub fn windows(a: A, b: A) -> f32 { let mut r = a[3] * b[3]; for (x, y) in a.windows(2).zip(b.windows(2)) { r += x[0] * y[0]; } r }
    pub fn concat(a: A, b: A) -> f32 { let mut p = vec![a[0], a[1]]; p.extend_from_slice(&a[2..]); let q = b.to_vec(); let mut r = 0.0; for i in 0..p.len() { r += p[i] * q[i]; } r }
    pub fn extend(a: A, b: A) -> f32 { let mut p: Vec<f32> = Vec::new(); p.extend(a.iter().zip(b.iter()).map(|(x, y)| x * y)); p.iter().sum() }
    pub fn inspect(a: A, b: A) -> f32 { let mut r = 0.0; let n = a.iter().zip(b.iter()).inspect(|(x, y)| r += *x * *y).count(); if n == 4 { r } else { 0.0 } }
    pub fn product(a: A, b: A) -> f32 { (0..4).map(|i| [a[i], b[i]].iter().product::<f32>()).sum() }
    pub fn neg_neg(a: A, b: A) -> f32 { -(0..4).map(|i| -a[i] * b[i]).fold(-0.0, |x, y| x + y) }
    pub fn successors(a: A, b: A) -> f32 { std::iter::successors(Some(0usize), |&i| if i < 3 { Some(i + 1) } else { None }).map(|i| a[i] * b[i]).sum() }
    pub fn once(a: A, b: A) -> f32 { std::iter::once(a[0] * b[0]).chain((1..4).map(|i| a[i] * b[i])).sum() }
    pub fn array_zip_map(a: A, b: A) -> f32 { let mut it = b.iter(); a.map(|x| x * *it.next().unwrap()).iter().sum() }
    pub fn label(a: A, b: A) -> f32 { let mut r = 0.0; 'o: for i in 0..2 { for j in 0..8 { if j == 2 { continue 'o; } r += a[2 * i + j] * b[2 * i + j]; } } r }
    pub fn opt_chain(a: A, b: A) -> f32 { (0..4).map(|i| a.get(i).zip(b.get(i)).map(|(x, y)| x * y).unwrap_or_default()).sum() }
}
pub mod big {
    type A = [f32; 3];
    pub fn base(a: A) -> f32 { let m = if a[0] > a[1] { a[0] } else { a[1] }; if m > a[2] { m } else { a[2] } }
    pub fn max(a: A) -> f32 { a[0].max(a[1]).max(a[2]) }
    pub fn fold(a: A) -> f32 { a.iter().copied().fold(f32::NEG_INFINITY, f32::max) }
    pub fn fold_clos(a: A) -> f32 { a.iter().fold(f32::NEG_INFINITY, |m, &x| m.max(x)) }
    pub fn lop(a: A) -> f32 { let mut m = a[0]; for &x in &a[1..] { if x > m { m = x; } } m }
    pub fn max_by(a: A) -> f32 { *a.iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap() }
    pub fn max_by_total(a: A) -> f32 { a.iter().copied().max_by(|x, y| x.total_cmp(y)).unwrap() }
    pub fn min_by(a: A) -> f32 { -a.iter().map(|x| -x).min_by(|x, y| x.partial_cmp(y).unwrap()).unwrap() }
    pub fn reduce(a: A) -> f32 { a.into_iter().reduce(f32::max).unwrap() }
    pub fn matc(a: A) -> f32 { match (a[0] >= a[1], a[1] >= a[2], a[0] >= a[2]) { (true, _, true) => a[0], (true, _, false) => a[2], (false, true, _) => a[1], (false, false, _) => a[2] } }
    pub fn cmp(a: A) -> f32 { use std::cmp::Ordering::*; let m = match a[0].partial_cmp(&a[1]) { Some(Less) => a[1], _ => a[0] }; match m.partial_cmp(&a[2]) { Some(Less) | None => a[2], Some(Equal) | Some(Greater) => m } }
    pub fn idx(a: A) -> f32 { let mut k = 0; for i in 1..3 { if a[i] > a[k] { k = i; } } a[k] }
    pub fn idx_iter(a: A) -> f32 { let k = (1..3).fold(0, |k, i| if a[i] > a[k] { i } else { k }); a[k] }
    pub fn enum_max(a: A) -> f32 { let (k, _) = a.iter().enumerate().max_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap()).unwrap(); a[k] }
    pub fn sorted(a: A) -> f32 { let mut b = a; if b[0] > b[1] { b.swap(0, 1); } if b[1] > b[2] { b.swap(1, 2); } b[2] }
    pub fn find(a: A) -> f32 { *a.iter().find(|x| a.iter().all(|y| y <= x)).unwrap() }
    pub fn opt(a: A) -> f32 { let mut m: Option<f32> = None; for x in a { m = match m { Some(y) if y >= x => Some(y), _ => Some(x) }; } m.unwrap() }
    pub fn opt_map_or(a: A) -> f32 { let mut m: Option<f32> = None; for x in a { m = Some(m.map_or(x, |y| y.max(x))); } m.unwrap() }
    pub fn filt(a: A) -> f32 { let mut m = a[0]; for x in a.iter().filter(|x| **x > a[0]) { if *x > m { m = *x; } } m }
}
pub mod any {
    type A = [f32; 3];
    pub fn base(a: A) -> bool { a[0] > 0.0 && a[1] > 0.0 && a[2] > 0.0 }
    pub fn all(a: A) -> bool { a.iter().all(|x| *x > 0.0) }
    pub fn all_zip(a: A) -> bool { a.iter().zip([0.0f32; 3].iter()).all(|(x, y)| x > y) }
    pub fn range(a: A) -> bool { (0..3).all(|i| a[i] > 0.0) }
    pub fn any(a: A) -> bool { !a.iter().any(|x| !(*x > 0.0)) }
    pub fn count(a: A) -> bool { a.iter().filter(|x| **x > 0.0).count() == 3 }
    pub fn fold(a: A) -> bool { a.iter().fold(true, |b, x| b & (*x > 0.0)) }
    pub fn pos(a: A) -> bool { a.iter().position(|x| !(*x > 0.0)).is_none() }
    pub fn find(a: A) -> bool { a.iter().find(|x| !(**x > 0.0)).is_none() }
    pub fn early(a: A) -> bool { for x in a { if !(x > 0.0) { return false; } } true }
    pub fn rev(a: A) -> bool { a.iter().rev().all(|x| *x > 0.0) }
    pub fn mapped(a: A) -> bool { a.map(|x| x > 0.0) == [true; 3] }
    pub fn not_all(a: A) -> bool { matches!(a.map(|x| x > 0.0), [true, true, true]) }
    pub fn find_map(a: A) -> bool { a.iter().find_map(|x| if *x > 0.0 { None } else { Some(()) }).is_none() }
    pub fn try_each(a: A) -> bool { a.iter().try_for_each(|x| if *x > 0.0 { Ok(()) } else { Err(()) }).is_ok() }
    pub fn then(a: A) -> bool { (a[0] > 0.0).then(|| a[1] > 0.0).unwrap_or(false) && (a[2] > 0.0).then_some(true).is_some() }
    pub fn question(a: A) -> bool { fn f(x: f32) -> Option<()> { if x > 0.0 { Some(()) } else { None } } fn g(a: [f32; 3]) -> Option<()> { f(a[0])?; f(a[1])?; f(a[2]) } g(a).is_some() }
    pub fn letelse(a: A) -> bool { let f = |x: f32| if x > 0.0 { Some(x) } else { None }; let Some(_) = f(a[0]) else { return false }; let Some(_) = f(a[1]) else { return false }; f(a[2]).is_some() }
    pub fn collect_opt(a: A) -> bool { a.iter().map(|x| if *x > 0.0 { Some(*x) } else { None }).collect::<Option<Vec<f32>>>().is_some() }
}
pub mod arr {
    type A = [f32; 3];
    pub fn base(a: A, b: A) -> A { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
    pub fn mutate(a: A, b: A) -> A { let mut r = a; for i in 0..3 { r[i] += b[i]; } r }
    pub fn zip_mut(a: A, b: A) -> A { let mut r = a; r.iter_mut().zip(b.iter()).for_each(|(x, y)| *x += y); r }
    pub fn for_mut(a: A, b: A) -> A { let mut r = a; for (x, y) in r.iter_mut().zip(b) { *x += y; } r }
    pub fn enum_mut(a: A, b: A) -> A { let mut r = a; for (i, x) in r.iter_mut().enumerate() { *x += b[i]; } r }
    pub fn from_fn(a: A, b: A) -> A { std::array::from_fn(|i| a[i] + b[i]) }
    pub fn map(a: A, b: A) -> A { let mut i = 0; a.map(|x| { let y = x + b[i]; i += 1; y }) }
    pub fn try_into(a: A, b: A) -> A { let v: Vec<f32> = a.iter().zip(&b).map(|(x, y)| x + y).collect(); v.try_into().unwrap() }
    pub fn slice_into(a: A, b: A) -> A { let v: Vec<f32> = (0..3).map(|i| a[i] + b[i]).collect(); v[..].try_into().unwrap() }
    pub fn zeros(a: A, b: A) -> A { let mut r = [0.0; 3]; for (k, r) in r.iter_mut().enumerate() { *r = a[k] + b[k]; } r }
    pub fn default(a: A, b: A) -> A { let mut r = A::default(); for k in 0..r.len() { r[k] = a[k] + b[k]; } r }
    pub fn copy(a: A, b: A) -> A { let mut r = [0.0; 3]; r.copy_from_slice(&a); for k in 0..r.len() { r[k] += b[k]; } r }
    pub fn rot(a: A, b: A) -> A { let mut r = [0.0; 3]; for k in 0..3 { let j = (k + 1) % 3; r[j] = a[j] + b[j]; } r }
    pub fn chunks_mut(a: A, b: A) -> A { let mut r = a; for (k, c) in r.chunks_mut(1).enumerate() { c[0] += b[k]; } r }
    pub fn each_mut(a: A, b: A) -> A { let mut r = a; let [x, y, z] = &mut r; *x += b[0]; *y += b[1]; *z += b[2]; r }
    pub fn helper(a: A, b: A) -> A { fn add(r: &mut [f32], k: usize, v: f32) { r[k] = r[k] + v; } let mut r = a; add(&mut r, 0, b[0]); add(&mut r, 1, b[1]); add(&mut r, 2, b[2]); r }
    pub fn split_mut(a: A, b: A) -> A { let mut r = a; let (h, t) = r.split_at_mut(1); h[0] += b[0]; t[0] += b[1]; t[1] += b[2]; r }
    pub fn macro_(a: A, b: A) -> A { macro_rules! s { ($($i:expr),*) => { [$(a[$i] + b[$i]),*] } } s!(0, 1, 2) }
}
pub mod quad {
    //! two candidates, the first acceptable one
    type P = (f32, f32, f32);
    fn ok(t: f32, m: f32) -> Option<f32> { if t >= 0.0 && t <= m { Some(t) } else { None } }
    pub fn base(p: P) -> (f32, bool) { let (a, b, m) = p; if a >= 0.0 && a <= m { (a, true) } else if b >= 0.0 && b <= m { (b, true) } else { (0.0, false) } }
    fn out(o: Option<f32>) -> (f32, bool) { match o { Some(x) => (x, true), None => (0.0, false) } }
    pub fn or_else(p: P) -> (f32, bool) { out(ok(p.0, p.2).or_else(|| ok(p.1, p.2))) }
    pub fn or(p: P) -> (f32, bool) { out(ok(p.0, p.2).or(ok(p.1, p.2))) }
    pub fn find_map(p: P) -> (f32, bool) { out([p.0, p.1].iter().find_map(|&t| ok(t, p.2))) }
    pub fn find(p: P) -> (f32, bool) { out([p.0, p.1].into_iter().find(|t| (0.0..=p.2).contains(t))) }
    pub fn filter_next(p: P) -> (f32, bool) { out(vec![p.0, p.1].into_iter().filter(|&t| t >= 0.0).filter(|&t| t <= p.2).next()) }
    pub fn loop_ret(p: P) -> (f32, bool) { for t in [p.0, p.1] { if t < 0.0 || t > p.2 { continue; } return (t, true); } (0.0, false) }
    pub fn map_or(p: P) -> (f32, bool) { ok(p.0, p.2).or_else(|| ok(p.1, p.2)).map_or((0.0, false), |x| (x, true)) }
    pub fn map_unwrap(p: P) -> (f32, bool) { ok(p.0, p.2).map(|x| (x, true)).or_else(|| ok(p.1, p.2).map(|x| (x, true))).unwrap_or((0.0, false)) }
    pub fn iflet(p: P) -> (f32, bool) { if let Some(x) = ok(p.0, p.2) { (x, true) } else if let Some(x) = ok(p.1, p.2) { (x, true) } else { (0.0, false) } }
    pub fn matc(p: P) -> (f32, bool) { match (ok(p.0, p.2), ok(p.1, p.2)) { (Some(x), _) => (x, true), (None, Some(y)) => (y, true), (None, None) => (0.0, false) } }
    pub fn guard(p: P) -> (f32, bool) { match p { (a, _, m) if a >= 0.0 && a <= m => (a, true), (_, b, m) if b >= 0.0 && b <= m => (b, true), _ => (0.0, false) } }
    pub fn then_some(p: P) -> (f32, bool) { let f = |t: f32| (t >= 0.0 && t <= p.2).then_some(t); out(f(p.0).or_else(|| f(p.1))) }
    pub fn then(p: P) -> (f32, bool) { let f = |t: f32| (!(t < 0.0) && !(t > p.2)).then(|| t); out(f(p.0).or_else(|| f(p.1))) }
    pub fn filt(p: P) -> (f32, bool) { out(Some(p.0).filter(|&t| t >= 0.0 && t <= p.2).or(Some(p.1).filter(|&t| t >= 0.0 && t <= p.2))) }
    pub fn flatten(p: P) -> (f32, bool) { out([ok(p.0, p.2), ok(p.1, p.2)].into_iter().flatten().next()) }
    pub fn xor(p: P) -> (f32, bool) { let mut r = None; for t in [p.1, p.0] { if let Some(x) = ok(t, p.2) { r.replace(x); } } out(r) }
    pub fn insert(p: P) -> (f32, bool) { let mut r: Option<f32> = None; for t in [p.0, p.1] { if r.is_none() { r = ok(t, p.2); } } (r.unwrap_or_default(), r.is_some()) }
    pub fn get_or(p: P) -> (f32, bool) { let mut r = ok(p.0, p.2); if r.is_none() { if let Some(y) = ok(p.1, p.2) { r.get_or_insert(y); } } out(r.take()) }
    pub fn result(p: P) -> (f32, bool) { fn f(t: f32, m: f32) -> Result<f32, ()> { if t < 0.0 { return Err(()); } if t > m { return Err(()); } Ok(t) } out(f(p.0, p.2).or_else(|_| f(p.1, p.2)).ok()) }
    pub fn ok_or(p: P) -> (f32, bool) { fn g(p: P) -> Result<f32, bool> { if let Some(x) = ok(p.0, p.2) { return Ok(x); } let y = ok(p.1, p.2).ok_or(false)?; Ok(y) } match g(p) { Ok(x) => (x, true), Err(b) => (0.0, b) } }
    pub fn and_then(p: P) -> (f32, bool) { let f = |t: f32| Some(t).and_then(|t| if t >= 0.0 { Some(t) } else { None }).and_then(|t| if t <= p.2 { Some(t) } else { None }); out(f(p.0).or_else(|| f(p.1))) }
    pub fn question(p: P) -> (f32, bool) { fn f(t: f32, m: f32) -> Option<f32> { let u = if t >= 0.0 { Some(t) } else { None }?; if u <= m { Some(u) } else { None } } out(f(p.0, p.2).or_else(|| f(p.1, p.2))) }
    pub fn is_some_and(p: P) -> (f32, bool) { let a = ok(p.0, p.2); if a.is_some_and(|_| true) { (a.unwrap(), true) } else { let b = ok(p.1, p.2); if b.is_none() { (0.0, false) } else { (b.expect("b"), true) } } }
    pub fn zip_(p: P) -> (f32, bool) { let f = |t: f32| { let a = (t >= 0.0).then_some(t); let b = (t <= p.2).then_some(()); a.zip(b).map(|(t, _)| t) }; out(f(p.0).or(f(p.1))) }
    pub fn enu(p: P) -> (f32, bool) { enum Hit { No, At(f32) } impl Hit { fn of(t: f32, m: f32) -> Hit { if (0.0..=m).contains(&t) { Hit::At(t) } else { Hit::No } } fn or(self, o: Hit) -> Hit { match self { Hit::No => o, h => h } } } match Hit::of(p.0, p.2).or(Hit::of(p.1, p.2)) { Hit::At(x) => (x, true), Hit::No => (0.0, false) } }
    pub fn position(p: P) -> (f32, bool) { let c = [p.0, p.1]; match c.iter().position(|t| *t >= 0.0 && *t <= p.2) { Some(i) => (c[i], true), None => (0.0, false) } }
    pub fn lets(p: P) -> (f32, bool) { let Some(x) = ok(p.0, p.2).or_else(|| ok(p.1, p.2)) else { return (0.0, false) }; (x, true) }
    pub fn matches_(p: P) -> (f32, bool) { let a = ok(p.0, p.2); let b = ok(p.1, p.2); if matches!(a, Some(_)) { (a.unwrap_or(0.0), true) } else { (b.unwrap_or(0.0), matches!(b, Some(_))) } }
    pub fn dynf(p: P) -> (f32, bool) { let fs: [&dyn Fn() -> Option<f32>; 2] = [&|| ok(p.0, p.2), &|| ok(p.1, p.2)]; for f in fs { if let Some(x) = f() { return (x, true); } } (0.0, false) }
    pub fn trait_(p: P) -> (f32, bool) { trait T { fn get(&self, m: f32) -> Option<f32>; fn first(&self, o: &dyn T, m: f32) -> Option<f32> { self.get(m).or_else(|| o.get(m)) } } impl T for f32 { fn get(&self, m: f32) -> Option<f32> { ok(*self, m) } } out(p.0.first(&p.1, p.2)) }
    pub fn label(p: P) -> (f32, bool) { let r = 'a: { for &t in &[p.0, p.1] { if t >= 0.0 && t <= p.2 { break 'a Some(t); } } None }; out(r) }
    pub fn while_let(p: P) -> (f32, bool) { let mut c = vec![p.1, p.0]; while let Some(t) = c.pop() { if let Some(x) = ok(t, p.2) { return (x, true); } } (0.0, false) }
    pub fn rec(p: P) -> (f32, bool) { fn go(c: &[f32], m: f32) -> Option<f32> { let (h, t) = c.split_first()?; ok(*h, m).or_else(|| go(t, m)) } out(go(&[p.0, p.1], p.2)) }
    pub fn fold(p: P) -> (f32, bool) { out([p.0, p.1].iter().fold(None, |r: Option<f32>, &t| r.or_else(|| ok(t, p.2)))) }
    pub fn rc(p: P) -> (f32, bool) { let c = std::rc::Rc::new([p.0, p.1]); let d = c.clone(); out(c.iter().copied().find_map(|t| ok(t, p.2)).or(ok(d[1], p.2))) }
    pub fn swap(p: P) -> (f32, bool) { let (mut a, mut b) = (p.1, p.0); std::mem::swap(&mut a, &mut b); out(ok(a, p.2).or_else(|| ok(b, p.2))) }
    pub fn last(p: P) -> (f32, bool) { out([p.1, p.0].iter().filter_map(|&t| ok(t, p.2)).last()) }
    pub fn rev(p: P) -> (f32, bool) { out([p.1, p.0].iter().rev().filter_map(|&t| ok(t, p.2)).next()) }
    pub fn nth(p: P) -> (f32, bool) { out([p.0, p.1].iter().filter_map(|&t| ok(t, p.2)).nth(0)) }
    pub fn partition(p: P) -> (f32, bool) { let (a, _): (Vec<f32>, Vec<f32>) = [p.0, p.1].into_iter().partition(|&t| t >= 0.0 && t <= p.2); (a.first().copied().unwrap_or(0.0), !a.is_empty()) }
    pub fn retain(p: P) -> (f32, bool) { let mut a = vec![p.0, p.1]; a.retain(|&t| t >= 0.0 && t <= p.2); match a.as_slice() { [] => (0.0, false), [x, ..] => (*x, true) } }
    pub fn skip_while(p: P) -> (f32, bool) { out([p.0, p.1].into_iter().skip_while(|&t| t < 0.0 || t > p.2).next()) }
    pub fn cow(p: P) -> (f32, bool) { const Z: (f32, bool) = (0.0, false); static K: [usize; 2] = [0, 1]; let c = [p.0, p.1]; for k in K { if (0.0..=p.2).contains(&c[k]) { return (c[k], true); } } Z }
}
pub mod scal {
    type P = (f32, f32);
    pub fn base(p: P) -> (f32, f32, f32, f32) { let (x, y) = p; (x * x, if x < 0.0 { -x } else { x }, 1.0 / (y * y + 1.0), (x * x + y * y).sqrt()) }
    pub fn powi(p: P) -> (f32, f32, f32, f32) { (p.0.powi(2), p.0.abs(), (p.1.powi(2) + 1.0).recip(), p.0.hypot(p.1)) }
    pub fn powf(p: P) -> (f32, f32, f32, f32) { (f32::powf(p.0, 2.0), f32::max(p.0, -p.0), (p.1.mul_add(p.1, 1.0)).powi(-1), f32::sqrt(p.0.powi(2) + p.1.powi(2))) }
    pub fn max(p: P) -> (f32, f32, f32, f32) { (p.0 * p.0, (-p.0).max(p.0), 1.0 / p.1.mul_add(p.1, 1.0), (p.0 * p.0 + p.1 * p.1).powf(0.5)) }
    pub fn sgn(p: P) -> (f32, f32, f32, f32) { (p.0.abs() * p.0.abs(), (p.0 * p.0).sqrt(), 1f32 / (1.0 + p.1 * p.1), f32::hypot(p.0, p.1)) }
    pub fn norm(p: P) -> (f32, f32, f32, f32) { let m = [p.0, p.1].iter().map(|v| v * v).sum::<f32>().sqrt(); (std::ops::Mul::mul(p.0, p.0), p.0.max(0.0) - p.0.min(0.0), { let d = 1.0 + p.1 * p.1; d / (d * d) }, m) }
}
pub mod clampm {
    type P = (f32, f32, f32);
    pub fn base(p: P) -> f32 { let (x, a, b) = (p.0, p.1, p.1 + p.2 * p.2); if x < a { a } else if x > b { b } else { x } }
    pub fn minmax(p: P) -> f32 { p.0.max(p.1).min(p.1 + p.2 * p.2) }
    pub fn maxmin(p: P) -> f32 { p.0.min(p.1 + p.2 * p.2).max(p.1) }
    pub fn std(p: P) -> f32 { p.0.clamp(p.1, p.1 + p.2.powi(2)) }
    pub fn cmp(p: P) -> f32 { use std::cmp::Ordering::*; let b = p.1 + p.2 * p.2; match (p.0.partial_cmp(&p.1), p.0.partial_cmp(&b)) { (Some(Less), _) => p.1, (_, Some(Greater)) => b, _ => p.0 } }
    pub fn fold(p: P) -> f32 { let b = p.1 + p.2 * p.2; [p.0, p.1].iter().copied().fold(f32::NEG_INFINITY, f32::max).min(b) }
    pub fn sort(p: P) -> f32 { let mut a = [p.0, p.1, p.1 + p.2 * p.2]; a.sort_by(|x, y| x.partial_cmp(y).unwrap()); a[1] }
    pub fn bubble(p: P) -> f32 { let mut a = [p.0, p.1, p.1 + p.2 * p.2]; for i in 0..3 { for j in 0..2 - i.min(2) { if a[j] > a[j + 1] { a.swap(j, j + 1); } } } a[1] }
    pub fn range(p: P) -> f32 { let r = p.1..=p.1 + p.2 * p.2; if r.contains(&p.0) { p.0 } else if p.0 < *r.start() { *r.start() } else { *r.end() } }
    pub fn maxby(p: P) -> f32 { let b = p.1 + p.2 * p.2; let m = [p.0, p.1].into_iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap(); if m < b { m } else { b } }
    pub fn total(p: P) -> f32 { let b = p.1 + p.2 * p.2; *[p.0.max(p.1), b].iter().min_by(|x, y| x.total_cmp(y)).unwrap() }
}
pub mod consts {
    type P = (f32, f32, f32);
    pub fn base(p: P) -> (f32, bool) { (2.0 * p.0 - p.1 + 0.5 * p.2, p.0 < p.1) }
    pub fn arr(p: P) -> (f32, bool) { const W: [f32; 3] = [2.0, -1.0, 0.5]; (W[0] * p.0 + W[1] * p.1 + W[2] * p.2, p.0 < p.1) }
    pub fn arr_iter(p: P) -> (f32, bool) { const W: [f32; 3] = [2.0, -1.0, 0.5]; (W.iter().zip([p.0, p.1, p.2]).map(|(w, x)| w * x).sum(), p.0 < p.1) }
    pub fn slice(p: P) -> (f32, bool) { const W: &[f32] = &[2.0, -1.0, 0.5]; let v = [p.0, p.1, p.2]; let mut s = 0.0; for (i, w) in W.iter().enumerate() { s += w * v[i]; } (s, p.0 < p.1) }
    pub fn tup(p: P) -> (f32, bool) { const W: (f32, f32, f32) = (2.0, -1.0, 0.5); (W.0 * p.0 + W.1 * p.1 + W.2 * p.2, p.0 < p.1) }
    pub fn stat(p: P) -> (f32, bool) { static W: [f32; 3] = [2.0, -1.0, 0.5]; (W[0] * p.0 + W[1] * p.1 + W[2] * p.2, p.0 < p.1) }
    pub fn stat_iter(p: P) -> (f32, bool) { static W: [f32; 3] = [2.0, -1.0, 0.5]; let v = [p.0, p.1, p.2]; let mut s = 0.0; for (w, x) in W.iter().zip(&v) { s += w * x; } (s, p.0 < p.1) }
    pub fn idx(p: P) -> (f32, bool) { const K: [usize; 3] = [2, 0, 1]; const W: [f32; 3] = [2.0, -1.0, 0.5]; let v = [p.0, p.1, p.2]; let mut s = 0.0; for k in K { s += W[k] * v[k]; } (s, p.0 < p.1) }
    pub fn idx2(p: P) -> (f32, bool) { const K: [(usize, f32); 3] = [(2, 0.5), (0, 2.0), (1, -1.0)]; let v = [p.0, p.1, p.2]; let mut s = 0.0; for (k, w) in K { s += w * v[k]; } (s, p.0 < p.1) }
    pub fn nested(p: P) -> (f32, bool) { const M: [[f32; 3]; 1] = [[2.0, -1.0, 0.5]]; let v = [p.0, p.1, p.2]; (M.iter().map(|r| r.iter().zip(&v).map(|(a, b)| a * b).sum::<f32>()).sum(), p.0 < p.1) }
    pub fn stru(p: P) -> (f32, bool) { #[derive(Clone, Copy)] struct W { a: f32, b: f32, c: [f32; 1] } impl W { const DEF: W = W { a: 2.0, b: -1.0, c: [0.5] }; fn ap(&self, p: P) -> f32 { self.a * p.0 + self.b * p.1 + self.c[0] * p.2 } } (W::DEF.ap(p), p.0 < p.1) }
    pub fn opt(p: P) -> (f32, bool) { const O: Option<f32> = Some(2.0); const N: Option<f32> = None; (O.unwrap() * p.0 - p.1 + N.unwrap_or(0.5) * p.2, p.0 < p.1) }
    pub fn fns(p: P) -> (f32, bool) { const F: [fn(P) -> f32; 3] = [|p| 2.0 * p.0, |p| -p.1, |p| 0.5 * p.2]; (F.iter().map(|f| f(p)).sum(), p.0 < p.1) }
    pub fn cfn(p: P) -> (f32, bool) { const fn w(i: usize) -> f32 { match i { 0 => 2.0, 1 => -1.0, _ => 0.5 } } const W: [f32; 3] = [w(0), w(1), w(2)]; (W[0] * p.0 + W[1] * p.1 + W[2] * p.2, p.0 < p.1) }
    pub fn boolc(p: P) -> (f32, bool) { const B: bool = true; const S: [bool; 3] = [true, false, true]; let v = [2.0 * p.0, p.1, 0.5 * p.2]; let mut s = 0.0; for i in 0..3 { if S[i] == B { s += v[i] } else { s -= v[i] } } (s, p.0 < p.1) }
    pub fn assoc(p: P) -> (f32, bool) { trait A { const W: [f32; 3]; } struct X; impl A for X { const W: [f32; 3] = [2.0, -1.0, 0.5]; } fn go<T: A>(p: P) -> f32 { T::W[0] * p.0 + T::W[1] * p.1 + T::W[2] * p.2 } (go::<X>(p), p.0 < p.1) }
    pub fn gen(p: P) -> (f32, bool) { fn go<const N: usize>(v: [f32; N], w: [f32; N]) -> f32 { let mut s = 0.0; for i in 0..N { s += v[i] * w[i]; } s } (go([p.0, p.1], [2.0, -1.0]) + go([p.2], [0.5]), p.0 < p.1) }
    pub fn enu(p: P) -> (f32, bool) { #[derive(Clone, Copy, PartialEq)] enum Ax { X, Y, Z } impl Ax { const ALL: [Ax; 3] = [Ax::X, Ax::Y, Ax::Z]; fn w(self) -> f32 { match self { Ax::X => 2.0, Ax::Y => -1.0, Ax::Z => 0.5 } } } let v = [p.0, p.1, p.2]; let mut s = 0.0; for a in Ax::ALL { s += a.w() * v[a as usize]; } (s, p.0 < p.1) }
    pub fn strct(p: P) -> (f32, bool) { const V: [P; 2] = [(2.0, -1.0, 0.0), (0.0, 0.0, 0.5)]; let mut s = 0.0; for &(a, b, c) in V.iter() { s += a * p.0 + b * p.1 + c * p.2; } (s, p.0 < p.1) }
    pub fn sort3(p: P) -> (f32, bool) { let mut a = [p.0, p.1]; a.sort_by(|x, y| x.partial_cmp(y).unwrap()); (2.0 * p.0 - p.1 + 0.5 * p.2, a[0] == p.0 && a[1] > p.0) }
}
pub mod mid {
    type P = (f32, f32, f32);
    pub fn base(p: P) -> f32 { let (a, b, c) = p; a.min(b).max(a.max(b).min(c)) }
    pub fn sort(p: P) -> f32 { let mut a = [p.0, p.1, p.2]; a.sort_by(|x, y| x.partial_cmp(y).unwrap()); a[1] }
    pub fn unst(p: P) -> f32 { let mut a = vec![p.0, p.1, p.2]; a.sort_unstable_by(|x, y| x.total_cmp(y)); a[1] }
    pub fn desc(p: P) -> f32 { let mut a = [p.0, p.1, p.2]; a.sort_by(|x, y| y.partial_cmp(x).unwrap_or(std::cmp::Ordering::Equal)); a[1] }
    pub fn bubble(p: P) -> f32 { let mut a = [p.0, p.1, p.2]; for i in 0..3 { for j in 0..2 { if a[j] > a[j + 1] { a.swap(j, j + 1); } } } a[1] }
    pub fn ifs(p: P) -> f32 { let (mut a, mut b, mut c) = p; if a > b { std::mem::swap(&mut a, &mut b); } if b > c { std::mem::swap(&mut b, &mut c); } if a > b { std::mem::swap(&mut a, &mut b); } b }
    pub fn sum(p: P) -> f32 { p.0 + p.1 + p.2 - p.0.min(p.1).min(p.2) - p.0.max(p.1).max(p.2) }
}
