//! C15: layout metadata.
//! Bounds: all chains of two view operations (slice, index, transpose, broadcast, reshape, unsqueeze, squeeze, diagonal, view) over all arrays of
//! rank 0..=3 with dimensions 1..=3 (1..=2 at rank 3), chains of three over five shapes (thorough: all of these shapes; chains of four over 2-dimensional ones with dimensions 1..=2); chains that
//! start by consuming the owner; tensors with chains of two. Reshape only where the array reports a uniform stride (otherwise it may refuse).
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

/// everything the array says about its layout agrees with where its elements are
fn meta<T: El>(v: &NdArray<T>, m: &M, base: *const T) {
    let r = m.shape.len();
    check(same(v.shape(), &m.shape) && v.ndims() == r && v.stride().len() == r, SHAPE);
    check(v.size() == m.size(), COUNT);
    check(v.len() == if r == 0 { 0 } else { m.shape[0] }, COUNT);
    let first = match v.flatiter_ptr().next() { Some(p) => p as *const T, None => { check(false, COUNT); return; } };
    check(first == unsafe { base.add(m.offs[0]) }, OTHER);
    let st = v.stride();
    let mut k = 0;
    while k < m.size() {
        let idx = unravel(k, &m.shape);
        let (mut o, mut i) = (0, 0);
        while i < r { o += idx[i] * st[i]; i += 1; }
        check(m.offs[0] + o == m.offs[k], VALUE);
        k += 1;
    }
    if v.is_contiguous() {
        let mut k = 0;
        while k < m.size() { check(m.offs[k] == m.offs[0] + k, OTHER); k += 1; }
        // the slice of a contiguous array is the array
        let d = v.data_slice();
        check(d.as_ptr() == first && d.len() == m.size(), OTHER);
    }
    let us = v.has_uniform_stride();
    if let Some(s) = us {
        let mut k = 0;
        while k < m.size() { check(m.offs[k] == m.offs[0] + k * s, OTHER); k += 1; }
    }
    if v.is_uniformly_strided() {
        let s = if m.size() > 1 { m.offs[1] as isize - m.offs[0] as isize } else { 0 };
        let mut k = 0;
        while k < m.size() { check(m.offs[k] as isize == m.offs[0] as isize + k as isize * s, OTHER); k += 1; }
    }
    // a freshly laid out array is recognised as such
    let mut plain = true;
    let (mut want, mut i) = (1, r);
    while i > 0 { i -= 1; if m.shape[i] > 1 && st[i] != want { plain = false; } want *= m.shape[i]; }
    let mut ones = false;
    let mut i = 0;
    while i < r { if m.shape[i] == 1 { ones = true; } i += 1; }
    if plain && !ones { check(v.is_contiguous() && us.is_some(), OTHER); }
}
fn step<T: El>(a: A<T>, few: bool) -> A<T> {
    let s = a.shape().to_vec();
    let r = s.len();
    match choice(0, 8) {
        0 => { assume(r >= 1); let x = choice(0, r - 1); let lo = choice(0, s[x] - 1); let n = if few { s[x] - lo - (lo == 0 && s[x] > 1) as usize } else { choice(1, s[x] - lo) }; a.slice(x, lo, n) }
        1 => { assume(r >= 1); let x = choice(0, r - 1); let at = if few { s[x] - 1 } else { choice(0, s[x] - 1) }; a.index(x, at) }
        2 => { assume(r >= 2); let x = choice(0, r - 2); let y = choice(x + 1, r - 1); a.transpose(x, y) }
        3 => {
            let mut to = s.clone();
            if r > 0 && flip() { let x = choice(0, r - 1); assume(s[x] == 1); to[x] = 2; }
            if r < 4 && flip() { to.insert(0, 2); }
            assume(!few || !same(&to, &s));
            a.broadcast(&to)
        }
        4 => {
            assume(a.a().is_uniformly_strided());
            let n = a.size();
            let f = choice(1, n);
            assume(n % f == 0);
            match choice(0, 2) { 0 => { assume(f == n); a.reshape(&[n]) } 1 => a.reshape(&[f, n / f]), _ => { assume(!few); a.reshape(&[f, 1, n / f]) } }
        }
        5 => { assume(r < 4); a.unsqueeze(choice(0, r)) }
        6 => {
            assume(r >= 2);
            let (x, y) = (choice(0, r - 1), choice(0, r - 1));
            assume(x != y && (!few || x < y));
            let off = choice(0, 2) as isize - 1;
            assume((off != 1 || s[y] > 1) && (off != -1 || s[x] > 1));
            a.diagonal(off, x, y)
        }
        7 => {
            let v = a.a().squeeze();
            let mut t = vec![];
            let mut i = 0;
            while i < r { if s[i] != 1 { t.push(s[i]); } i += 1; }
            let m = a.m.reshape(&t);
            push(a, v, m)
        }
        _ => { assume(!few); let v = a.a().view(); let m = a.m.clone(); push(a, v, m) }
    }
}
fn push<T: El>(mut a: A<T>, v: NdArray<T>, m: M) -> A<T> { a.hold.push(Box::new(long(v))); a.m = m; a }
fn verify<T: El>(a: &A<T>) {
    let base = a.root().data_slice().as_ptr();
    meta(a.a(), &a.m, base);
    check(a.a().is_view() == (a.hold.len() > 1), OTHER);
}
fn chain<T: El>(shape: Vec<usize>, steps: usize, few: bool) {
    let n = prod(&shape);
    let mut a: A<T> = A::new(&shape, (0..n).map(|i| T::of(i as i64)).collect());
    verify(&a);
    let mut i = 0;
    while i < steps { a = step(a, few); if i == 0 { shard(); } verify(&a); i += 1; }
}
/// the owner itself is re-laid out by consuming operations, then viewed
fn consumed<T: El>(shape: Vec<usize>) {
    let r = shape.len();
    let how = choice(0, 5);
    shard();
    let n = prod(&shape);
    let a: A<T> = A::new(&shape, (0..n).map(|i| T::of(i as i64)).collect());
    let (base, m) = (a.base.clone(), a.m.clone());
    let p = a.root().data_slice().as_ptr();
    let o = a.take();
    let (v, m) = match how {
        0 => { let x = choice(0, r); let mut s = shape.clone(); s.insert(x, 1); (o.unsqueeze(x as isize), m.reshape(&s)) }
        1 => { let mut t = vec![]; let mut i = 0; while i < r { if shape[i] != 1 { t.push(shape[i]); } i += 1; } (o.squeeze(), m.reshape(&t)) }
        2 => { assume(r >= 2); let x = choice(0, r - 2); let y = choice(x + 1, r - 1); (o.transpose(x as isize, y as isize), m.transpose(x, y)) }
        3 => { let f = choice(1, n); assume(n % f == 0); (o.reshape([f, n / f]), m.reshape(&[f, n / f])) }
        4 => { assume(r >= 2); (o.T(), m.transpose(0, 1)) }
        _ => (o.view(), m),
    };
    meta(&v, &m, p);
    check(!v.is_view(), OTHER);
    let a = A { hold: vec![Box::new(v)], base, m };
    let second = step(a, true);
    meta(second.a(), &second.m, p);
    check(second.a().is_view(), OTHER);
}
fn tensors<T: El + TensorDataType>() {
    let s = pick_shape(0, 3, 2);
    let (r, grad) = (s.len(), flip());
    shard();
    let n = prod(&s);
    let mut t: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.clone(), (0..n).map(|i| T::of(i as i64)).collect()) };
    t.set_requires_grad(grad);
    let mut m = M::new(&s);
    let same_meta = |t: &Tensor<T>, m: &M| {
        let nd = ext(t.ndarray());
        check_view(nd, &m.shape, &|k| T::of(m.offs[k] as i64));
        // what the flags claim against where the strides lead (operations on tensors may copy)
        let mut w = m.clone();
        let mut k = 0;
        while k < w.offs.len() {
            let idx = unravel(k, &w.shape);
            let (mut o, mut i) = (0, 0);
            while i < idx.len() { o += idx[i] * nd.stride()[i]; i += 1; }
            w.offs[k] = o;
            k += 1;
        }
        if let Some(p) = nd.flatiter_ptr().next() { meta(nd, &w, p as *const T) }
        check(same(t.shape(), &m.shape) && same(t.stride(), t.ndarray().stride()) && t.ndims() == m.shape.len() && t.size() == m.size(), SHAPE);
        check(t.len() == t.ndarray().len() && t.is_contiguous() == t.ndarray().is_contiguous() && t.is_view() == t.ndarray().is_view(), OTHER);
        check(t.is_uniformly_strided() == t.ndarray().is_uniformly_strided() && t.has_uniform_stride() == t.ndarray().has_uniform_stride(), OTHER);
    };
    same_meta(&t, &m);
    let mut hold: Vec<Box<Tensor<T>>> = vec![];
    let mut i = 0;
    while i < 2 {
        let r = m.shape.len();
        let own = flip();
        let op = choice(0, 4);
        match op {
            0 => { assume(r >= 2); let y = choice(1, r - 1); m = m.transpose(0, y); t = if own { t.transpose(0, y as isize) } else { let x: Tensor<T> = unsafe { std::mem::transmute((&t).transpose(0, y as isize)) }; hold.push(Box::new(t)); x }; }
            1 => { let x = choice(0, r); let mut s = m.shape.clone(); s.insert(x, 1); m = m.reshape(&s); t = if own { t.unsqueeze(x as isize) } else { let x: Tensor<T> = unsafe { std::mem::transmute((&t).unsqueeze(x as isize)) }; hold.push(Box::new(t)); x }; }
            2 => { let mut s = vec![]; let mut i = 0; while i < r { if m.shape[i] != 1 { s.push(m.shape[i]); } i += 1; } m = m.reshape(&s); t = if own { t.squeeze() } else { let x: Tensor<T> = unsafe { std::mem::transmute((&t).squeeze()) }; hold.push(Box::new(t)); x }; }
            3 => { assume(t.is_uniformly_strided()); m = m.reshape(&[n]); t = if own { t.reshape([n]) } else { let x: Tensor<T> = unsafe { std::mem::transmute((&t).reshape([n])) }; hold.push(Box::new(t)); x }; }
            _ => { t = if own { t.view() } else { let x: Tensor<T> = unsafe { std::mem::transmute((&t).view()) }; hold.push(Box::new(t)); x }; }
        }
        same_meta(&t, &m);
        i += 1;
    }
}
fn dims3(d: usize) -> Vec<usize> { let r = choice(0, 3); pick_dims(r, if r == 3 && d == 3 && !thorough() { &[1, 2] } else if d == 2 { &[1, 2] } else { &[1, 2, 3] }) }
harness! {
    h_c15_high => chain::<i16>(high(), 1, false);
    h_c15_chain2 => chain::<f32>(dims3(3), 2, false);
    h_c15_chain3 => { let s = pick(&[&[2][..], &[1, 2], &[2, 2], &[2, 1, 2], &[2, 2, 2]]).to_vec(); chain::<i64>(s, 3, true) };
    h_c15_wide => { let s = pick_dims(2, &[2, 3, 4, 5]); chain::<u8>(s, 1, false) };
    h_c15_deep => { let r = choice(4, 5); let s = pick_dims(r, &[1, 2]); chain::<i32>(s, 1, false) };
    h_c15_consumed => consumed::<f32>(dims3(3));
    h_c15_tensor => if flip() { tensors::<f32>() } else { tensors::<f64>() };
    ht_c15_chain3_wide => { let r = choice(0, 3); let s = pick_dims(r, if r == 3 { &[1, 2] } else { &[1, 2, 3] }); chain::<i64>(s, 3, true) };
    ht_c15_chain4 => { let s = pick_dims(2, &[1, 2]); chain::<i64>(s, 4, true) };
    ht_c15_deep2 => { let r = choice(4, 5); let s = pick_dims(r, &[1, 2]); chain::<i32>(s, 2, true) };
}
