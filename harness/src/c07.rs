//! C07: iterators visit every element (or sub-array) exactly once, in row-major order, and then stop.
//! Bounds: arrays of rank 0..=3 with dimensions 1..=3 and rank 4 to 6 (thorough 7) with dimensions 1..=2, all twelve layouts (and
//! twice-transformed views), lengths up to 130, arrays of hundreds of elements in eight shapes (five elements symbolic); every axis (also negative) for iter_along, every set of at most three axes in any
//! order for nditer; out-of-range and repeated axes are rejected.
//! Arrays without elements: eight shapes. nth, skip, count, last, step_by, collect and size_hint after any number of steps.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

fn flat<T: El>(a: &A<T>) {
    let n = a.size();
    let mut it = a.a().flatiter();
    let mut pt = a.a().flatiter_ptr();
    let base = a.root().data_slice().as_ptr();
    let mut k = 0;
    while k < n {
        match it.next() { Some(x) => { observe(x.bits()); check(x == a.e(k), VALUE) } None => { check(false, COUNT); return; } }
        match pt.next() { Some(p) => check(p as *const T == unsafe { base.add(a.m.offs[k]) }, OTHER), None => { check(false, COUNT); return; } }
        k += 1;
    }
    check(it.next().is_none() && it.next().is_none(), COUNT);
    check(pt.next().is_none() && pt.next().is_none(), COUNT);
}
fn flat_any<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let lay = pick_layout_of(&shape, lays);
    shard();
    flat(&make_full::<T>(&shape, lay));
}
/// two view operations in a row
fn flat_views<T: El>(shape: Vec<usize>) {
    let r = shape.len();
    let (w1, w2) = (choice(0, 5), choice(0, 5));
    let p = [choice(0, r - 1), choice(0, r - 1)];
    shard();
    let mut a: A<T> = A::full(&shape);
    let mut i = 0;
    while i < 2 {
        let n = a.shape().len();
        let x = if n == 0 { 0 } else { p[i] % n };
        a = match if i == 0 { w1 } else { w2 } {
            0 if n >= 2 => a.transpose(x, n - 1),
            1 if n >= 1 && a.shape()[x] > 1 => { let d = a.shape()[x]; a.slice(x, 1, d - 1) }
            2 if n >= 1 => { let d = a.shape()[x]; a.index(x, d - 1) }
            3 => { let mut s = a.shape().to_vec(); s.insert(0, 2); a.broadcast(&s) }
            4 => a.unsqueeze(x),
            5 if n >= 2 => a.diagonal(0, x, (x + 1) % n),
            _ => { assume(false); a }
        };
        i += 1;
    }
    flat(&a);
}
fn sub_check<T: El>(v: &NdArray<T>, m: &M, base: &[T]) {
    check_view(v, &m.shape, &|k| base[m.offs[k]]);
}
fn along<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let r = shape.len();
    let form = choice(0, 2);
    let ax = if form == 0 { 0 } else { choice(0, r - 1) };
    let lay = pick_layout_of(&shape, lays);
    shard();
    let a: A<T> = make_full(&shape, lay);
    let mut it = match form {
        0 => a.a().iter(),
        1 => a.a().iter_along(ax as isize),
        _ => a.a().iter_along(Axis(ax as isize - r as isize)),
    };
    let mut i = 0;
    while i < shape[ax] {
        match it.next() { Some(v) => sub_check(&v, &a.m.index(ax, i), &a.base), None => { check(false, COUNT); return; } }
        i += 1;
    }
    check(it.next().is_none() && it.next().is_none(), COUNT);
    check_view(a.a(), &shape, &|k| a.e(k));
}
fn nd<T: El>(shape: Vec<usize>, lays: &[usize], most: usize) {
    let r = shape.len();
    let n = choice(0, most);
    let mut axes = vec![];
    let mut i = 0;
    while i < n { axes.push(choice(0, r)); i += 1; } // r: does not exist
    let as_array = n == 2 && flip();
    let lay = pick_layout_of(&shape, lays);
    shard();
    let mut sel = vec![false; r];
    let mut bad = false;
    let mut i = 0;
    while i < n { if axes[i] >= r || sel[axes[i]] { bad = true; } else { sel[axes[i]] = true; } i += 1; }
    let a: A<T> = make_full(&shape, lay);
    panic_if(bad);
    let mut it = if as_array { a.a().nditer([axes[0], axes[1]]) } else { a.a().nditer(axes) };
    panic_end();
    let mut outer = vec![];
    let mut i = 0;
    while i < r { if sel[i] { outer.push(shape[i]); } i += 1; }
    let cnt = prod(&outer);
    let mut k = 0;
    while k < cnt {
        let u = unravel(k, &outer);
        let mut m = a.m.clone();
        let mut i = r;
        let mut j = outer.len();
        while i > 0 { i -= 1; if sel[i] { j -= 1; m = m.index(i, u[j]); } }
        match it.next() { Some(v) => sub_check(&v, &m, &a.base), None => { check(false, COUNT); return; } }
        k += 1;
    }
    check(it.next().is_none(), COUNT);
}
fn bad_axis() {
    let shape = pick_shape(0, 2, 2);
    let x = int(64, i64::MIN, i64::MAX) as isize;
    shard();
    let a: A<i32> = A::sym(&shape, 0, 9);
    let n = shape.len() as isize;
    assume((x < -n) | (x >= n));
    panic_if(true);
    let mut it = a.a().iter_along(x);
    panic_end();
    observe(it.next().is_some() as u64);
}
fn long_flat<T: El>(lens: &[usize]) {
    let n = pick(lens);
    let lay = pick(&[CONTIG, STEP, INNER, SWAP, BCAST0]);
    let rows = choice(1, 3);
    shard();
    flat(&make_full::<T>(&[rows, n], lay));
}
/// the provided methods of the iterator trait agree with repeated `next`
fn adaptors<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let lay = pick_layout_of(&shape, lays);
    let n = prod(&shape);
    let form = choice(0, 7);
    let k = choice(0, n);
    shard();
    let a: A<T> = make_full(&shape, lay);
    let mut it = a.a().flatiter();
    let is = |x: Option<T>, i: usize| match x {
        Some(x) => { observe(x.bits()); if i < n { check(x == a.e(i), VALUE) } else { check(false, COUNT) } }
        None => check(i >= n, COUNT),
    };
    match form {
        0 => { is(it.nth(k), k); is(it.next(), k + 1) }
        1 => { is(it.by_ref().skip(k).next(), k); is(it.next(), k + 1) }
        2 => { let mut i = 0; while i < k { it.next(); i += 1; } check(it.count() == n - k, COUNT) }
        3 => { let mut i = 0; while i < k { it.next(); i += 1; } is(it.last(), if k < n { n - 1 } else { n }) }
        4 => { let mut i = 0; while i < k { it.next(); i += 1; }
               let (lo, hi) = it.size_hint(); check(lo <= n - k, COUNT); if let Some(h) = hi { check(h >= n - k, COUNT) } observe(0) }
        5 => { let mut i = 0; for x in it.step_by(k + 1) { is(Some(x), i); i += k + 1; } check(i >= n, COUNT); check(i <= n + k, COUNT) }
        6 => { let v: Vec<T> = it.skip(k).collect(); check(v.len() == n - k, COUNT); let mut i = 0; while i < v.len() { is(Some(v[i]), k + i); i += 1; } }
        _ => { let mut jt = a.a().flatiter(); let mut i = 0; while i < n { is(it.next(), i); if i >= k { is(jt.next(), i - k); } i += 1; } }
    }
}
fn adaptors_nd<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let r = shape.len();
    let lay = pick_layout_of(&shape, lays);
    let ax = choice(0, r - 1);
    let n = shape[ax];
    let (form, k) = (choice(0, 4), choice(0, n));
    shard();
    let a: A<T> = make_full(&shape, lay);
    let mut it = a.a().iter_along(ax as isize);
    let is = |x: Option<NdArray<T>>, i: usize| match x {
        Some(v) => if i < n { sub_check(&v, &a.m.index(ax, i), &a.base) } else { check(false, COUNT) },
        None => { observe(0); check(i >= n, COUNT) }
    };
    match form {
        0 => { is(it.nth(k), k); is(it.next(), k + 1) }
        1 => { let mut i = 0; while i < k { it.next(); i += 1; } check(it.count() == n - k, COUNT); observe(0) }
        2 => is(it.last(), n - 1),
        3 => { let mut i = 0; while i < k { it.next(); i += 1; }
               let (lo, hi) = it.size_hint(); check(lo <= n - k, COUNT); if let Some(h) = hi { check(h >= n - k, COUNT) } observe(0) }
        _ => { let v: Vec<NdArray<T>> = it.skip(k).collect(); check(v.len() == n - k, COUNT);
               let mut i = k; for x in v { is(Some(x), i); i += 1; } observe(0) }
    }
}
fn empties<T: Num>() {
    let s = pick(EMPTY);
    let r = s.len();
    let (form, rev) = (choice(0, 2), flip());
    let ax = if form > 0 { choice(0, r - 1) } else { 0 };
    shard();
    let a = empty::<T>(s);
    let x = if rev & (r >= 2) { ext(&a).transpose(0, r as isize - 1) } else { ext(&a).view() };
    let (n, mut t) = (x.shape()[ax], x.shape().to_vec());
    t.remove(ax);
    if form == 0 { check(x.flatiter().next().is_none(), COUNT); check(x.flatiter_ptr().next().is_none(), COUNT); observe(0); return; }
    let mut k = 0;
    if form == 1 { for v in x.iter_along(ax as isize) { check(same(v.shape(), &t), SHAPE); k += 1; } }
    else { for v in x.nditer([ax]) { check(same(v.shape(), &t), SHAPE); k += 1; } }
    observe(k as u64);
    check(k == n, COUNT);
}
harness! {
    h_c07_along_high => along::<i32>(high(), &[CONTIG, SWAP, REV]);
    h_c07_nd_high => nd::<i32>(pick(&[&[2, 1, 2, 2, 1][..], &[1, 2, 1, 3, 2, 2], &[2, 1, 1, 2, 1, 2, 2]]).to_vec(), &[CONTIG, REV], 3);
    h_c07_adaptors => adaptors::<i32>(pick_shape(0, 3, 2), ALL);
    h_c07_adaptors_f64 => adaptors::<f64>(pick(&[&[5][..], &[3, 3], &[2, 3, 2]]).to_vec(), ALL);
    h_c07_adaptors_nd => adaptors_nd::<i32>(pick_shape(1, 3, 3), &[CONTIG, SWAP, INNER, GAPS]);
    h_c07_empty => empties::<i32>();
    h_c07_big => flat_any::<i32>(pick(BIG).to_vec(), &[CONTIG, STEP, SWAP, INNER, BCAST0, REV]);
    h_c07_big_along => along::<f32>(pick(&[&[257][..], &[3, 130], &[130, 3], &[2, 70, 3]]).to_vec(), &[CONTIG, SWAP, INNER]);
    h_c07_flat_i32 => flat_any::<i32>(pick_shape(0, 3, 3), ALL);
    h_c07_flat_f64 => flat_any::<f64>(pick_dims(4, &[1, 2]), ALL);
    h_c07_flat_bool => flat_any::<bool>(pick_shape(1, 2, 3), ALL);
    h_c07_flat5 => flat_any::<u8>(pick_dims(5, &[1, 2]), FEW);
    h_c07_flat6 => flat_any::<i16>(if thorough() { pick_dims(6, &[1, 2]) } else { vec![2, 1, 2, 2, 1, 2] }, FEW);
    h_c07_deep => flat_any::<i32>(vec![2; choice(4, if thorough() { 7 } else { 6 })], DEEP);
    h_c07_views => flat_views::<i32>(pick_shape(1, 3, 3));
    h_c07_views4 => flat_views::<u16>(pick_dims(4, &[1, 2]));
    h_c07_long => long_flat::<i32>(if thorough() { LENS } else { &[9, 33, 65] });
    h_c07_along_i32 => along::<i32>(pick_shape(1, 3, 3), if thorough() { ALL } else { MOST });
    h_c07_along_f32 => along::<f32>(pick_shape(1, 2, 3), ALL);
    h_c07_nd_i32 => nd::<i32>(pick_shape(1, 3, 2), MOST, 2);
    h_c07_nd3 => nd::<u8>(vec![2, 3, 2], FEW, 3);
    ht_c07_nd4 => nd::<i64>(vec![2, 2, 2, 2], FEW, 3);
    h_c07_axis => bad_axis();
}
