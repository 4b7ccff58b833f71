//! C06: reshape, view, squeeze, unsqueeze, transpose, T and (offset) diagonals are views of the right elements: same
//! memory, same values, documented shape; impossible requests are rejected.  The trace is the sum of that diagonal.
//! Bounds: source rank 0..=4, dimensions 1..=3 (rank 4: 1..=2), sources in all twelve layouts and in layouts made by two
//! preceding view operations; borrowed and consuming forms; listed arrays of hundreds of elements; every target shape of rank 0..=4 with dimensions 1..=4
//! (sizes that match and sizes that do not); axes and offsets -4..=4 enumerated, arbitrary 64-bit axes and offsets symbolic.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

/// apply one of the view operations to a borrowed array (own = false) or consume the array
enum V { View, Reshape(Vec<usize>), Squeeze, Unsqueeze(isize), T, Transpose(isize, isize) }
fn run<'x, T: El, R: Reshape<T, Output = NdArray<'x, T>>>(a: R, v: &V) -> NdArray<'x, T> {
    match v {
        V::View => a.view(),
        V::Reshape(s) => a.reshape(s.clone()),
        V::Squeeze => a.squeeze(),
        V::Unsqueeze(x) => a.unsqueeze(*x),
        V::T => a.T(),
        V::Transpose(x, y) => a.transpose(*x, *y),
    }
}
fn axis(x: isize, n: usize) -> Option<usize> {
    let n = n as isize;
    if x < -n || x >= n { None } else { Some(if x < 0 { x + n } else { x } as usize) }
}
/// the expected result, None if it has to be rejected
fn model(m: &M, v: &V) -> Option<M> {
    match v {
        V::View => Some(m.clone()),
        V::Reshape(s) => if prod(s) == m.size() { Some(m.reshape(s)) } else { None },
        V::Squeeze => {
            let mut s = vec![];
            let mut i = 0;
            while i < m.shape.len() { if m.shape[i] != 1 { s.push(m.shape[i]); } i += 1; }
            Some(m.reshape(&s))
        }
        V::Unsqueeze(x) => {
            let x = axis(*x, m.shape.len() + 1)?;
            let mut s = m.shape.clone();
            s.insert(x, 1);
            Some(m.reshape(&s))
        }
        V::T => if m.shape.len() >= 2 { Some(m.transpose(0, 1)) } else { None },
        V::Transpose(x, y) => {
            let (x, y) = (axis(*x, m.shape.len())?, axis(*y, m.shape.len())?);
            Some(m.transpose(x, y))
        }
    }
}
fn pick_op(r: usize, reshape_rank: usize, dims: &[usize]) -> V {
    let ax = || choice(0, 2 * r + 3) as isize - r as isize - 2;
    match choice(0, 5) {
        0 => V::View,
        1 => { let n = choice(0, reshape_rank); V::Reshape(pick_dims(n, dims)) }
        2 => V::Squeeze,
        3 => V::Unsqueeze(ax()),
        4 => V::T,
        _ => V::Transpose(ax(), ax()),
    }
}
/// the elements are equally spaced in memory
fn even(m: &M) -> bool {
    let o = &m.offs;
    let mut k = 2;
    while k < o.len() { if o[k].wrapping_sub(o[k - 1]) != o[1].wrapping_sub(o[0]) { return false; } k += 1; }
    true
}
/// apply the operation; a reshape of a view that is not uniformly strided may be refused (documented)
fn step<T: El>(keep: &mut Vec<NdArray<'static, T>>, v: NdArray<'static, T>, m: M, own: bool, op: &V, uni: &mut bool) -> Option<(NdArray<'static, T>, M)> {
    let want = model(&m, op);
    let may_refuse = matches!(op, V::Reshape(s) if !same(s, &m.shape)) && !*uni && !v.is_uniformly_strided() && (!even(&m) || m.shape.contains(&1));
    // contiguous elements stay so, whatever the lengths, except that transposing may break it
    *uni = *uni && !matches!(op, V::T | V::Transpose(..));
    if may_refuse && want.is_some() { panic_ok() } else { panic_if(want.is_none()) }
    let r: NdArray<'static, T> = if own { run(v, op) } else { let r = run(ext(&v), op); keep.push(v); r };
    panic_end();
    let w = want?;
    Some((r, w))
}
fn one<T: El>(shape: Vec<usize>, lays: &[usize], rr: usize, dims: &[usize]) {
    let lay = pick_layout_of(&shape, lays);
    let own = flip();
    let op = pick_op(shape.len(), rr, dims);
    shard();
    let mut a: A<T> = make_full(&shape, lay);
    let mut keep = vec![];
    let mut uni = matches!(lay, CONTIG | PREFIX);
    if own && lay == CONTIG {
        // the owner itself is consumed: the result owns the memory
        let base = a.base.clone();
        let m = a.m.clone();
        let v = *a.hold.pop().unwrap();
        if let Some((r, w)) = step(&mut keep, v, m, true, &op, &mut uni) {
            check_view(&r, &w.shape, &|k| base[w.offs[k]]);
            check(!r.is_view(), OTHER);
        }
    } else if own {
        let v = *a.hold.pop().unwrap();
        let m = a.m.clone();
        if let Some((r, w)) = step(&mut keep, v, m, true, &op, &mut uni) { check_slice(&a, &r, &w); }
    } else {
        let v = long(a.a().view());
        let m = a.m.clone();
        if let Some((r, w)) = step(&mut keep, v, m, false, &op, &mut uni) { check_slice(&a, &r, &w); }
        check_view(a.a(), &shape, &|k| a.e(k));
    }
}
/// two view operations after each other
fn two<T: El>(shape: Vec<usize>, lays: &[usize], dims: &[usize]) {
    let lay = pick_layout_of(&shape, lays);
    let r = shape.len();
    let first = pick_op(r, 2, dims);
    let m0 = M::new(&shape);
    let m1 = model(&m0, &first);
    assume(m1.is_some());
    let m1 = m1.unwrap();
    let second = pick_op(m1.shape.len(), 3, dims);
    let own = flip();
    shard();
    let a: A<T> = make_full(&shape, lay);
    let mut keep = vec![];
    let mut uni = matches!(lay, CONTIG | PREFIX);
    let v = long(a.a().view());
    if let Some((v, m)) = step(&mut keep, v, a.m.clone(), false, &first, &mut uni) {
        if let Some((v, m)) = step(&mut keep, v, m, own, &second, &mut uni) { check_slice(&a, &v, &m); }
    }
}
fn diag<T: El + NumericDataType>(shape: Vec<usize>, lays: &[usize], tr: bool) {
    let r = shape.len();
    let form = choice(0, 3);
    let ax = || choice(0, 2 * r + 1) as isize - r as isize - 1;
    let (mut x, mut y) = (0, 1);
    let mut off = 0;
    if form == 1 || form == 3 { off = choice(0, 8) as isize - 4; }
    if form >= 2 { x = ax(); y = ax(); }
    let lay = pick_layout_of(&shape, lays);
    shard();
    let a: A<T> = make_sym(&shape, lay, -100, 100);
    let ok = match (axis(x, r), axis(y, r)) {
        (Some(x), Some(y)) => r >= 2 && x != y && if off >= 0 { (off as usize) < shape[y] } else { ((-off) as usize) < shape[x] },
        _ => false,
    };
    panic_if(!ok);
    if tr {
        let t = match form {
            0 => a.a().trace(),
            1 => a.a().offset_trace(off),
            2 => a.a().trace_along(x, y),
            _ => a.a().offset_trace_along(off, x, y),
        };
        panic_end();
        if !ok { return; }
        let m = a.m.diagonal(off, axis(x, r).unwrap(), axis(y, r).unwrap());
        let n = m.shape[m.shape.len() - 1];
        check_array(&t, &m.shape[..m.shape.len() - 1], &|k| {
            let mut s = T::of(0);
            let mut i = 0;
            while i < n { s = s + a.base[m.offs[k * n + i]]; i += 1; }
            s
        });
    } else {
        let d = match form {
            0 => a.a().diagonal(),
            1 => a.a().offset_diagonal(off),
            2 => a.a().diagonal_along(x, y),
            _ => a.a().offset_diagonal_along(off, x, y),
        };
        panic_end();
        if !ok { return; }
        let m = a.m.diagonal(off, axis(x, r).unwrap(), axis(y, r).unwrap());
        check_slice(&a, &d, &m);
    }
}
/// arbitrary 64-bit axes and offsets outside the array are rejected
fn far() {
    let shape = pick_shape(0, 3, 2);
    let what = choice(0, 4);
    let lay = pick_layout_of(&shape, &[CONTIG, SWAP]);
    shard();
    let a: A<i32> = make_sym(&shape, lay, 0, 9);
    let x = int(64, i64::MIN + 1, i64::MAX) as isize;
    let n = shape.len() as isize;
    let out = |n: isize| (x < -n) | (x >= n);
    match what {
        0 => assume(out(n + 1)),
        1 | 2 | 3 => assume(out(n)),
        _ => { assume(shape.len() >= 2); assume((x >= shape[1] as isize) | (x <= -(shape[0] as isize))) }
    }
    panic_if(true);
    let v = match what {
        0 => a.a().unsqueeze(x),
        1 => a.a().transpose(x, 0),
        2 => a.a().transpose(0, x),
        3 => a.a().diagonal_along(0, x),
        _ => a.a().offset_diagonal(x),
    };
    panic_end();
    observe(v.size() as u64);
}
/// large arrays (rearranged in a way given by `k`)
fn big<T: El + NumericDataType>() {
    let (s, k, t): (&[usize], usize, &[usize]) = pick(&[(&[600][..], 0, &[20, 30][..]), (&[20, 30], 0, &[600]), (&[20, 30], 0, &[2, 10, 30]), (&[2, 10, 30], 0, &[20, 30]), (&[16, 16], 0, &[2, 2, 2, 2, 2, 2, 2, 2]), (&[300, 3], 1, &[3, 300]),
        (&[20, 31], 1, &[31, 20]), (&[7, 8, 9], 2, &[7, 9, 8]), (&[20, 31], 3, &[20]), (&[31, 20], 4, &[18]), (&[1, 300, 1], 5, &[300]), (&[300], 6, &[1, 300]), (&[20, 31], 7, &[])]);
    let own = flip();
    let lay = pick_layout_of(s, &[CONTIG, STEP, INNER, SWAP]);
    assume(!own || lay == CONTIG);
    shard();
    let mut a: A<T> = make_full(s, lay);
    // a shape of the same size; only a view whose elements are not evenly spaced may refuse
    if k == 0 && lay > STEP { panic_ok() }
    let m = match k {
        0 => a.m.reshape(t), 1 => a.m.transpose(0, 1), 2 => a.m.transpose(1, 2), 3 => a.m.diagonal(0, 0, 1), 4 => a.m.diagonal(2, 0, 1),
        5 => a.m.reshape(t), 6 => a.m.reshape(t), _ => a.m.clone(),
    };
    if own {
        let v = *a.hold.pop().unwrap();
        let v = match k { 0 => v.reshape(t), 1 => v.T(), 2 => v.transpose(1, 2), 5 => v.squeeze(), 6 => v.unsqueeze(0), 7 => v.view(), _ => { assume(false); v } };
        check_view(&v, &m.shape, &|k| a.base[m.offs[k]]);
        return;
    }
    let x = a.a();
    let v = match k { 0 => x.reshape(t), 1 => x.T(), 2 => x.transpose(1, 2), 3 => x.diagonal(), 4 => x.offset_diagonal(2), 5 => x.squeeze(), 6 => x.unsqueeze(0), _ => x.view() };
    if k == 0 && lay > STEP { panic_end() }
    check_slice(&a, &v, &m);
}
/// every way to write a shape or an axis
fn kinds<T: El + NumericDataType>() {
    let form = choice(0, 12);
    let lay = pick(&[CONTIG, STEP]);
    shard();
    let a: A<T> = make_sym(&[2, 3], lay, -100, 100);
    let x = a.a();
    let m = &a.m;
    let s3 = vec![1usize, 3, 2];
    let (v, w) = match form {
        0 => (x.reshape(6), m.reshape(&[6])),
        1 => (x.reshape(2..4), m.reshape(&[2, 3])),
        2 => (x.reshape(1..4), m.reshape(&[1, 2, 3])),
        3 => (x.reshape([3, 2]), m.reshape(&[3, 2])),
        4 => (x.reshape(&s3), m.reshape(&[1, 3, 2])),
        5 => (x.reshape(&s3[1..]), m.reshape(&[3, 2])),
        6 => (x.unsqueeze(Axis(1)), m.reshape(&[2, 1, 3])),
        7 => (x.unsqueeze(Axis(-3)), m.reshape(&[1, 2, 3])),
        8 => (x.transpose(Axis(0), 1), m.transpose(0, 1)),
        9 => (x.transpose(Axis(-1), Axis(0)), m.transpose(0, 1)),
        10 => (x.diagonal_along(Axis(1), Axis(0)), m.diagonal(0, 1, 0)),
        11 => (x.offset_diagonal_along(1, Axis(-2), -1), m.diagonal(1, 0, 1)),
        _ => {
            let t = x.offset_trace_along(-1, Axis(1), Axis(0));
            check_array(&t, &[], &|_| a.e(1) + a.e(5));
            return;
        }
    };
    check_slice(&a, &v, &w);
}
harness! {
    h_c06_high => one::<i32>(high(), &[CONTIG, SWAP], 2, &[2, 4, 6]);
    h_c06_high_diag => diag::<i32>(pick(&[&[2, 1, 2, 2, 1][..], &[1, 2, 1, 3, 2, 2]]).to_vec(), &[CONTIG, SWAP], false);
    h_c06_kinds => if flip() { kinds::<i32>() } else { kinds::<f64>() };
    h_c06_big => if flip() { big::<i32>() } else { big::<f64>() };
    h_c06_one_i32 => one::<i32>(pick_shape(0, 2, 3), ALL, 3, &[1, 2, 3]);
    h_c06_one_f32 => one::<f32>(pick_shape(3, 3, 2), if thorough() { ALL } else { MOST }, 2, &[1, 2, 4]);
    h_c06_one_u8 => one::<u8>(vec![2, 3], ALL, 3, &[1, 2, 3, 6]);
    h_c06_one4 => one::<i64>(pick_dims(4, &[1, 2]), &[CONTIG, SWAP], 2, &[2, 4]);
    ht_c06_one4 => one::<i64>(pick_dims(4, &[1, 2]), ALL, 4, &[1, 2, 4]);
    ht_c06_one_big => one::<u16>(pick_shape(1, 3, 4), &[CONTIG, STEP], 3, &[1, 2, 3, 4, 6, 8]);
    h_c06_two_i32 => two::<i32>(pick_shape(0, 2, 2), &[CONTIG, STEP, INNER], &[1, 2, 4]);
    h_c06_two_3 => two::<i16>(vec![2, 3, 2], &[CONTIG, PREFIX], &[2, 3]);
    ht_c06_two_i32 => two::<i32>(pick_shape(0, 2, 3), MOST, &[1, 2, 3]);
    h_c06_diag_i32 => diag::<i32>(pick_shape(0, 2, 3), if thorough() { ALL } else { MOST }, false);
    h_c06_diag3 => diag::<f64>(pick_shape(3, 3, 2), if thorough() { ALL } else { &[CONTIG, SWAP] }, false);
    h_c06_trace_i32 => diag::<i32>(pick_shape(0, 2, 3), if thorough() { ALL } else { FEW }, true);
    h_c06_trace3 => diag::<f32>(pick_shape(3, 3, 2), &[CONTIG, SWAP], true);
    h_c06_far => far();
}
