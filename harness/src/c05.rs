//! C05: indexing and slicing address exactly the selected elements, and everything out of bounds is rejected.
//! Bounds: arrays of rank 0..=3 (4 with dimensions 1..=2, 5 with dimension 2 for valid slices), dimensions 1..=3, in all twelve layouts; `[]` indices are arbitrary
//! 64-bit values; slices of all seven kinds (index, a..b, a.., .., a..=b, ..b, ..=b), bounds 0..=dimension+1 enumerated and
//! arbitrary 64-bit out-of-bounds values symbolic; listed slices of axes up to 300; axes -4..=4.
use crate::common::*;
use crate::rt::*;
use redstone_ml::util::index::Index as Ix;
use redstone_ml::*;

fn idx(n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < n { v.push(any(64) as usize); i += 1; }
    v
}
fn inside(ix: &[usize], s: &[usize]) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < s.len() { ok &= ix[i] < s[i]; i += 1; }
    ok
}
fn is(ix: &[usize], u: &[usize]) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < u.len() { ok &= ix[i] == u[i]; i += 1; }
    ok
}
/// reading a[[i, j, ..]] for every 64-bit i, j, ..
fn read<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let lay = pick_layout_of(&shape, lays);
    let plain = shape.len() == 1 && flip(); // a[i]
    shard();
    let a: A<T> = make_full(&shape, lay);
    let ix = idx(shape.len());
    panic_if(!inside(&ix, &shape));
    let v = a.a();
    let x = match shape.len() {
        0 => v[[]],
        1 => if plain { v[ix[0]] } else { v[[ix[0]]] },
        2 => v[[ix[0], ix[1]]],
        3 => v[[ix[0], ix[1], ix[2]]],
        _ => v[[ix[0], ix[1], ix[2], ix[3]]],
    };
    panic_end();
    observe(x.bits());
    let mut k = 0;
    while k < a.size() {
        check(!is(&ix, &unravel(k, &shape)) | (x == a.e(k)), VALUE);
        k += 1;
    }
}
/// writing through a[[i, j, ..]] changes that element and no other one
fn write<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let lay = pick_layout_of(&shape, lays);
    let plain = shape.len() == 1 && flip();
    shard();
    let mut a: A<T> = make_full(&shape, lay);
    let ix = idx(shape.len());
    let x = T::full();
    panic_if(!inside(&ix, &shape) | !writable(lay));
    let v = a.a_mut();
    match shape.len() {
        0 => v[[]] = x,
        1 => if plain { v[ix[0]] = x } else { v[[ix[0]]] = x },
        2 => v[[ix[0], ix[1]]] = x,
        3 => v[[ix[0], ix[1], ix[2]]] = x,
        _ => v[[ix[0], ix[1], ix[2], ix[3]]] = x,
    }
    panic_end();
    let now = a.root().data_slice();
    let mut hit = vec![usize::MAX; a.base.len()];
    let mut k = 0;
    while k < a.size() { hit[a.m.offs[k]] = k; k += 1; }
    let mut b = 0;
    while b < hit.len() {
        if hit[b] == usize::MAX {
            check(now[b] == a.base[b], UNTOUCHED);
        } else {
            let me = is(&ix, &unravel(hit[b], &shape));
            check((me & (now[b] == x)) | (!me & (now[b] == a.base[b])), VALUE);
        }
        b += 1;
    }
}
/// the wrong number of indices is rejected
fn arity() {
    let shape = pick_shape(0, 4, 2);
    let n = choice(0, 5);
    let w = flip();
    assume(if w { n > shape.len() } else { n != shape.len() });
    shard();
    let mut a: A<i32> = A::sym(&shape, 0, 9);
    let v = a.a_mut();
    panic_if(true);
    if w {
        match n { 1 => v[0] = 1, 2 => v[[0, 0]] = 1, 3 => v[[0, 0, 0]] = 1, 4 => v[[0, 0, 0, 0]] = 1, _ => v[[0, 0, 0, 0, 0]] = 1 }
    } else {
        observe(match n { 0 => v[[]], 1 => v[0], 2 => v[[0, 0]], 3 => v[[0, 0, 0]], 4 => v[[0, 0, 0, 0]], _ => v[[0, 0, 0, 0, 0]] } as u64);
    }
    panic_end();
}
/// (first, length, collapses) selected by one indexer, None if out of bounds or empty
type Sel = Option<(usize, usize, bool)>;
fn indexer(d: usize) -> (Ix, Sel) {
    let kind = choice(0, 6);
    let lim = |f: usize, e: usize| if f < e && e <= d { Some((f, e - f, false)) } else { None };
    match kind {
        0 => { let i = choice(0, d); (Ix::from(i), if i < d { Some((i, 1, true)) } else { None }) }
        1 => { let (a, b) = (choice(0, d), choice(0, d + 1)); (Ix::from(a..b), lim(a, b)) }
        2 => { let a = choice(0, d + 1); (Ix::from(a..), lim(a, d)) }
        3 => (Ix::from(..), lim(0, d)),
        4 => { let (a, b) = (choice(0, d), choice(0, d)); (Ix::from(a..=b), lim(a, b + 1)) }
        5 => { let b = choice(0, d + 1); (Ix::from(..b), lim(0, b)) }
        _ => { let b = choice(0, d); (Ix::from(..=b), lim(0, b + 1)) }
    }
}
fn along<'a, T: El>(a: &'a NdArray<'a, T>, axis: isize, ix: Ix) -> NdArray<'a, T> {
    match ix {
        Ix::Usize(i) => a.slice_along(Axis(axis), i),
        Ix::Range(i) => a.slice_along(Axis(axis), i),
        Ix::RangeFrom(i) => a.slice_along(Axis(axis), i),
        Ix::RangeFull(i) => a.slice_along(Axis(axis), i),
        Ix::RangeInclusive(i) => a.slice_along(Axis(axis), i),
        Ix::RangeTo(i) => a.slice_along(Axis(axis), i),
        Ix::RangeToInclusive(i) => a.slice_along(Axis(axis), i),
    }
}
fn apply(m: M, axis: usize, s: Sel) -> M {
    match s {
        Some((f, _, true)) => m.index(axis, f),
        Some((f, n, false)) => m.slice(axis, f, n),
        None => m,
    }
}
fn slice_along<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let r = shape.len();
    let axis = choice(0, 2 * r - 1);
    let lay = pick_layout_of(&shape, lays);
    let ax = axis % r;
    let (ix, sel) = indexer(shape[ax]);
    shard();
    let a: A<T> = make_full(&shape, lay);
    panic_if(sel.is_none());
    let v = along(a.a(), if axis < r { axis as isize } else { axis as isize - 2 * r as isize }, ix);
    panic_end();
    let m = apply(a.m.clone(), ax, sel);
    check_slice(&a, &v, &m);
}
fn bad_axis() {
    let shape = pick_shape(0, 3, 2);
    let axis = int(64, i64::MIN, i64::MAX) as isize;
    shard();
    let a: A<i32> = A::sym(&shape, 0, 9);
    let n = shape.len() as isize;
    assume((axis < -n) | (axis >= n));
    panic_if(true);
    let v = a.a().slice_along(Axis(axis), 0..1);
    panic_end();
    observe(v.size() as u64);
}
/// slice(s![..]): one indexer for each of the leading axes
fn slice<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let r = shape.len();
    let n = choice(0, r + 1); // r + 1: too many
    let lay = pick_layout_of(&shape, lays);
    let mut ix = vec![];
    let mut sel = vec![];
    let mut bad = n > r;
    let mut i = 0;
    while i < n {
        let (x, s) = if n > r { (Ix::from(..), Some((0, 1, false))) } else { indexer(shape[i]) };
        bad |= s.is_none();
        ix.push(x);
        sel.push(s);
        i += 1;
    }
    shard();
    let a: A<T> = make_full(&shape, lay);
    panic_if(bad);
    let v = a.a().slice(ix);
    panic_end();
    let mut m = a.m.clone();
    let mut i = n;
    while i > 0 { i -= 1; m = apply(m, i, sel[i]); }
    check_slice(&a, &v, &m);
}
/// slices of slices
fn nested<T: El>(shape: Vec<usize>) {
    let r = shape.len();
    let lay = pick_layout_of(&shape, &[CONTIG, SWAP]);
    let (x, y) = (choice(0, r - 1), choice(0, r - 1));
    let (i1, s1) = indexer(shape[x]);
    assume(s1.is_some());
    let mut sh = shape.clone();
    match s1 { Some((_, n, false)) => sh[x] = n, _ => { sh.remove(x); } }
    assume(y < sh.len());
    let (i2, s2) = indexer(sh[y]);
    shard();
    let a: A<T> = make_full(&shape, lay);
    let v = along(a.a(), x as isize, i1);
    panic_if(s2.is_none());
    let w = along(ext(&v), y as isize, i2);
    panic_end();
    let m = apply(apply(a.m.clone(), x, s1), y, s2);
    check_slice(&a, &w, &m);
}
/// many axes, each kept, cut at the front, cut at the back or dropped
fn deep<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let r = shape.len();
    let lay = pick_layout_of(&shape, lays);
    let mut ix = vec![];
    let mut sel = vec![];
    let mut i = 0;
    while i < r {
        let d = shape[i];
        let (x, s) = match choice(0, 3) {
            0 => (Ix::from(..), (0, d, false)),
            1 => (Ix::from(..d - 1), (0, d - 1, false)),
            2 => (Ix::from(1..), (1, d - 1, false)),
            _ => (Ix::from(d - 1), (d - 1, 1, true)),
        };
        ix.push(x);
        sel.push(Some(s));
        i += 1;
    }
    shard();
    let a: A<T> = make_full(&shape, lay);
    let v = a.a().slice(ix);
    let mut m = a.m.clone();
    let mut i = r;
    while i > 0 { i -= 1; m = apply(m, i, sel[i]); }
    check_slice(&a, &v, &m);
}
/// arbitrary 64-bit bounds outside the axis are rejected
fn far() {
    let shape = pick_shape(1, 2, 3);
    let r = shape.len();
    let ax = choice(0, r - 1);
    let lay = pick_layout_of(&shape, &[CONTIG, STEP, SWAP]);
    let kind = choice(0, 5);
    let form = flip();
    shard();
    let d = shape[ax];
    let a: A<i32> = make_sym(&shape, lay, 0, 9);
    let (lo, hi) = (any(64) as usize, any(64) as usize);
    let (ix, ok) = match kind {
        0 => (Ix::from(lo), lo < d),
        1 => (Ix::from(lo..hi), (lo < hi) & (hi <= d)),
        2 => (Ix::from(lo..), lo < d),
        3 => (Ix::from(lo..=hi), (lo <= hi) & (hi < d)),
        4 => (Ix::from(..hi), (hi > 0) & (hi <= d)),
        _ => (Ix::from(..=hi), hi < d),
    };
    assume(!ok);
    panic_if(true);
    let v = if form { along(a.a(), ax as isize, ix) } else if ax == 0 { a.a().slice(vec![ix]) } else { a.a().slice(vec![Ix::from(..), ix]) };
    panic_end();
    observe(v.size() as u64);
}
/// long axes
fn big<T: El>() {
    let s = pick(&[&[300][..], &[3, 130], &[130, 3], &[20, 31], &[2, 70, 3]]).to_vec();
    let ax = choice(0, s.len() - 1);
    let d = s[ax];
    let lay = pick_layout_of(&s, &[CONTIG, STEP, SWAP, INNER, BCASTL]);
    let form = choice(0, 9);
    let (ix, sel): (Ix, Sel) = match form {
        0 => (Ix::from(d - 1), Some((d - 1, 1, true))),
        1 => (Ix::from(d), None),
        2 => (Ix::from(d / 2..d), Some((d / 2, d - d / 2, false))),
        3 => (Ix::from(1..d + 1), None),
        4 => (Ix::from(d - 1..), Some((d - 1, 1, false))),
        5 => (Ix::from(0..=d - 1), Some((0, d, false))),
        6 => (Ix::from(0..=d), None),
        7 => (Ix::from(..d - 1), Some((0, d - 1, false))),
        8 => (Ix::from(..=d), None),
        _ => (Ix::from(..), Some((0, d, false))),
    };
    shard();
    let a: A<T> = make_full(&s, lay);
    panic_if(sel.is_none());
    let v = along(a.a(), ax as isize, ix);
    panic_end();
    let m = apply(a.m.clone(), ax, sel);
    check_slice(&a, &v, &m);
}
harness! {
    h_c05_along_high => slice_along::<i32>(high(), &[CONTIG, REV]);
    h_c05_big => big::<i32>();
    h_c05_big_read => read::<i32>(pick(&[&[19][..], &[2, 11], &[9, 2]]).to_vec(), &[CONTIG, SWAP]);
    h_c05_read_i32 => read::<i32>(pick_shape(0, 2, 3), ALL);
    h_c05_read_f64 => read::<f64>(pick_shape(1, 3, 2), FEW);
    h_c05_read_u8 => read::<u8>(pick_dims(4, &[1, 2]), &[CONTIG, SWAP]);
    h_c05_write_i32 => write::<i32>(pick_shape(0, 2, 3), ALL);
    h_c05_write_f32 => write::<f32>(pick_shape(1, 3, 2), FEW);
    h_c05_write_bool => write::<bool>(pick_shape(1, 2, 2), &[CONTIG, STEP]);
    h_c05_write4 => write::<i64>(pick_dims(4, &[1, 2]), &[CONTIG, SWAP]);
    h_c05_arity => arity();
    h_c05_along_i32 => slice_along::<i32>(pick_shape(1, 2, 3), ALL);
    h_c05_along3 => slice_along::<f32>(pick_shape(3, 3, 2), if thorough() { ALL } else { FEW });
    h_c05_along4 => slice_along::<i16>(pick_dims(4, &[1, 2]), &[CONTIG, SWAP]);
    h_c05_axis => bad_axis();
    h_c05_slice1 => slice::<i32>(pick_shape(0, 1, 4), ALL);
    h_c05_slice2 => slice::<i32>(if thorough() { pick_shape(2, 2, 3) } else { pick_dims(2, &[1, 2]) }, if thorough() { MOST } else { &[CONTIG, SWAP] });
    h_c05_slice2w => slice::<u8>(vec![3, 2], &[CONTIG]);
    ht_c05_slice3 => slice::<f64>(vec![2, 2, 2], &[CONTIG]);
    h_c05_deep3 => deep::<i32>(vec![2, 3, 2], FEW);
    h_c05_deep4 => deep::<f32>(vec![2, 2, 2, 2], if thorough() { ALL } else { &[CONTIG, SWAP] });
    h_c05_deep5 => deep::<u16>(vec![2, 2, 2, 2, 2], if thorough() { DEEP } else { &[CONTIG] });
    h_c05_nested => nested::<i32>(if thorough() { vec![3, 3] } else { vec![3, 2] });
    h_c05_far => far();
}
