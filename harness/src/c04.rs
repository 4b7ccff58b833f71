//! C04: reductions (sum, product, min, max, min_magnitude, max_magnitude, mean) over the whole array or any set of axes.
//! Bounds: rank 0..=3 with dimensions 1..=3 (rank 4 and 5: 1..=2), every subset of axes in both orders and with negative
//! numbering, all twelve layouts; lengths up to 65/130; arrays of hundreds of elements in eight shapes with a few symbolic elements; all 14 numeric element types; element values bounded so that no
//! intermediate result overflows or rounds, the whole range of the type for two-element reductions; for the comparisons at
//! most four elements are symbolic at once (the position of the symbolic ones among fixed ones is arbitrary).
//! Sums and products of arrays without elements: eight shapes, every axis.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

const SUM: usize = 0;
const PRODUCT: usize = 1;
const MIN: usize = 2;
const MAX: usize = 3;
const MINMAG: usize = 4;
const MAXMAG: usize = 5;

fn whole<T: Num>(op: usize, a: &NdArray<T>) -> NdArray<'static, T> {
    match op {
        SUM => a.sum(),
        PRODUCT => a.product(),
        MIN => a.min(),
        MAX => a.max(),
        MINMAG => a.min_magnitude(),
        _ => a.max_magnitude(),
    }
}
fn along<T: Num>(op: usize, a: &NdArray<T>, axes: Vec<isize>) -> NdArray<'static, T> {
    match op {
        SUM => a.sum_along(axes),
        PRODUCT => a.product_along(axes),
        MIN => a.min_along(axes),
        MAX => a.max_along(axes),
        MINMAG => a.min_magnitude_along(axes),
        _ => a.max_magnitude_along(axes),
    }
}
fn le_abs<T: Num>(r: T, x: T) -> bool {
    if !T::SIGNED { return r <= x; }
    let z = T::of(0);
    ((x >= z) & (r <= x)) | ((x < z) & (r <= z - x))
}
fn ge_abs<T: Num>(r: T, x: T) -> bool {
    if !T::SIGNED { return r >= x; }
    let z = T::of(0);
    ((x >= z) & (r >= x)) | ((x < z) & (r >= z - x))
}
fn eq_abs<T: Num>(r: T, x: T) -> bool {
    if !T::SIGNED { return r == x; }
    let z = T::of(0);
    ((x >= z) & (r == x)) | ((x < z) & (r == z - x))
}
/// is `r` the reduction of `xs`?
fn expect<T: Num>(op: usize, r: T, xs: &[T]) {
    observe(r.bits());
    if op == SUM || op == PRODUCT {
        let mut acc = T::of(if op == SUM { 0 } else { 1 });
        let mut i = 0;
        while i < xs.len() { acc = if op == SUM { acc + xs[i] } else { acc * xs[i] }; i += 1; }
        check(r == acc, VALUE);
        return;
    }
    let (mut one, mut all) = (false, true);
    let mut i = 0;
    while i < xs.len() {
        let x = xs[i];
        match op {
            MIN => { one |= r == x; all &= r <= x }
            MAX => { one |= r == x; all &= r >= x }
            MINMAG => { one |= eq_abs(r, x); all &= le_abs(r, x) }
            _ => { one |= eq_abs(r, x); all &= ge_abs(r, x) }
        }
        i += 1;
    }
    check(one, VALUE);
    check(all, VALUE + 10);
}
fn contiguous_shape<T: El>(r: &NdArray<T>, shape: &[usize]) -> bool {
    let ok = same(r.shape(), shape) && r.is_contiguous() && r.data_slice().len() == prod(shape);
    check(ok, SHAPE);
    ok
}
/// every subset of axes (given as a bit mask), `None`: the whole array
fn red<T: Num>(shape: Vec<usize>, ops: &[usize], lays: &[usize], lo: i64, hi: i64) {
    let n = shape.len();
    let op = pick(ops);
    let mask = choice(0, 1 << n); // the last value: the whole-array form
    let form = if n > 0 && mask < 1 << n && mask > 0 { choice(0, if mask & (mask - 1) == 0 { 1 } else { 2 }) } else { 0 };
    let neg = form == 1;
    let k = pick_layout_of(&shape, lays);
    shard();
    let a: A<T> = make_sym(&shape, k, lo, hi);
    if mask == 1 << n {
        let r = whole(op, a.a());
        if !contiguous_shape(&r, &[]) { return; }
        let xs: Vec<T> = (0..a.size()).map(|k| a.e(k)).collect();
        expect(op, r.value(), &xs);
    } else {
        let mut axes = vec![];
        let mut out = vec![];
        let mut i = 0;
        while i < n {
            if mask >> i & 1 == 1 { axes.push(if neg { i as isize - n as isize } else { i as isize }) } else { out.push(shape[i]) }
            i += 1;
        }
        if neg { axes.reverse(); }
        if form == 2 { axes.rotate_left(1); axes[0] -= n as isize; }
        let r = along(op, a.a(), axes);
        if !contiguous_shape(&r, &out) { return; }
        groups(&a, &shape, mask, &out, &mut |k, xs| expect(op, r.data_slice()[k], xs));
    }
    check_view(a.a(), &shape, &|k| a.e(k)); // the operand is left alone
}
/// for every output element: the input elements it is reduced from, in row-major order
fn groups<T: El>(a: &A<T>, shape: &[usize], mask: usize, out: &[usize], f: &mut dyn FnMut(usize, &[T])) {
    let m = prod(out);
    let mut g: Vec<Vec<T>> = vec![vec![]; m];
    let mut k = 0;
    while k < a.size() {
        let idx = unravel(k, shape);
        let mut o = 0;
        let mut i = 0;
        while i < shape.len() { if mask >> i & 1 == 0 { o = o * shape[i] + idx[i]; } i += 1; }
        g[o].push(a.e(k));
        k += 1;
    }
    let mut k = 0;
    while k < m { f(k, &g[k]); k += 1; }
}
fn mean<T: Num + FloatDataType>(shape: Vec<usize>, lays: &[usize]) {
    let n = shape.len();
    let mask = choice(0, 1 << n);
    let k = pick_layout_of(&shape, lays);
    shard();
    let a: A<T> = make_sym(&shape, k, -1000, 1000);
    let div = |xs: &[T]| {
        let mut acc = T::of(0);
        let mut i = 0;
        while i < xs.len() { acc = acc + xs[i]; i += 1; }
        acc / T::of(xs.len() as i64)
    };
    if mask == 1 << n {
        let r = a.a().mean();
        if !contiguous_shape(&r, &[]) { return; }
        let xs: Vec<T> = (0..a.size()).map(|k| a.e(k)).collect();
        check(r.value() == div(&xs), VALUE);
    } else {
        let mut axes = vec![];
        let mut out = vec![];
        let mut i = 0;
        while i < n { if mask >> i & 1 == 1 { axes.push(i as isize) } else { out.push(shape[i]) } i += 1; }
        let r = a.a().mean_along(axes);
        if !contiguous_shape(&r, &out) { return; }
        groups(&a, &shape, mask, &out, &mut |k, xs| { observe(r.data_slice()[k].bits()); check(r.data_slice()[k] == div(xs), VALUE) });
    }
}
/// long one-dimensional and two-dimensional arrays
fn long<T: Num>(lens: &[usize]) {
    let n = pick(lens);
    let lay = pick(&[CONTIG, STEP]);
    let op = choice(SUM, MAXMAG);
    let rows = choice(1, 2);
    if op == SUM {
        shard();
        let a: A<T> = make_sym(&[rows, n], lay, 0, if T::W == 8 { 0 } else { 50 });
        let xs: Vec<T> = (0..a.size()).map(|k| a.e(k)).collect();
        expect(op, a.a().sum().value(), &xs);
        let r = a.a().sum_along(1isize);
        if !contiguous_shape(&r, &[rows]) { return; }
        let mut i = 0;
        while i < rows { expect(op, r.data_slice()[i], &xs[i * n..i * n + n]); i += 1; }
        return;
    }
    // one symbolic element at an arbitrary position among fixed ones (product: among ones)
    let p = pick(&[0, 1, n / 2, n - 2, n - 1]);
    shard();
    let a: A<T> = make(&[rows, n], lay, &|m| {
        let mut v: Vec<T> = (0..m).map(|i| T::of(if op == PRODUCT { 1 } else { (if i % 2 == 0 && T::SIGNED { -1 } else { 1 }) * (20 + (i * 7 % 11) as i64) })).collect();
        let at = if lay == STEP { 2 * p + 1 } else { p };
        v[at] = T::sym(-100, 100);
        v
    });
    let xs: Vec<T> = (0..a.size()).map(|k| a.e(k)).collect();
    expect(op, whole(op, a.a()).value(), &xs);
    let r = along(op, a.a(), vec![1]);
    if !contiguous_shape(&r, &[rows]) { return; }
    let mut i = 0;
    while i < rows { expect(op, r.data_slice()[i], &xs[i * n..i * n + n]); i += 1; }
}
/// every layout and set of axes with one symbolic element among fixed ones
fn few<T: Num>(shape: Vec<usize>, lays: &[usize]) {
    let n = shape.len();
    let op = choice(PRODUCT, MAXMAG);
    let mask = choice(0, 1 << n);
    let lay = pick_layout_of(&shape, lays);
    shard();
    let a: A<T> = make(&shape, lay, &|c| {
        let mut v: Vec<T> = (0..c).map(|i| T::of(if op == PRODUCT { [1, -1, 2, 1][i % 4] } else { (if i % 2 == 0 && T::SIGNED { -1 } else { 1 }) * (20 + (i * 7 % 11) as i64) })).collect();
        v[c / 2] = if op == PRODUCT { T::sym(-2, 2) } else { T::sym(-100, 100) };
        v
    });
    let (mut axes, mut out) = (vec![], vec![]);
    let mut i = 0;
    while i < n && mask < 1 << n { if mask >> i & 1 == 1 { axes.push(i as isize) } else { out.push(shape[i]) } i += 1; }
    let r = if mask == 1 << n { whole(op, a.a()) } else { along(op, a.a(), axes) };
    if !contiguous_shape(&r, &out) { return; }
    let mut fs: Vec<Few<T>> = (0..prod(&out)).map(|_| Few { op, fixed: None, rest: vec![] }).collect();
    let mut k = 0;
    while k < a.size() {
        let idx = unravel(k, &shape);
        let (mut o, mut i) = (0, 0);
        while i < n && mask < 1 << n { if mask >> i & 1 == 0 { o = o * shape[i] + idx[i]; } i += 1; }
        fs[o].add(a.e(k), a.m.offs[k] == a.base.len() / 2);
        k += 1;
    }
    let mut k = 0;
    while k < fs.len() { fs[k].done(r.data_slice()[k]); k += 1; }
}
/// the elements of a group: the fixed ones folded into one, the symbolic ones
struct Few<T: Num> { op: usize, fixed: Option<T>, rest: Vec<T> }
impl<T: Num> Few<T> {
    fn add(&mut self, x: T, symbolic: bool) {
        if symbolic || self.op == SUM { self.rest.push(x); return; }
        let y = match self.fixed { None => { self.fixed = Some(x); return; } Some(y) => y };
        let z = T::of(0);
        let (ax, ay) = if T::SIGNED { (if x < z { z - x } else { x }, if y < z { z - y } else { y }) } else { (x, y) };
        self.fixed = Some(match self.op {
            PRODUCT => y * x,
            MIN => if x < y { x } else { y },
            MAX => if x > y { x } else { y },
            MINMAG => if ax < ay { x } else { y },
            _ => if ax > ay { x } else { y },
        });
    }
    fn done(&self, r: T) {
        let mut xs = self.rest.clone();
        if let Some(x) = self.fixed { xs.push(x); }
        expect(self.op, r, &xs);
    }
}
/// large arrays: a few symbolic elements among fixed ones
fn big<T: Num>(list: &[&'static [usize]]) {
    let shape: &[usize] = pick(list);
    let n = shape.len();
    let op = choice(SUM, MAXMAG);
    let m = choice(0, if n == 1 { 1 } else { 4 });
    let mask = match m { 0 => 1 << n, 1 => 1, 2 => 1 << (n - 1), 3 => (1 << n) - 2, _ => (1 << n) - 1 };
    let lay = pick_layout_of(shape, if thorough() { MOST } else { &[CONTIG, SWAP, INNER] });
    shard();
    let a: A<T> = make(shape, lay, &|c| {
        if op == SUM { return mixed(c, -50, 50); }
        let mut v: Vec<T> = (0..c).map(|i| T::of(if op == PRODUCT { if i % 3 == 0 { -1 } else { 1 } } else { (if i % 2 == 0 && T::SIGNED { -1 } else { 1 }) * (20 + (i * 7 % 11) as i64) })).collect();
        v[c / 2] = if op == PRODUCT { T::sym(-2, 2) } else { T::sym(-100, 100) };
        v
    });
    if mask == 1 << n {
        let r = whole(op, a.a());
        if !contiguous_shape(&r, &[]) { return; }
        let mut f = Few { op, fixed: None, rest: vec![] };
        let mut k = 0;
        while k < a.size() { f.add(a.e(k), a.m.offs[k] == a.base.len() / 2); k += 1; }
        f.done(r.value());
        return;
    }
    let (mut axes, mut out) = (vec![], vec![]);
    let mut i = 0;
    while i < n { if mask >> i & 1 == 1 { axes.push(i as isize) } else { out.push(shape[i]) } i += 1; }
    let r = along(op, a.a(), axes);
    if !contiguous_shape(&r, &out) { return; }
    let mut fs: Vec<Few<T>> = (0..prod(&out)).map(|_| Few { op, fixed: None, rest: vec![] }).collect();
    let mut k = 0;
    while k < a.size() {
        let idx = unravel(k, shape);
        let mut o = 0;
        let mut i = 0;
        while i < n { if mask >> i & 1 == 0 { o = o * shape[i] + idx[i]; } i += 1; }
        fs[o].add(a.e(k), a.m.offs[k] == a.base.len() / 2);
        k += 1;
    }
    let mut k = 0;
    while k < fs.len() { fs[k].done(r.data_slice()[k]); k += 1; }
}
/// the whole range of the type; sums and products panic exactly if they overflow
fn range<T: Num>(add: fn(T, T) -> Option<T>, mul: fn(T, T) -> Option<T>, min_value: T) {
    let op = choice(SUM, MAXMAG);
    let n = choice(1, 2);
    let lay = pick(&[CONTIG, STEP, INNER]);
    let by_axis = flip();
    shard();
    let a: A<T> = make_full(&[1, n], lay);
    if op >= MINMAG && T::SIGNED { let mut i = 0; while i < n { assume(a.e(i) != min_value); i += 1; } }
    let want = match (op, n) {
        (SUM, 2) => add(a.e(0), a.e(1)),
        (PRODUCT, 2) => mul(a.e(0), a.e(1)),
        _ => Some(a.e(0)),
    };
    panic_if(want.is_none());
    let r = if by_axis { along(op, a.a(), vec![1]) } else { whole(op, a.a()) };
    panic_end();
    if !contiguous_shape(&r, if by_axis { &[1] } else { &[] }) { return; }
    let v = r.data_slice()[0];
    if op <= PRODUCT { check(Some(v) == want, VALUE) } else { let xs: Vec<T> = (0..n).map(|k| a.e(k)).collect(); expect(op, v, &xs) }
}
/// floats: every value but NaN, the infinities included
fn finite<T: Num + FloatDataType>() {
    let op = choice(SUM, MAXMAG);
    let n = choice(1, if op <= PRODUCT { 1 } else { 2 });
    let lay = pick(&[CONTIG, STEP, GAPS]);
    if lay == GAPS { assume(n == 2); }
    let by_axis = flip();
    shard();
    let x: Vec<T> = arbs(2);
    assume((x[0] == x[0]) & (x[1] == x[1]));
    // with GAPS the two values repeat in a 2x2 array that has no uniform stride
    let shape: &[usize] = if lay == GAPS { &[2, 2] } else if n == 1 { &[1] } else { &[2] };
    let a: A<T> = make(shape, lay, &|c| (0..c).map(|i| if i == 0 { x[0] } else { x[1] }).collect());
    let n = a.size();
    let axes = if lay == GAPS { vec![0, 1] } else { vec![0] };
    let r = if by_axis { along(op, a.a(), axes) } else { whole(op, a.a()) };
    let v = r.value();
    let xs: Vec<T> = (0..n).map(|k| a.e(k)).collect();
    if op <= PRODUCT {
        check(v == xs[0], VALUE);
    } else {
        let (mut one, mut all) = (false, true);
        let mut i = 0;
        while i < n {
            let x = if op >= MINMAG { if xs[i] < T::of(0) { T::of(0) - xs[i] } else { xs[i] } } else { xs[i] };
            one |= v == x;
            all &= if op == MIN || op == MINMAG { v <= x } else { v >= x };
            i += 1;
        }
        check(one, VALUE);
        check(all, VALUE + 10);
    }
}
/// axes that do not exist or are given twice are rejected
fn reject() {
    let op = choice(SUM, MAXMAG + 1);
    let shape = pick_shape(0, 3, 2);
    let k = choice(0, 2);
    let mut axes = vec![];
    let mut i = 0;
    while i < k { axes.push(choice(0, 8) as isize - 4); i += 1; }
    shard();
    let n = shape.len() as isize;
    let mut seen = vec![false; 3];
    let mut bad = false;
    let mut i = 0;
    while i < k {
        let x = if axes[i] < 0 { axes[i] + n } else { axes[i] };
        if x < 0 || x >= n { bad = true; } else { if seen[x as usize] { bad = true; } seen[x as usize] = true; }
        i += 1;
    }
    let a: A<f32> = A::new(&shape, vec![1.0; prod(&shape)]);
    if op == MAXMAG + 1 {
        // the mean does not take negative axes (documented limitation)
        let mut i = 0;
        while i < k { if axes[i] < 0 { bad = true; } i += 1; }
        panic_if(bad);
        let r = a.a().mean_along(axes);
        panic_end();
        check(r.ndims() + k == shape.len(), SHAPE);
    } else {
        panic_if(bad);
        let r = along(op, a.a(), axes);
        panic_end();
        check(r.ndims() + k == shape.len(), SHAPE);
    }
}
/// every way to write the axes
fn kinds<T: Num + FloatDataType>() {
    let op = choice(0, 6);
    let (ax, form, neg) = (choice(0, 1), choice(0, 5), op <= MAXMAG && flip()); // mean takes no negative axes (it says so)
    shard();
    let shape = [2, 2];
    let a: A<T> = make_sym(&shape, SWAP, -9, 9);
    let x = ax as isize - if neg { 2 } else { 0 };
    let v = vec![x];
    macro_rules! go { ($f:ident) => { match form { 0 => a.a().$f(x), 1 => a.a().$f(Axis(x)), 2 => a.a().$f([x]), 3 => a.a().$f(&v), 4 => a.a().$f(&v[..]), _ => a.a().$f(v.clone()) } } }
    let r = match op {
        SUM => go!(sum_along), PRODUCT => go!(product_along), MIN => go!(min_along), MAX => go!(max_along),
        MINMAG => go!(min_magnitude_along), MAXMAG => go!(max_magnitude_along), _ => go!(mean_along),
    };
    let mut out = shape.to_vec();
    let len = out.remove(ax);
    if !contiguous_shape(&r, &out) { return; }
    let d = r.data_slice();
    groups(&a, &shape, 1 << ax, &out, &mut |k, xs| if op <= MAXMAG { expect(op, d[k], xs) } else { let mut s = T::of(0); let mut i = 0; while i < xs.len() { s = s + xs[i]; i += 1; } check(d[k] == s / T::of(len as i64), VALUE) });
}
const ARITH: &[usize] = &[SUM, PRODUCT];
const CMP: &[usize] = &[MIN, MAX, MINMAG, MAXMAG];
macro_rules! dtype {
    ($t:ty) => {
        if flip() { red::<$t>(if flip() { vec![3] } else { vec![2, 2] }, ARITH, &[CONTIG, STEP, INNER, SWAP, SCALARB], -2, 2) }
        else if flip() { red::<$t>(vec![2], CMP, &[CONTIG, STEP, SCALARB], -100, 100) }
        else { red::<$t>(vec![2, 2], CMP, if thorough() { &[CONTIG, INNER, BCASTL] } else { &[BCASTL] }, -100, 100) }
    };
}
fn empties<T: Num>() {
    let s = pick(EMPTY);
    let r = s.len();
    let (what, rev) = (choice(0, 3), flip());
    let ax = if what >= 2 { choice(0, r - 1) } else { 0 };
    shard();
    let a = empty::<T>(s);
    let x = if rev & (r >= 2) { ext(&a).transpose(0, r as isize - 1) } else { ext(&a).view() };
    let mut t = x.shape().to_vec();
    t.remove(ax);
    match what {
        0 => check_array(&x.sum(), &[], &|_| T::of(0)),
        1 => check_array(&x.product(), &[], &|_| T::of(1)),
        2 => check_array(&x.sum_along(ax as isize), &t, &|_| T::of(0)),
        _ => check_array(&x.product_along(ax as isize), &t, &|_| T::of(1)),
    }
    observe(0);
}
harness! {
    h_c04_high => red::<i32>(pick(&[&[2, 1, 2, 2, 1, 2][..], &[1, 2, 1, 1, 3, 1, 2]]).to_vec(), &[SUM], &[CONTIG, REV], -1000, 1000);
    h_c04_kinds => if flip() { kinds::<f32>() } else { kinds::<f64>() };
    h_c04_empty => if flip() { empties::<i32>() } else { empties::<f32>() };
    h_c04_few3 => few::<i64>(pick(&[&[2, 3, 2][..], &[3, 1, 2], &[1, 3, 3], &[2, 2, 3]]).to_vec(), ALL);
    h_c04_few4 => few::<i32>(vec![2, 2, 2, 2], if thorough() { ALL } else { &[CONTIG, SWAP, GAPS, BCAST0] });
    h_c04_few2 => few::<f64>(pick(&[&[3, 3][..], &[4, 2], &[1, 5], &[5, 1]]).to_vec(), ALL);
    h_c04_big_f32 => big::<f32>(if thorough() { BIG } else { &[&[1025], &[300, 3], &[2, 130, 3]] });
    h_c04_big_i32 => big::<i32>(if thorough() { BIG } else { &[&[256], &[20, 31]] });
    h_c04_sum_i32 => red::<i32>(pick_shape(0, 3, 3), &[SUM], ALL, -100_000, 100_000);
    h_c04_sum_f32 => red::<f32>(pick_shape(0, 3, 2), &[SUM], ALL, -100_000, 100_000);
    h_c04_sum_f64 => red::<f64>(pick_shape(0, 2, 4), &[SUM], ALL, -100_000, 100_000);
    h_c04_product_i64 => red::<i64>(pick_shape(0, 3, 2), &[PRODUCT], ALL, -9, 9);
    h_c04_product_f64 => red::<f64>(pick_shape(0, 2, 3), &[PRODUCT], ALL, -5, 5);
    h_c04_cmp_i32 => red::<i32>(pick_shape(0, 2, 2), CMP, ALL, -100, 100);
    h_c04_cmp_f32 => red::<f32>(pick_shape(0, 2, 2), CMP, if thorough() { ALL } else { &[CONTIG, INNER, SCALARB] }, -100, 100);
    h_c04_cmp3 => red::<i16>(vec![1, 2, 2], CMP, if thorough() { MOST } else { &[SWAP] }, -100, 100);
    h_c04_rank4 => red::<i32>(pick_dims(4, &[1, 2]), &[SUM], if thorough() { ALL } else { FEW }, -1000, 1000);
    h_c04_rank5 => red::<i64>(if thorough() { pick_dims(5, &[1, 2]) } else { vec![2, 1, 2, 2, 2] }, &[SUM], &[CONTIG, SWAP], -1000, 1000);
    h_c04_deep => red::<i32>(vec![2; 4], &[SUM], DEEP, -1000, 1000);
    ht_c04_deep6 => red::<i32>(vec![2; 6], &[SUM], DEEP, -1000, 1000);
    ht_c04_wide => red::<i32>(pick_shape(1, 3, 4), &[SUM], FEW, -1000, 1000);
    h_c04_mean_f32 => mean::<f32>(pick_shape(0, 2, 3), FEW);
    h_c04_mean_f64 => mean::<f64>(pick_shape(0, 3, 2), ALL);
    h_c04_i8 => dtype!(i8);
    h_c04_i16 => dtype!(i16);
    h_c04_i32 => dtype!(i32);
    h_c04_i64 => dtype!(i64);
    h_c04_i128 => dtype!(i128);
    h_c04_isize => dtype!(isize);
    h_c04_u8 => dtype!(u8);
    h_c04_u16 => dtype!(u16);
    h_c04_u32 => dtype!(u32);
    h_c04_u64 => dtype!(u64);
    h_c04_u128 => dtype!(u128);
    h_c04_usize => dtype!(usize);
    h_c04_f32 => dtype!(f32);
    h_c04_f64 => dtype!(f64);
    h_c04_long_i32 => long::<i32>(if thorough() { LENS } else { &[8, 17, 33, 65] });
    h_c04_long_f32 => long::<f32>(if thorough() { LENS } else { &[8, 17, 33, 65] });
    h_c04_long_f64 => long::<f64>(if thorough() { LENS } else { &[8, 17, 33, 65] });
    h_c04_long_u8 => long::<u8>(&[8, 17, 33]);
    h_c04_range_i8 => range::<i8>(i8::checked_add, i8::checked_mul, i8::MIN);
    h_c04_range_i32 => range::<i32>(i32::checked_add, i32::checked_mul, i32::MIN);
    h_c04_range_u16 => range::<u16>(u16::checked_add, u16::checked_mul, 0);
    h_c04_range_u64 => range::<u64>(u64::checked_add, u64::checked_mul, 0);
    h_c04_finite_f32 => finite::<f32>();
    h_c04_finite_f64 => finite::<f64>();
    h_c04_reject => reject();
}
