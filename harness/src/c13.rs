//! C13: constructors.
//! Bounds: nested vectors, nested arrays and their mixtures of rank 1..=4 with dimensions 1..=3 and symbolic elements, every
//! combination of row lengths 0..=2 (ragged or empty data is rejected); filled arrays of rank 0..=4 with dimensions 0..=3 for all element
//! types; ranges with up to 6 (thorough: 12) elements over all integer start values and steps of i8, i16 and u8, and of i32 (whole range), i64 (+-2^62) and f32/f64
//! within +-1000; some longer ones (up to 1025) and ones with steps that are multiples of 1/4 or 1/8 (stop - start representable in the type); linspace with 1..=6 points (thorough: 12), f32 and f64, steps
//! that are multiples of 1/4: arbitrary start and step where the number of parts is a power of two, listed ones otherwise.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

fn fresh<T: El>(a: &NdArray<T>, shape: &[usize], want: &dyn Fn(usize) -> T) {
    check_array(a, shape, want);
    check(!a.is_view(), OTHER);
    check(a.is_uniformly_strided(), OTHER);
}
macro_rules! nested {
    ($t:ty, $new:path) => {{
        let form = choice(0, 7);
        let (p, q, r) = (choice(1, 3), choice(1, 2), choice(1, 2));
        shard();
        let v: Vec<$t> = syms(p * q * r, -100, 100);
        let d3 = || -> Vec<Vec<Vec<$t>>> { (0..p).map(|i| (0..q).map(|j| (0..r).map(|k| v[(i * q + j) * r + k]).collect()).collect()).collect() };
        match form {
            0 => fresh(as_nd!(&$new(v.clone())), &[p * q * r], &|k| v[k]),
            1 => fresh(as_nd!(&$new((0..p).map(|i| v[i * q * r..(i + 1) * q * r].to_vec()).collect::<Vec<_>>())), &[p, q * r], &|k| v[k]),
            2 => fresh(as_nd!(&$new(d3())), &[p, q, r], &|k| v[k]),
            3 => fresh(as_nd!(&$new(vec![d3()])), &[1, p, q, r], &|k| v[k]),
            4 => { let w: Vec<$t> = syms(3, -100, 100); fresh(as_nd!(&$new([w[0], w[1], w[2]])), &[3], &|k| w[k]) }
            5 => { let w: Vec<$t> = syms(6, -100, 100); fresh(as_nd!(&$new([[w[0], w[1], w[2]], [w[3], w[4], w[5]]])), &[2, 3], &|k| w[k]) }
            6 => { let w: Vec<$t> = syms(4, -100, 100); fresh(as_nd!(&$new([[[w[0]], [w[1]]], [[w[2]], [w[3]]]])), &[2, 2, 1], &|k| w[k]) }
            _ => { let w: Vec<$t> = syms(6, -100, 100); fresh(as_nd!(&$new(vec![[w[0], w[1]], [w[2], w[3]], [w[4], w[5]]])), &[3, 2], &|k| w[k]); fresh(as_nd!(&$new([vec![w[0], w[1], w[2]], vec![w[3], w[4], w[5]]])), &[2, 3], &|k| w[k]) }
        }
    }};
}
macro_rules! as_nd { ($e:expr) => { Nd::nd($e) } }
trait Nd<T: El> { fn nd(&self) -> &NdArray<'_, T>; }
impl<T: El> Nd<T> for NdArray<'_, T> { fn nd(&self) -> &NdArray<'_, T> { ext(self) } }
impl<T: El + TensorDataType> Nd<T> for Tensor<'_, T> { fn nd(&self) -> &NdArray<'_, T> { ext(self.ndarray()) } }

/// nested data of depth two and three with arbitrary row lengths
fn ragged() {
    let deep = flip();
    if !deep {
        let n = choice(0, 3);
        let lens: Vec<usize> = (0..n).map(|_| choice(0, 2)).collect();
        shard();
        let data: Vec<Vec<i32>> = lens.iter().map(|&l| syms(l, -9, 9)).collect();
        let ok = n > 0 && lens[0] > 0 && lens.iter().all(|&l| l == lens[0]);
        let flat: Vec<i32> = data.concat();
        panic_if(!ok);
        let a = NdArray::new(data);
        panic_end();
        fresh(&a, &[n, lens[0]], &|k| flat[k]);
    } else {
        let n = choice(1, 2);
        let lens: Vec<Vec<usize>> = (0..n).map(|_| { let m = choice(0, 2); (0..m).map(|_| choice(0, 2)).collect() }).collect();
        shard();
        let data: Vec<Vec<Vec<f32>>> = lens.iter().map(|l| l.iter().map(|&l| syms(l, -9, 9)).collect()).collect();
        let m = lens[0].len();
        let ok = m > 0 && lens[0][0] > 0 && lens.iter().all(|l| l.len() == m && l.iter().all(|&x| x == lens[0][0]));
        let flat: Vec<f32> = data.concat().concat();
        panic_if(!ok);
        let a = NdArray::new(data);
        panic_end();
        fresh(&a, &[n, m, lens[0][0]], &|k| flat[k]);
    }
}
fn filled<T: Num>(rmax: usize) {
    let r = choice(0, rmax);
    let form = choice(0, 3);
    let mut s = vec![];
    let mut i = 0;
    while i < r { s.push(choice(0, if r > 2 { 2 } else { 3 })); i += 1; }
    shard();
    let v = if form == 3 { T::of(0) } else { T::arb() };
    let same_v = |a: &NdArray<T>, v: T| {
        check(same(a.shape(), &s) && a.is_contiguous() && !a.is_view() && a.is_uniformly_strided(), SHAPE);
        let d = a.data_slice();
        check(d.len() == prod(&s), COUNT);
        let mut k = 0;
        while k < d.len() { check(d[k].ident(v), VALUE); k += 1; }
    };
    panic_if(prod(&s) == 0);
    let a: NdArray<'static, T> = match form {
        0 => NdArray::full(v, &s),
        1 => NdArray::zeros(&s),
        2 => NdArray::ones(&s),
        _ => NdArray::full(v, s.clone()),
    };
    panic_end();
    same_v(&a, match form { 1 => T::of(0), 2 => T::of(1), _ => v });
    if r == 0 { let a = NdArray::scalar(v); same_v(&a, v); check(a.value().ident(v), VALUE); }
}
/// start + i * step for the n values before stop, n >= 1
fn range<T: Num>(n: usize, start: i64, stop: i64, step: i64, a: NdArray<'static, T>) {
    let _ = stop;
    fresh(&a, &[n], &|k| T::of(start + k as i64 * step));
}
fn arange<T: Num>(nmax: usize, smax: i64, lo: i64, hi: i64) {
    // the number of elements, the step and the distance are enumerated, start is symbolic
    let n = choice(1, nmax);
    let step = choice(1, smax as usize) as i64;
    let down = T::SIGNED && flip();
    let over = choice(0, step as usize - 1) as i64; // how much of the last step lies beyond the end
    shard();
    let start = int(64, lo, hi);
    let dist = n as i64 * step - over;
    let (stop, step) = if down { (start - dist, -step) } else { (start + dist, step) };
    assume((stop >= lo) & (stop <= hi));
    // i * step itself is formed in the element type
    if T::W == 8 { assume(((n as i64 - 1) * step <= 127) & ((n as i64 - 1) * step >= -128) & (dist <= 127)); }
    let a: NdArray<'static, T> = NdArray::arange_with_step(T::of(start), T::of(stop), T::of(step));
    range(n, start, stop, step, a);
    if step == 1 { let b: NdArray<'static, T> = NdArray::arange(T::of(start), T::of(stop)); range(n, start, stop, 1, b); }
}
/// long ranges, ranges of fractions, empty ranges
fn arange_more<T: Num>(q: i64, lens: &[usize]) {
    // in units of 1/q: `n` steps of `step`, of which `over` lie beyond the end
    let n = pick(lens);
    let step = pick(&[1i64, 3, 4, 10]);
    let down = T::SIGNED && flip();
    let over = choice(0, step as usize - 1) as i64;
    shard();
    let start = int(64, -1000, 1000);
    let u = |x: i64| if q == 1 { T::of(x) } else { T::of(x) / T::of(q) };
    let dist = n as i64 * step - over;
    let (stop, step) = if down { (start - dist, -step) } else { (start + dist, step) };
    let a: NdArray<'static, T> = NdArray::arange_with_step(u(start), u(stop), u(step));
    fresh(&a, &[n], &|k| u(start + k as i64 * step));
}
fn none() {
    let form = choice(0, 4);
    let d = choice(0, 2) as i64;
    shard();
    let s = int(64, -100, 100);
    match form {
        0 => { panic_if(true); let a = NdArray::<f32>::linspace(s as f32, 9.0, 0); panic_end(); observe(a.size() as u64); }
        1 => { panic_if(true); let a = NdArray::<f64>::linspace_exclusive(s as f64, 9.0, 0); panic_end(); observe(a.size() as u64); }
        2 => { panic_ok(); let a = NdArray::<i32>::arange(s as i32, (s - d) as i32); panic_end(); check(a.size() == 0, COUNT); }
        3 => { panic_ok(); let a = NdArray::<f64>::arange_with_step(s as f64, (s - d) as f64, 0.5); panic_end(); check(a.size() == 0, COUNT); }
        _ => { panic_ok(); let a = NdArray::<i64>::arange_with_step(s, s + d, -3); panic_end(); check(a.size() == 0, COUNT); }
    }
}
fn linspace_long<T: Num + FloatDataType>() {
    let n = pick(&[33, 65, 129, 257]);
    let excl = flip();
    shard();
    let n = if excl { n - 1 } else { n };
    let parts = if excl { n } else { n - 1 };
    let (start, step) = (T::sym(-1000, 1000), T::sym(-100, 100) / T::of(4));
    let stop = start + T::of(parts as i64) * step;
    let a: NdArray<'static, T> = if excl { NdArray::linspace_exclusive(start, stop, n) } else { NdArray::linspace(start, stop, n) };
    fresh(&a, &[n], &|i| start + T::of(i as i64) * step);
}
fn large() {
    let s = pick(BIG).to_vec();
    let form = choice(0, 3);
    shard();
    let v = f32::arb();
    match form {
        0 => { let a = NdArray::full(v, &s); let d = a.data_slice(); check(same(a.shape(), &s) & (d.len() == prod(&s)), SHAPE); let mut k = 0; while k < d.len() { check(d[k].ident(v), VALUE); k += 1; } }
        1 => fresh(&NdArray::<i64>::zeros(&s), &s, &|_| 0),
        2 => fresh(&NdArray::<u8>::ones(&s), &s, &|_| 1),
        _ => { let w: Vec<i32> = fulls(prod(&s)); let rows: Vec<Vec<i32>> = w.chunks(s[s.len() - 1]).map(|c| c.to_vec()).collect(); fresh(&NdArray::new(rows), &[prod(&s) / s[s.len() - 1], s[s.len() - 1]], &|k| w[k]); fresh(&NdArray::new(w.clone()), &[prod(&s)], &|k| w[k]); }
    }
}
fn linspace<T: Num + FloatDataType>(nmax: usize) {
    let n = choice(1, nmax);
    let excl = flip();
    let kq = choice(0, 1); // step k/4 or k
    let parts = if excl { n } else if n == 1 { 1 } else { n - 1 };
    let (start, k): (T, T);
    if parts & (parts - 1) == 0 {
        // the division is exact in binary: arbitrary start and step
        shard();
        start = T::sym(-1000, 1000);
        k = T::sym(-100, 100);
    } else {
        let s = T::of(pick(&[-17, 0, 3, 1000]));
        let c = T::of(choice(0, 8) as i64 - 4);
        shard();
        start = s;
        k = c;
    }
    let step = if kq == 0 { k / T::of(4) } else { k };
    let stop = start + T::of(parts as i64) * step;
    let a: NdArray<'static, T> = if excl { NdArray::linspace_exclusive(start, stop, n) } else { NdArray::linspace(start, stop, n) };
    fresh(&a, &[n], &|i| start + T::of(i as i64) * step);
}
macro_rules! all { ($f:ident; $($t:ty),*; $a:expr) => {{ let mut n = 0; $(n += 1; let _ = stringify!($t);)* let k = choice(0, n - 1); let mut i = 0; $(if k == i { $f::<$t>($a); } i += 1;)* let _ = i; }} }
/// every way to write a shape
fn kinds() {
    let form = choice(0, 9);
    shard();
    let v = i32::full();
    let s3 = vec![1usize, 3, 2];
    match form {
        0 => fresh(&NdArray::full(v, 5), &[5], &|_| v),
        1 => fresh(&NdArray::full(v, 2..4), &[2, 3], &|_| v),
        2 => fresh(&NdArray::full(v, [3, 1]), &[3, 1], &|_| v),
        3 => fresh(&NdArray::full(v, &s3), &s3, &|_| v),
        4 => fresh(&NdArray::full(v, &s3[1..]), &s3[1..], &|_| v),
        5 => fresh(&NdArray::<f64>::zeros(4), &[4], &|_| 0.0),
        6 => fresh(&NdArray::<u8>::ones(1..4), &[1, 2, 3], &|_| 1),
        7 => fresh(Tensor::<f32>::zeros(3).ndarray(), &[3], &|_| 0.0),
        8 => fresh(Tensor::<f64>::ones(2..4).ndarray(), &[2, 3], &|_| 1.0),
        _ => fresh(Tensor::<f32>::full(2.5, 2).ndarray(), &[2], &|_| 2.5),
    }
}
harness! {
    h_c13_kinds => kinds();
    h_c13_more_f32 => arange_more::<f32>(4, &[1, 2, 3, 5, 17]);
    h_c13_more_f64 => arange_more::<f64>(8, &[1, 2, 7, 64, 100]);
    h_c13_more_i32 => arange_more::<i32>(1, &[33, 256, 1025]);
    h_c13_more_i64 => arange_more::<i64>(1, &[40, 300]);
    h_c13_none => none();
    h_c13_linspace_long => if flip() { linspace_long::<f32>() } else { linspace_long::<f64>() };
    h_c13_large => large();
    h_c13_nested_i32 => nested!(i32, NdArray::new);
    h_c13_nested_f64 => nested!(f64, NdArray::new);
    h_c13_nested_u8 => nested!(u8, NdArray::new);
    h_c13_nested_bool => nested!(bool, NdArray::new);
    h_c13_nested_tensor => nested!(f32, Tensor::new);
    h_c13_ragged => ragged();
    h_c13_filled => all!(filled; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64; if thorough() { 4 } else { 3 });
    h_c13_filled_bool => {
        let s = pick_shape(0, 3, 2);
        shard();
        let v = bool::full();
        fresh(&NdArray::full(v, &s), &s, &|_| v);
        fresh(&NdArray::<bool>::zeros(&s), &s, &|_| false);
        fresh(&NdArray::<bool>::ones(&s), &s, &|_| true);
    };
    h_c13_filled_tensor => {
        let s = pick_shape(0, 3, 2);
        shard();
        let v = f32::sym(-100, 100);
        fresh(Tensor::full(v, &s).ndarray(), &s, &|_| v);
        fresh(Tensor::<f32>::zeros(&s).ndarray(), &s, &|_| 0.0);
        fresh(Tensor::<f64>::ones(&s).ndarray(), &s, &|_| 1.0);
        fresh(Tensor::scalar(v).ndarray(), &[], &|_| v);
    };
    h_c13_arange_i8 => arange::<i8>(if thorough() { 12 } else { 6 }, 9, -128, 127);
    h_c13_arange_u8 => arange::<u8>(if thorough() { 12 } else { 6 }, 9, 0, 255);
    h_c13_arange_i16 => arange::<i16>(if thorough() { 12 } else { 6 }, 7, -1000, 1000);
    h_c13_arange_i32 => arange::<i32>(if thorough() { 12 } else { 6 }, 7, i32::MIN as i64, i32::MAX as i64);
    h_c13_arange_i64 => arange::<i64>(4, 5, i64::MIN / 2, i64::MAX / 2);
    h_c13_arange_f32 => arange::<f32>(4, 5, -1000, 1000);
    h_c13_arange_f64 => arange::<f64>(4, 5, -1000, 1000);
    h_c13_linspace_f32 => linspace::<f32>(if thorough() { 12 } else { 6 });
    h_c13_linspace_f64 => linspace::<f64>(if thorough() { 12 } else { 6 });
}
