//! C17: negation.
//! Bounds: rank 0..=4, dimensions 1..=3 (1..=2 from rank 3; thorough: rank 5) in all twelve layouts, one-dimensional lengths up to 129 (thorough: 130)
//! and rows around the unrolling boundaries in two dimensions; arrays of hundreds of elements in eight shapes (five elements symbolic); all signed integer types over their whole range (i128: 64-bit values) (the minimum has no
//! negation: rejected, as everywhere in the debug profile), f32 and f64 over integer values and over arbitrary bit patterns; arrays by
//! reference and by value, tensors (with and without gradients) of both types.
//! Arrays without elements: eight shapes.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;
use std::ops::Neg;

type NegR<T> = fn(&NdArray<T>) -> NdArray<'static, T>;
type NegO<T> = fn(NdArray<'static, T>) -> NdArray<'static, T>;
fn check_bits<T: El>(r: &NdArray<T>, shape: &[usize], want: &dyn Fn(usize) -> T) {
    check(same(r.shape(), shape) && r.is_contiguous() && !r.is_view(), SHAPE);
    let d = r.data_slice();
    check(d.len() == prod(shape), COUNT);
    let mut k = 0;
    while k < prod(shape) { check(d[k].ident(want(k)), VALUE); k += 1; }
}
fn ints<T: El + Neg<Output = T>>(shape: Vec<usize>, lays: &[usize], f: NegR<T>, o: NegO<T>) {
    let k = pick_layout_of(&shape, lays);
    let by_value = choice(0, 1);
    shard();
    let a: A<T> = if T::W > 64 { make_sym(&shape, k, i64::MIN, i64::MAX) } else { make_full(&shape, k) };
    let min = -1i64 << (if T::W > 64 { 64 } else { T::W } - 1);
    let (n, mut bad) = (a.size(), false);
    let mut i = 0;
    while i < n { bad = bad | ((T::W <= 64) & (a.e(i) == T::of(min))); i += 1; }
    if by_value == 1 {
        panic_if(bad);
        let (v, a) = a.split();
        let r = o(v);
        panic_end();
        check_bits(&r, &shape, &|k| -a.e(k));
        a.intact();
    } else {
        panic_if(bad);
        let r = f(a.a());
        panic_end();
        check_bits(&r, &shape, &|k| -a.e(k));
        check_written(&a, &|k| a.e(k));
    }
}
fn floats<T: El + Neg<Output = T>>(shape: Vec<usize>, lays: &[usize], arb: bool, f: NegR<T>, o: NegO<T>) {
    let k = pick_layout_of(&shape, lays);
    let by_value = choice(0, 1);
    shard();
    let a: A<T> = if arb { make_arb(&shape, k) } else { make_full(&shape, k) };
    if by_value == 1 {
        let (v, a) = a.split();
        check_bits(&o(v), &shape, &|k| -a.e(k));
        a.intact();
    } else {
        let r = f(a.a());
        check_bits(&r, &shape, &|k| -a.e(k));
        let (d, mut i) = (a.root().data_slice(), 0);
        while i < a.base.len() { check(d[i].ident(a.base[i]), UNTOUCHED); i += 1; }
    }
}
fn tensors<T: El + TensorDataType>() {
    let r = choice(0, 3);
    let s = pick_dims(r, if r < 3 { &[1, 2, 3] } else { &[1, 2] });
    let (grad, own, tr) = (flip(), flip(), flip());
    assume(!tr || r >= 2);
    shard();
    let base: Vec<T> = fulls(prod(&s));
    let mut t: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.clone(), base.clone()) };
    t.set_requires_grad(grad);
    let mut m = M::new(&s);
    if tr { m = m.transpose(0, r - 1); t = t.transpose(0, -1); }
    let out = if own { -t } else {
        let o = -&t;
        check_view(t.ndarray(), &m.shape, &|k| base[m.offs[k]]);
        o
    };
    check_view(out.ndarray(), &m.shape, &|k| -base[m.offs[k]]);
}
fn shapes() -> Vec<usize> {
    let r = choice(0, if thorough() { 5 } else { 4 });
    pick_dims(r, if r < 3 { &[1, 2, 3] } else { &[1, 2] })
}
fn lens() -> Vec<usize> {
    let n = pick(if thorough() { LENS } else { LENS_Q });
    let two = choice(0, 2);
    assume(two == 0 || n < 34 || thorough());
    match two { 0 => vec![n], 1 => vec![2, n], _ => vec![n, 3] }
}
macro_rules! i { ($t:ty, $s:expr, $l:expr) => { ints::<$t>($s, $l, |a| -a, |a| -a) } }
macro_rules! f { ($t:ty, $s:expr, $l:expr, $arb:expr) => { floats::<$t>($s, $l, $arb, |a| -a, |a| -a) } }
const L1: &[usize] = &[CONTIG, PREFIX, STEP, SCALARB, DIAG, SWAP, INNER];
fn big() -> Vec<usize> { pick(BIG).to_vec() }
fn empties() {
    let s = pick(EMPTY);
    let f = choice(0, 2);
    shard();
    match f {
        0 => check_empty(&-&empty::<f32>(s), s),
        1 => check_empty(&-empty::<f64>(s), s),
        _ => check_empty(&-&empty::<i32>(s), s),
    }
}
harness! {
    h_c17_high => if flip() { f!(f32, high(), ALL, false) } else { i!(i32, high(), ALL) };
    h_c17_empty => empties();
    h_c17_big => match choice(0, 2) { 0 => f!(f32, big(), &[CONTIG, SWAP, INNER, BCAST0], false), 1 => f!(f64, big(), &[CONTIG, STEP, GAPS], false), _ => i!(i32, big(), &[CONTIG, REV, MIDDLE]) };
    h_c17_shapes_f32 => f!(f32, shapes(), ALL, false);
    h_c17_shapes_f64 => f!(f64, shapes(), ALL, false);
    h_c17_shapes_i32 => i!(i32, shapes(), ALL);
    h_c17_bits => if flip() { f!(f32, pick_shape(0, 2, 3), ALL, true) } else { f!(f64, pick_shape(0, 2, 3), ALL, true) };
    h_c17_long_f32 => f!(f32, lens(), L1, false);
    h_c17_long_f64 => f!(f64, lens(), L1, false);
    h_c17_long_i32 => i!(i32, lens(), L1);
    h_c17_types => match choice(0, 4) {
        0 => i!(i8, pick_shape(0, 2, 3), ALL), 1 => i!(i16, pick_shape(0, 2, 3), ALL), 2 => i!(i64, pick_shape(0, 2, 3), ALL),
        3 => i!(isize, pick_shape(0, 2, 3), ALL), _ => i!(i128, pick_shape(0, 2, 3), ALL),
    };
    h_c17_tensor => if flip() { tensors::<f32>() } else { tensors::<f64>() };
    ht_c17_long_types => match choice(0, 4) {
        0 => i!(i8, lens(), L1), 1 => i!(i16, lens(), L1), 2 => i!(i64, lens(), L1), 3 => i!(isize, lens(), L1), _ => i!(i128, lens(), L1),
    };
}
