//! C19: random constructors.
//! Bounds: the words drawn from the generator are arbitrary; shapes of rank 0..=3 with dimensions 0..=3 (thorough: rank 4); rand for f32 and f64;
//! uniform over listed intervals (quick: 7 for f32, 3 for f64) and, for the rejections, all pairs of float bit patterns; randint over all
//! intervals of i8 and u8 (thorough: i16, u16) and listed intervals of every other type, the extremes of each type included; one or (thorough) two elements, at most one rejected
//! draw. Attainability: some generator output yields each integer of five (thorough: six) listed intervals. randn: shape only, fixed generator words.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

extern "C" { static mut RS_DRAWS: u64; static mut RS_FIXED: u64; }
fn draws(n: usize) { unsafe { RS_DRAWS = n as u64 } }
fn shape0() -> Vec<usize> {
    let r = choice(0, if thorough() { 4 } else { 3 });
    pick_dims(r, if r < 3 { &[0, 1, 2, 3] } else { &[0, 1, 2] })
}
fn fresh<T: El>(a: &NdArray<T>, s: &[usize], ok: &dyn Fn(T) -> bool) {
    check(same(a.shape(), s) && a.is_contiguous() && !a.is_view() && a.is_uniformly_strided(), SHAPE);
    let d = a.data_slice();
    check(d.len() == prod(s) && a.size() == prod(s), COUNT);
    let mut k = 0;
    while k < d.len() { check(ok(d[k]), VALUE); k += 1; }
}
/// shapes of all four, with a generator that never rejects
fn shapes<T: El + TensorDataType>() {
    let s = shape0();
    let op = choice(0, 7);
    shard();
    unsafe { RS_FIXED = 0x9E37_79B9_7F4A_7C15 }
    let (lo, hi) = (T::of(-4), T::of(4));
    let range = |x: T| (x >= lo) & (x < hi);
    match op {
        0 => fresh(&NdArray::<T>::rand(s.clone()), &s, &|x| (x >= T::of(0)) & (x < T::of(1))),
        1 => fresh(&NdArray::<T>::uniform(s.clone(), lo, hi), &s, &range),
        2 => fresh(&NdArray::<T>::randint(s.clone(), lo, hi), &s, &range),
        3 => fresh(&NdArray::<T>::randn(s.clone()), &s, &|x| x == x),
        4 => tensor(&Tensor::<T>::rand(s.clone()), &s),
        5 => tensor(&Tensor::<T>::uniform(s.clone(), lo, hi), &s),
        6 => tensor(&Tensor::<T>::randint(s.clone(), lo, hi), &s),
        _ => tensor(&Tensor::<T>::randn(s.clone()), &s),
    }
    unsafe { RS_FIXED = 0 }
}
fn tensor<T: El + TensorDataType>(t: &Tensor<T>, s: &[usize]) {
    check(!t.requires_grad() && t.is_leaf(), OTHER);
    fresh(ext(t.ndarray()), s, &|x| x == x)
}
fn rand<T: El + FloatDataType>() {
    let s = vec![choice(1, 2)];
    let t = flip();
    shard();
    fresh(&NdArray::<T>::rand(s.clone()), &s, &|x| (x >= T::of(0)) & (x < T::of(1)));
    if t { fresh(ext(Tensor::<T>::rand(s.clone()).ndarray()), &s, &|x| (x >= T::of(0)) & (x < T::of(1))) }
}
fn uniform<T: El + FloatDataType>(lists: &[(T, T)]) {
    let (lo, hi) = pick(lists);
    let s = vec![1];
    shard();
    fresh(&NdArray::<T>::uniform(s.clone(), lo, hi), &s, &|x| (x >= lo) & (x < hi));
}
fn uniform_bad<T: El + FloatDataType>() {
    let (lo, hi) = (T::arb(), T::arb());
    assume(!(lo < hi));
    panic_if(true);
    let _ = NdArray::<T>::uniform(vec![2], lo, hi);
    panic_end();
}
fn ints<T: Num>(lo: T, hi: T, float: bool) {
    let n = if thorough() { choice(1, 2) } else { 1 };
    shard();
    draws(n + 1);
    panic_if(!(lo < hi));
    let a = NdArray::<T>::randint(vec![n], lo, hi);
    panic_end();
    fresh(&a, &[n], &|x| (x >= lo) & (x < hi) & (!float | (x.floor() == x)));
}
/// intervals of a wide type, around its extremes and across zero
macro_rules! wide { ($t:ty) => {{
    let list: [($t, $t); 8] = [(<$t>::MIN, <$t>::MAX), (<$t>::MAX - 1, <$t>::MAX), (<$t>::MAX - 3, <$t>::MAX), (<$t>::MIN, <$t>::MIN + 1),
        (<$t>::MAX / 2 + 1, <$t>::MAX / 2 + 4), (10, 10), (10, 3), (0, 6)];
    let (lo, hi) = pick(&list);
    ints::<$t>(lo, hi, false)
}} }
macro_rules! float { ($t:ty) => {{
    let list: [($t, $t); 5] = [(0.0, 1.0), (-4.0, 4.0), (3.0, 3.0), (4.0, -4.0), (-1.0, 0.0)];
    let (lo, hi) = pick(&list);
    ints::<$t>(lo, hi, true)
}} }
/// every value of the interval is attained by some generator output
fn attain<T: Num>(lo: i64, n: u32) {
    shard();
    let mut i = 0;
    while i < n { expect(100 + i); i += 1; }
    draws(2);
    let v = NdArray::<T>::randint(vec![1], T::of(lo), T::of(lo + n as i64)).value();
    let mut i = 0;
    while i < n { if v == T::of(lo + i as i64) { cover(100 + i); observe(100 + i as u64); } i += 1; }
    check(v == v, VALUE);
}
harness! {
    h_c19_shapes => if flip() { shapes::<f32>() } else { shapes::<f64>() };
    h_c19_rand_f32 => rand::<f32>();
    h_c19_rand_f64 => rand::<f64>();
    h_c19_uniform_f32 => uniform::<f32>(&[(0.0, 1.0), (-1.0, 1.0), (-5.0, 3.0), (2.5, 2.75), (0.0, 1e-3), (-8.0, -7.0), (-0.1, 0.2)]);
    h_c19_uniform_f64 => uniform::<f64>(if thorough() { &[(0.0, 1.0), (-1.0, 1.0), (2.5, 2.75), (-8.0, -4.0), (0.0, 1024.0)] } else { &[(0.0, 1.0), (-1.0, 1.0), (0.0, 1024.0)] });
    h_c19_uniform_bad => if flip() { uniform_bad::<f32>() } else { uniform_bad::<f64>() };
    h_c19_int_i8 => ints::<i8>(i8::arb(), i8::arb(), false);
    h_c19_int_u8 => ints::<u8>(u8::arb(), u8::arb(), false);
    ht_c19_int_i16 => ints::<i16>(i16::arb(), i16::arb(), false);
    ht_c19_int_u16 => ints::<u16>(u16::arb(), u16::arb(), false);
    h_c19_int_wide => match choice(0, 9) { 8 => wide!(i16), 9 => wide!(u16), 0 => wide!(i32), 1 => wide!(u32), 2 => wide!(i64), 3 => wide!(u64), 4 => wide!(isize), 5 => wide!(usize), 6 => wide!(i128), _ => wide!(u128) };
    h_c19_int_float => if flip() { float!(f32) } else { float!(f64) };
    h_c19_attain_a => attain::<i32>(-2, 5);
    h_c19_attain_b => attain::<u8>(0, 4);
    h_c19_attain_c => attain::<i64>(-1, 3);
    h_c19_attain_d => attain::<usize>(7, 1);
    h_c19_attain_e => attain::<f32>(-1, 2);
    ht_c19_attain_f => attain::<f64>(0, 2);
}
