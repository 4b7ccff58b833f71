//! C18: astype.
//! Bounds: all 14 x 14 pairs of numeric element types over arrays of two elements whose values are arbitrary (every integer of the type,
//! any float bit pattern; 128-bit integers: 64-bit values), in all layouts of rank 0..=2 for chosen pairs and rank 3 (thorough: 4) for f32 -> i32, i64 -> f64;
//! lengths up to 65 (thorough: 130); arrays of hundreds of elements in eight shapes (five elements symbolic). Elements that the target type cannot represent (out of range, NaN to integer) are rejected.
//! Arrays without elements: eight shapes.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

/// the language's conversion, and whether the value is representable in the target type
trait To<F>: Copy { fn conv(self) -> F; fn fits(self) -> bool; }
macro_rules! ii { ($t:ty => $($f:ty)*) => { $(
    #[allow(unused_comparisons)]
    impl To<$f> for $t { fn conv(self) -> $f { self as $f } fn fits(self) -> bool { ((self as $f) as $t == self) & (((self as $f) < 0) == (self < 0)) } }
)* } }
macro_rules! if_ { ($t:ty => $($f:ty)*) => { $( impl To<$f> for $t { fn conv(self) -> $f { self as $f } fn fits(self) -> bool { true } } )* } }
macro_rules! fi { ($t:ty => $($f:ty)*) => { $(
    impl To<$f> for $t {
        fn conv(self) -> $f { self as $f }
        fn fits(self) -> bool {
            let lo = <$f>::MIN as $t;
            let low_ok = if lo - 1.0 == lo { self >= lo } else { self > lo - 1.0 };
            // one past the largest value: a power of two, hence exact (or infinite)
            let top = ((<$f>::MAX / 2 + 1) as $t) * 2.0;
            low_ok & (self < top)
        }
    }
)* } }
macro_rules! all_int { ($m:ident; $($t:ty)*) => { $( $m!($t => i8 i16 i32 i64 isize i128 u8 u16 u32 u64 usize u128); )* } }
all_int!(ii; i8 i16 i32 i64 isize i128 u8 u16 u32 u64 usize u128);
all_int!(fi; f32 f64);
macro_rules! all_fl { ($($t:ty)*) => { $( if_!($t => f32 f64); )* } }
all_fl!(i8 i16 i32 i64 isize i128 u8 u16 u32 u64 usize u128 f32 f64);

fn values<T: El>(n: usize) -> Vec<T> { if T::W > 64 { syms(n, if T::SIGNED { i64::MIN } else { 0 }, i64::MAX) } else { arbs(n) } }
fn go<T: Num + To<F>, F: Num>(shape: Vec<usize>, lays: &[usize], gen: fn(usize) -> Vec<T>) {
    let k = pick_layout_of(&shape, lays);
    shard();
    let a: A<T> = make(&shape, k, &|n| gen(n));
    let (mut ok, mut i) = (true, 0);
    while i < a.size() { ok = ok & a.e(i).fits(); i += 1; }
    panic_if(!ok);
    let r = a.a().astype::<F>();
    panic_end();
    check(same(r.shape(), &shape) && r.is_contiguous() && !r.is_view() && r.is_uniformly_strided(), SHAPE);
    let d = r.data_slice();
    check(d.len() == a.size(), COUNT);
    let mut i = 0;
    while i < a.size() { check(d[i].ident(a.e(i).conv()), VALUE); i += 1; }
    let (d, mut i) = (a.root().data_slice(), 0);
    while i < a.base.len() { check(d[i].ident(a.base[i]), UNTOUCHED); i += 1; }
}
fn small<T: El>(n: usize) -> Vec<T> { syms(n, 0, 100) }
macro_rules! to_all { ($t:ty, $s:expr, $l:expr, $g:expr) => { match choice(0, 13) {
    0 => go::<$t, f32>($s, $l, $g), 1 => go::<$t, f64>($s, $l, $g), 2 => go::<$t, i8>($s, $l, $g), 3 => go::<$t, i16>($s, $l, $g),
    4 => go::<$t, i32>($s, $l, $g), 5 => go::<$t, i64>($s, $l, $g), 6 => go::<$t, i128>($s, $l, $g), 7 => go::<$t, isize>($s, $l, $g),
    8 => go::<$t, u8>($s, $l, $g), 9 => go::<$t, u16>($s, $l, $g), 10 => go::<$t, u32>($s, $l, $g), 11 => go::<$t, u64>($s, $l, $g),
    12 => go::<$t, u128>($s, $l, $g), _ => go::<$t, usize>($s, $l, $g),
} } }
fn pairs(kind: usize) {
    let s = vec![2];
    let l: &[usize] = &[CONTIG, STEP];
    match kind {
        0 => to_all!(i8, s, l, values), 1 => to_all!(i16, s, l, values), 2 => to_all!(i32, s, l, values), 3 => to_all!(i64, s, l, values),
        4 => to_all!(i128, s, l, values), 5 => to_all!(isize, s, l, values), 6 => to_all!(u8, s, l, values), 7 => to_all!(u16, s, l, values),
        8 => to_all!(u32, s, l, values), 9 => to_all!(u64, s, l, values), 10 => to_all!(u128, s, l, values), 11 => to_all!(usize, s, l, values),
        12 => to_all!(f32, s, l, values), _ => to_all!(f64, s, l, values),
    }
}
fn lens() -> Vec<usize> {
    let n = pick(if thorough() { LENS } else { &[4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] });
    let two = choice(0, 2);
    assume(two == 0 || n < 34);
    match two { 0 => vec![n], 1 => vec![2, n], _ => vec![n, 3] }
}
fn deep() -> Vec<usize> { let r = choice(3, if thorough() { 4 } else { 3 }); pick_dims(r, &[1, 2]) }
fn big() -> Vec<usize> { pick(BIG).to_vec() }
fn empties() {
    let s = pick(EMPTY);
    shard();
    check_empty(&empty::<i32>(s).astype::<f64>(), s);
    check_empty(&empty::<f32>(s).astype::<u8>(), s);
}
harness! {
    h_c18_high => go::<i32, i64>(high(), ALL, small);
    h_c18_empty => empties();
    h_c18_big => match choice(0, 2) { 0 => go::<f32, i32>(big(), &[CONTIG, SWAP, INNER], small), 1 => go::<i32, f64>(big(), &[CONTIG, STEP, BCAST0], small), _ => go::<u8, u64>(big(), &[CONTIG, REV], small) };
    h_c18_ints => pairs(choice(0, 11));
    h_c18_f32 => pairs(12);
    h_c18_f64 => pairs(13);
    h_c18_layout_a => go::<f32, i32>(pick_shape(0, 2, 3), ALL, small);
    h_c18_layout_b => go::<i64, f64>(pick_shape(0, 2, 3), ALL, values);
    h_c18_layout_c => go::<i32, u8>(pick_shape(0, 2, 3), ALL, small);
    h_c18_deep_a => go::<f32, f64>(deep(), ALL, small);
    h_c18_deep_b => go::<u8, i64>(deep(), ALL, values);
    h_c18_long => match choice(0, 3) { 0 => go::<f32, f64>(lens(), MOST, small), 1 => go::<i32, i64>(lens(), MOST, values), 2 => go::<f64, f32>(lens(), MOST, small), _ => go::<i32, f32>(lens(), MOST, small) };
    ht_c18_layout_d => go::<f64, u16>(pick_shape(0, 2, 3), ALL, small);
    ht_c18_layout_e => go::<u16, i16>(pick_shape(0, 2, 2), ALL, values);
}
