//! C02: in-place operators (`op=`) compute what the out-of-place operators compute, write every
//! element of the destination view and nothing else, and reject what they cannot do.
//! Bounds: destination rank 0..=3 (4 and 5 with dimensions 1..=2), dimensions 1..=3, every writable layout
//! (owned, sub-range, stride 2, transposed, inner slice, middle slice, diagonal) times right-hand sides of every
//! broadcastable shape and all twelve layouts, plus scalars and disjoint views of the destination's own memory; one-dimensional lengths up to 65 (quick) / 130 (thorough); arrays of hundreds of elements in eight shapes, five elements of each operand symbolic;
//! all 14 numeric element types, all 9 operators; integer elements over their whole range in the overflow harnesses, arbitrary
//! float bit patterns in the bits harnesses, otherwise bounded so that no result overflows.
//! Arrays without elements: eight shapes.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

type Nd<T> = NdArray<'static, T>;
type IOp<T> = fn(&mut Nd<T>, &NdArray<T>);
type IOwn<T> = fn(&mut Nd<T>, Nd<T>);
type ISc<T> = fn(&mut Nd<T>, T);
type Ev<T> = fn(T, T) -> T;
type Gen<T> = fn() -> T;
fn g<T: El, const LO: i64, const HI: i64>() -> T { T::sym(LO, HI) }
fn gens<T: El>(n: usize, g: Gen<T>) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(g()); i += 1; }
    v
}

fn arrays<T: El>(shape: Vec<usize>, bc: bool, dl: &[usize], rl: &[usize], gl: Gen<T>, gr: Gen<T>, op: IOp<T>, ev: Ev<T>) {
    let rs = if bc { operand_shape(&shape, true) } else { shape.clone() };
    let (dk, rk) = (pick_layout_of(&shape, dl), pick_layout_of(&rs, rl));
    shard();
    let mut d: A<T> = make(&shape, dk, &|n| gens(n, gl));
    let r: A<T> = make(&rs, rk, &|n| gens(n, gr));
    op(d.a_mut(), r.a());
    check_written(&d, &|k| ev(d.e(k), r.e(bsrc(k, &shape, &rs))));
    check_written(&r, &|k| r.e(k));
}
/// the right-hand side is a disjoint view of the memory that the destination is a view of
fn aliased<T: El>(gl: Gen<T>, op: IOp<T>, ev: Ev<T>) {
    let s: &[usize] = pick(&[&[3][..], &[4], &[2, 2], &[3, 3], &[2, 1], &[2, 2, 2]]);
    let a: A<T> = make(s, pick_layout_of(s, &[CONTIG, INNER, SWAP]), &|n| gens(n, gl));
    let ((mut x, mx), (y, my)) = (part(&a), part(&a));
    match bshape(&mx.shape, &my.shape) { Some(b) => assume(same(&b, &mx.shape)), None => assume(false) }
    let mut i = 0;
    while i < mx.offs.len() { let mut j = 0; while j < my.offs.len() { assume(mx.offs[i] != my.offs[j]); j += 1; } i += 1; }
    shard();
    op(&mut x, &y);
    check_written(&a, &|k| {
        let mut i = 0;
        while i < mx.offs.len() { if mx.offs[i] == a.m.offs[k] { return ev(a.e(k), a.base[my.offs[bsrc(i, &mx.shape, &my.shape)]]); } i += 1; }
        a.e(k)
    });
}
/// large arrays
fn big<T: El>(list: &[&'static [usize]], lo: i64, op: IOp<T>, sc: ISc<T>, ev: Ev<T>) {
    let out: &[usize] = pick(list);
    let bc = choice(0, if out.len() == 1 { 2 } else { 4 });
    let mut rs = out.to_vec();
    match bc { 0 | 1 => {} 2 => rs[out.len() - 1] = 1, 3 => rs[0] = 1, _ => { rs.remove(0); } }
    let dk = pick_layout_of(&out, if thorough() { WRITE } else { &[CONTIG, SWAP, INNER] });
    let rk = if bc == 1 { pick_layout_of(&rs, &[CONTIG, STEP]) } else { CONTIG };
    shard();
    let mut x: A<T> = make_mixed(out, dk, lo, 11);
    if bc == 0 {
        let s = T::sym(1, 9);
        sc(x.a_mut(), s);
        check_written(&x, &|k| ev(x.e(k), s));
        return;
    }
    let y: A<T> = make_mixed(&rs, rk, 1, if lo < 0 { 9 } else { lo });
    op(x.a_mut(), y.a());
    check_written(&x, &|k| ev(x.e(k), y.e(bsrc(k, out, &rs))));
}
fn scalars<T: El>(shape: Vec<usize>, dl: &[usize], gl: Gen<T>, gr: Gen<T>, op: ISc<T>, ev: Ev<T>) {
    let dk = pick_layout_of(&shape, dl);
    shard();
    let mut d: A<T> = make(&shape, dk, &|n| gens(n, gl));
    let s = gr();
    op(d.a_mut(), s);
    check_written(&d, &|k| ev(d.e(k), s));
}
fn owned_rhs<T: El>(shape: Vec<usize>, dl: &[usize], gl: Gen<T>, gr: Gen<T>, op: IOwn<T>, ev: Ev<T>) {
    let rs = operand_shape(&shape, true);
    let dk = pick_layout_of(&shape, dl);
    shard();
    let mut d: A<T> = make(&shape, dk, &|n| gens(n, gl));
    let r: A<T> = make(&rs, CONTIG, &|n| gens(n, gr));
    let rb = r.base.clone();
    op(d.a_mut(), r.take());
    check_written(&d, &|k| ev(d.e(k), rb[bsrc(k, &shape, &rs)]));
}
fn long<T: El>(lens: &[usize], lays: &[usize], gl: Gen<T>, gr: Gen<T>, op: IOp<T>, sc: ISc<T>, ev: Ev<T>) {
    let n = pick(lens);
    let (dk, rk) = (pick(lays), pick(lays));
    let form = choice(0, 2); // same length, one-element operand, scalar
    shard();
    let rn = if form == 0 { n } else { 1 };
    let mut d: A<T> = make(&[n], dk, &|n| gens(n, gl));
    let r: A<T> = make(&[rn], rk, &|n| gens(n, gr));
    if form == 2 { sc(d.a_mut(), r.e(0)) } else { op(d.a_mut(), r.a()) }
    check_written(&d, &|k| ev(d.e(k), r.e(if rn == 1 { 0 } else { k })));
}
/// shapes that do not fit, and read-only destinations, are rejected
fn reject<T: El>(op: IOp<T>, sc: ISc<T>) {
    let ds = pick_shape(0, 2, 3);
    let rs = pick_shape(0, 3, 3);
    let dk = pick_layout_of(&ds, &[CONTIG, STEP, INNER, BCAST0, SCALARB]);
    let form = flip();
    shard();
    let mut d: A<T> = make_sym(&ds, dk, 1, 5);
    let r: A<T> = make_sym(&rs, CONTIG, 1, 3);
    panic_if(!writable(dk) || (!form && !can_bcast(&rs, &ds)));
    if form { sc(d.a_mut(), r.e(0)) } else { op(d.a_mut(), r.a()) }
    panic_end();
}
fn full<T: El>(gr: Gen<T>, op: IOp<T>, sc: ISc<T>, chk: fn(T, T) -> Option<T>) {
    let n = choice(1, 2);
    let dk = pick(&[CONTIG, STEP]);
    let form = flip();
    shard();
    let mut d: A<T> = make(&[n], dk, &|n| gens(n, T::full));
    let r: A<T> = make(&[if form { 1 } else { n }], CONTIG, &|n| gens(n, gr));
    let mut bad = false;
    let mut want = vec![];
    let mut k = 0;
    while k < n {
        match chk(d.e(k), r.e(if form { 0 } else { k })) {
            Some(x) => want.push(x),
            None => { bad = true; want.push(T::of(0)); }
        }
        k += 1;
    }
    panic_if(bad);
    if form { sc(d.a_mut(), r.e(0)) } else { op(d.a_mut(), r.a()) }
    panic_end();
    check_written(&d, &|k| want[k]);
}
fn bits<T: El>(op: IOp<T>, sc: ISc<T>, ev: Ev<T>) {
    let dk = pick(&[CONTIG, STEP]);
    let form = flip();
    shard();
    let mut d: A<T> = make_arb(&[2], dk);
    let r: A<T> = make_arb(&[2], CONTIG);
    if form { sc(d.a_mut(), r.e(0)) } else { op(d.a_mut(), r.a()) }
    let now = d.root().data_slice();
    let mut k = 0;
    while k < 2 { check(now[d.m.offs[k]].ident(ev(d.e(k), r.e(if form { 0 } else { k }))), VALUE); k += 1; }
}
macro_rules! small {
    ($t:ty, $iop:tt, $op:tt, $gl:expr, $gr:expr) => {
        match choice(0, 3) {
            0 => arrays::<$t>(vec![2, 2], false, &[CONTIG, STEP, INNER], &[CONTIG, STEP, INNER, BCASTL], $gl, $gr, |a, b| *a $iop b, |a, b| a $op b),
            1 => arrays::<$t>(vec![2, 3], true, &[CONTIG, SWAP], &[CONTIG], $gl, $gr, |a, b| *a $iop b, |a, b| a $op b),
            2 => scalars::<$t>(pick_shape(0, 2, 2), &[CONTIG, STEP, INNER], $gl, $gr, |a, b| *a $iop b, |a, b| a $op b),
            _ => owned_rhs::<$t>(vec![2, 2], &[CONTIG, INNER], $gl, $gr, |a, b| *a $iop b, |a, b| a $op b),
        }
    };
}
macro_rules! arith {
    ($t:ty) => {
        match choice(0, 3) {
            0 => small!($t, +=, +, g::<$t, -60, 60>, g::<$t, -60, 60>),
            1 => small!($t, -=, -, g::<$t, 60, 120>, g::<$t, 0, 60>),
            2 => small!($t, *=, *, g::<$t, -11, 11>, g::<$t, -11, 11>),
            _ => small!($t, %=, %, g::<$t, -100, 100>, g::<$t, 1, 100>),
        }
    };
}
macro_rules! bitops {
    ($t:ty) => {
        match choice(0, 3) {
            0 => small!($t, &=, &, <$t as El>::full, <$t as El>::full),
            1 => small!($t, |=, |, <$t as El>::full, <$t as El>::full),
            2 => small!($t, <<=, <<, <$t as El>::full, g::<$t, 0, 7>),
            _ => small!($t, >>=, >>, <$t as El>::full, g::<$t, 0, 7>),
        }
    };
}
macro_rules! longs {
    ($t:ty) => {
        match choice(0, 2) {
            0 => long!($t, +=, +, g::<$t, -60, 60>, g::<$t, -60, 60>),
            1 => long!($t, -=, -, g::<$t, 60, 120>, g::<$t, 0, 60>),
            _ => long!($t, *=, *, g::<$t, -11, 11>, g::<$t, -11, 11>),
        }
    };
}
macro_rules! long {
    ($t:ty, $iop:tt, $op:tt, $gl:expr, $gr:expr) => {
        long::<$t>(if thorough() { LENS } else { &[5, 8, 9, 16, 17, 33, 65] }, &[CONTIG, STEP], $gl, $gr, |a, b| *a $iop b, |a, b| *a $iop b, |a, b| a $op b)
    };
}
macro_rules! full {
    ($t:ty, $iop:tt, $chk:expr) => { full::<$t>(<$t as El>::full, |a, b| *a $iop b, |a, b| *a $iop b, $chk) };
}
macro_rules! fulls {
    ($t:ty) => {
        match choice(0, 5) {
            0 => full!($t, +=, |a, b| a.checked_add(b)),
            1 => full!($t, -=, |a, b| a.checked_sub(b)),
            2 => full!($t, *=, |a, b| a.checked_mul(b)),
            3 => full!($t, %=, |a, b| a.checked_rem(b)),
            4 => full!($t, <<=, |a, b| if b < 0 as $t || b >= <$t as El>::W as $t { None } else { Some(a << b) }),
            _ => full!($t, >>=, |a, b| if b < 0 as $t || b >= <$t as El>::W as $t { None } else { Some(a >> b) }),
        }
    };
}
macro_rules! fbits {
    ($t:ty) => {
        match choice(0, 3) {
            0 => bits::<$t>(|a, b| *a += b, |a, b| *a += b, |a, b| a + b),
            1 => bits::<$t>(|a, b| *a -= b, |a, b| *a -= b, |a, b| a - b),
            2 => bits::<$t>(|a, b| *a *= b, |a, b| *a *= b, |a, b| a * b),
            _ => bits::<$t>(|a, b| *a /= b, |a, b| *a /= b, |a, b| a / b),
        }
    };
}
const M: i64 = 1_000_000;
fn empties<T: Num>() {
    let s = pick(EMPTY);
    let (op, form) = (choice(0, 2), choice(0, 2));
    shard();
    let (mut a, b) = (empty::<T>(s), empty::<T>(s));
    let one = NdArray::<T>::ones(vec![1; s.len()]);
    match form {
        0 => match op { 0 => a += &b, 1 => a -= &b, _ => a *= &b },
        1 => match op { 0 => a += T::of(1), 1 => a -= T::of(1), _ => a *= T::of(1) },
        _ => match op { 0 => a += &one, 1 => a -= &one, _ => a *= &one },
    }
    check_empty(&a, s);
}
harness! {
    h_c02_empty => if flip() { empties::<i32>() } else { empties::<f64>() };
    h_c02_big_add => big::<f32>(BIG, -50, |a, b| *a += b, |a, b| *a += b, |a, b| a + b);
    h_c02_big_mul => big::<i32>(if thorough() { BIG } else { BIG_Q }, -50, |a, b| *a *= b, |a, b| *a *= b, |a, b| a * b);
    h_c02_big_sub => big::<f64>(if thorough() { BIG } else { BIG_Q }, -50, |a, b| *a -= b, |a, b| *a -= b, |a, b| a - b);
    h_c02_alias_i32 => aliased::<i32>(g::<i32, -1000, 1000>, |a, b| *a -= b, |a, b| a - b);
    h_c02_alias_f32 => aliased::<f32>(g::<f32, -1000, 1000>, |a, b| *a *= b, |a, b| a * b);
    h_c02_sub_i32 => arrays::<i32>(pick_shape(0, 3, 2), true, WRITE, ALL, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| *a -= b, |a, b| a - b);
    h_c02_add_f32 => arrays::<f32>(pick_shape(1, 2, 3), true, WRITE, MOST, g::<f32, {-M}, {M}>, g::<f32, {-M}, {M}>, |a, b| *a += b, |a, b| a + b);
    h_c02_mul_f64 => arrays::<f64>(pick_shape(1, 3, 2), true, if thorough() { WRITE } else { &[CONTIG, INNER, SWAP] }, &[CONTIG, STEP], g::<f64, {-1000}, {1000}>, g::<f64, {-1000}, {1000}>, |a, b| *a *= b, |a, b| a * b);
    h_c02_rem_i32 => arrays::<i32>(pick_shape(1, 2, 3), true, &[CONTIG, GAPS], &[CONTIG, SWAP], g::<i32, {-M}, {M}>, g::<i32, 1, {M}>, |a, b| *a %= b, |a, b| a % b);
    h_c02_bits_i64 => arrays::<i64>(pick_shape(1, 2, 3), true, &[CONTIG, STEP, DIAG], &[CONTIG], i64::full, i64::full, |a, b| *a |= b, |a, b| a | b);
    h_c02_long_rem => long!(i64, %=, %, g::<i64, {-M}, {M}>, g::<i64, 1, {M}>);
    h_c02_long_bits => match choice(0, 3) {
        0 => long!(i32, &=, &, i32::full, i32::full), 1 => long!(u64, |=, |, u64::full, u64::full),
        2 => long!(u16, <<=, <<, u16::full, g::<u16, 0, 15>), _ => long!(i32, >>=, >>, i32::full, g::<i32, 0, 31>),
    };
    h_c02_rank4 => arrays::<i16>(pick_dims(4, &[1, 2]), true, if thorough() { WRITE } else { &[CONTIG, SWAP, INNER] }, &[CONTIG], g::<i16, -90, 90>, g::<i16, -90, 90>, |a, b| *a *= b, |a, b| a * b);
    ht_c02_rank5 => arrays::<i64>(pick_dims(5, &[1, 2]), true, &[CONTIG, SWAP, MIDDLE], &[CONTIG, SWAP], g::<i64, {-M}, {M}>, g::<i64, {-M}, {M}>, |a, b| *a -= b, |a, b| a - b);
    h_c02_deep => arrays::<i32>(vec![2; choice(4, 5)], false, &[CONTIG, GAPS, REV], DEEP, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| *a -= b, |a, b| a - b);
    h_c02_deep_scalar => scalars::<f32>(vec![2; choice(4, 6)], &[CONTIG, GAPS, REV, MIDDLE], g::<f32, {-M}, {M}>, g::<f32, {-M}, {M}>, |a, b| *a -= b, |a, b| a - b);
    h_c02_div_f64 => arrays::<f64>(pick_shape(1, 2, 3), true, FEW, FEW, g::<f64, {-M}, {M}>, g::<f64, 1, {M}>, |a, b| *a /= b, |a, b| a / b);
    h_c02_scalar_i32 => scalars::<i32>(pick_shape(0, 3, 3), WRITE, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| *a -= b, |a, b| a - b);
    h_c02_scalar_f64 => scalars::<f64>(pick_shape(0, 3, 2), WRITE, g::<f64, {-M}, {M}>, g::<f64, 1, {M}>, |a, b| *a /= b, |a, b| a / b);
    h_c02_owned_i32 => owned_rhs::<i32>(pick_shape(0, 3, 2), FEW, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| *a -= b, |a, b| a - b);
    h_c02_reject_add => reject::<i32>(|a, b| *a += b, |a, b| *a += b);
    h_c02_reject_sub => reject::<f32>(|a, b| *a -= b, |a, b| *a -= b);
    h_c02_reject_mul => reject::<f64>(|a, b| *a *= b, |a, b| *a *= b);
    h_c02_reject_div => reject::<f64>(|a, b| *a /= b, |a, b| *a /= b);
    h_c02_reject_rem => reject::<i16>(|a, b| *a %= b, |a, b| *a %= b);
    h_c02_reject_bit => match choice(0, 3) {
        0 => reject::<u8>(|a, b| *a &= b, |a, b| *a &= b),
        1 => reject::<u8>(|a, b| *a |= b, |a, b| *a |= b),
        2 => reject::<i32>(|a, b| *a <<= b, |a, b| *a <<= b),
        _ => reject::<i32>(|a, b| *a >>= b, |a, b| *a >>= b),
    };
    h_c02_i8 => arith!(i8);
    h_c02_i16 => arith!(i16);
    h_c02_i32 => arith!(i32);
    h_c02_i64 => arith!(i64);
    h_c02_i128 => arith!(i128);
    h_c02_isize => arith!(isize);
    h_c02_u8 => arith!(u8);
    h_c02_u16 => arith!(u16);
    h_c02_u32 => arith!(u32);
    h_c02_u64 => arith!(u64);
    h_c02_u128 => arith!(u128);
    h_c02_usize => arith!(usize);
    h_c02_f32 => arith!(f32);
    h_c02_f64 => arith!(f64);
    h_c02_fdiv_f32 => small!(f32, /=, /, g::<f32, -100, 100>, g::<f32, 1, 100>);
    h_c02_fdiv_f64 => small!(f64, /=, /, g::<f64, -100, 100>, g::<f64, 1, 100>);
    h_c02_bit_i8 => bitops!(i8);
    h_c02_bit_i16 => bitops!(i16);
    h_c02_bit_i32 => bitops!(i32);
    h_c02_bit_i64 => bitops!(i64);
    h_c02_bit_i128 => bitops!(i128);
    h_c02_bit_isize => bitops!(isize);
    h_c02_bit_u8 => bitops!(u8);
    h_c02_bit_u16 => bitops!(u16);
    h_c02_bit_u32 => bitops!(u32);
    h_c02_bit_u64 => bitops!(u64);
    h_c02_bit_u128 => bitops!(u128);
    h_c02_bit_usize => bitops!(usize);
    h_c02_long_i32 => longs!(i32);
    h_c02_long_f32 => longs!(f32);
    h_c02_long_f64 => longs!(f64);
    h_c02_longdiv_f32 => long!(f32, /=, /, g::<f32, -100, 100>, g::<f32, 1, 100>);
    h_c02_full_i8 => fulls!(i8);
    h_c02_full_i32 => fulls!(i32);
    h_c02_full_u16 => fulls!(u16);
    h_c02_bits_f32 => fbits!(f32);
    h_c02_bits_f64 => fbits!(f64);
}
