//! C01: elementwise binary operators with broadcasting.
//! Bounds: all 14 numeric types; output rank 0..=3 with dimensions 1..=2 in all pairs of twelve layouts and all broadcast
//! patterns (i32), rank 1..=2 with dimensions 1..=3 (f32, f64), rank 4 to 6 with dimensions 1..=2 (fewer layouts); other
//! types on [3], [2,2], [2,3]; arrays of hundreds of elements in eight shapes, five elements of each operand symbolic; one-dimensional lengths up to 65 (thorough: 130) for i32, u8, f32, f64.  Values: integers in
//! +-1e6 (or the type's range without overflow) everywhere; the whole range of i8, u8, u16, i32 with the panic on overflow,
//! and every f32/f64 bit pattern (operands sharing memory: six shapes, eight views each) for + - * /, on lengths 1..=2.
//! Arrays without elements: eight shapes.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

type Nd<T> = NdArray<'static, T>;
type Op<T> = fn(&NdArray<T>, &NdArray<T>) -> Nd<T>;
type Ev<T> = fn(T, T) -> T;
type Gen<T> = fn() -> T;

fn gens<T: El>(n: usize, g: Gen<T>) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(g()); i += 1; }
    v
}

/// array-array form: every way two operands can broadcast to `out`, in the given layouts
fn arrays<T: El>(out: Vec<usize>, bc: bool, drop: bool, lays: &[usize], gl: Gen<T>, gr: Gen<T>, op: Op<T>, ev: Ev<T>) {
    let (ls, rs) = if bc { (operand_shape(&out, drop), operand_shape(&out, drop)) } else { (out.clone(), out.clone()) };
    match bshape(&ls, &rs) { Some(b) => assume(same(&b, &out)), None => assume(false) }
    let (lk, rk) = (pick_layout_of(&ls, lays), pick_layout_of(&rs, lays));
    shard();
    let l: A<T> = make(&ls, lk, &|n| gens(n, gl));
    let r: A<T> = make(&rs, rk, &|n| gens(n, gr));
    let c = op(l.a(), r.a());
    check_array(&c, &out, &|k| ev(l.e(bsrc(k, &out, &ls)), r.e(bsrc(k, &out, &rs))));
    check(!c.is_view(), OTHER);
    // operands are left alone
    check_view(l.a(), &ls, &|k| l.e(k));
    check_view(r.a(), &rs, &|k| r.e(k));
}

/// both operands are views of the same memory
fn aliased<T: El>(gl: Gen<T>, op: Op<T>, ev: Ev<T>) {
    let s: &[usize] = pick(&[&[3][..], &[2, 2], &[3, 3], &[2, 1], &[2, 2, 2], &[]]);
    let a: A<T> = make(s, pick_layout_of(s, &[CONTIG, INNER]), &|n| gens(n, gl));
    let ((x, mx), (y, my)) = (part(&a), part(&a));
    let out = match bshape(&mx.shape, &my.shape) { Some(b) => b, None => { assume(false); return; } };
    shard();
    let c = op(&x, &y);
    check_array(&c, &out, &|k| ev(a.base[mx.offs[bsrc(k, &out, &mx.shape)]], a.base[my.offs[bsrc(k, &out, &my.shape)]]));
    check_written(&a, &|k| a.e(k));
}
/// one-dimensional operands of many lengths
fn long<T: El>(lens: &[usize], lays: &[usize], gl: Gen<T>, gr: Gen<T>, op: Op<T>, ev: Ev<T>) {
    let n = pick(lens);
    let (lk, rk) = (pick(lays), pick(lays));
    let scalar = choice(0, 2); // a one-element operand on either side
    shard();
    let (ln, rn) = (if scalar == 1 { 1 } else { n }, if scalar == 2 { 1 } else { n });
    let l: A<T> = make(&[ln], lk, &|n| gens(n, gl));
    let r: A<T> = make(&[rn], rk, &|n| gens(n, gr));
    let c = op(l.a(), r.a());
    let d = c.data_slice();
    check(same(c.shape(), &[n]) && d.len() == n, SHAPE);
    let mut k = 0;
    while k < n {
        check(d[k] == ev(l.e(if ln == 1 { 0 } else { k }), r.e(if rn == 1 { 0 } else { k })), VALUE);
        k += 1;
    }
}

/// large arrays
fn big<T: El>(list: &[&'static [usize]], lo: i64, op: Op<T>, ev: Ev<T>) {
    let out: &[usize] = pick(list);
    let bc = choice(0, if out.len() == 1 { 1 } else { 3 });
    let mut rs = out.to_vec();
    match bc { 0 => {} 1 => rs[out.len() - 1] = 1, 2 => rs[0] = 1, _ => { rs.remove(0); } }
    let flip_ = thorough() && flip();
    let lk = pick_layout_of(&out, if thorough() { MOST } else { &[CONTIG, SWAP, INNER] });
    let rk = pick_layout_of(&rs, if bc == 0 { &[CONTIG, STEP] } else { &[CONTIG] });
    shard();
    let x: A<T> = make_mixed(out, lk, lo, 11);
    let y: A<T> = make_mixed(&rs, rk, 1, if lo < 0 { 9 } else { lo });
    let c = if flip_ { op(y.a(), x.a()) } else { op(x.a(), y.a()) };
    check_array(&c, out, &|k| { let (p, q) = (x.e(k), y.e(bsrc(k, out, &rs))); if flip_ { ev(q, p) } else { ev(p, q) } });
}
/// array-scalar form, owned and borrowed
fn scalar<T: El>(shape: Vec<usize>, lays: &[usize], gl: Gen<T>, gr: Gen<T>, op: fn(&NdArray<T>, T) -> Nd<T>, own: fn(Nd<T>, T) -> Nd<T>, ev: Ev<T>) {
    let k = pick_layout_of(&shape, lays);
    let owned_form = flip();
    shard();
    let l: A<T> = make(&shape, k, &|n| gens(n, gl));
    let s = gr();
    if owned_form {
        let (v, l) = l.split();
        let c = own(v, s);
        check_array(&c, &shape, &|k| ev(l.e(k), s));
        l.intact();
    } else {
        let c = op(l.a(), s);
        check_array(&c, &shape, &|k| ev(l.e(k), s));
        check_view(l.a(), &shape, &|k| l.e(k));
    }
}

/// owned/borrowed operand combinations; consumed operands are released, and views leave what they borrow from alone
const FORMS: &[usize] = &[CONTIG, PREFIX, SWAP];
fn forms<T: El>(shape: Vec<usize>, gl: Gen<T>, gr: Gen<T>, op: Op<T>, oo: fn(Nd<T>, Nd<T>) -> Nd<T>, ob: fn(Nd<T>, &NdArray<T>) -> Nd<T>, bo: fn(&NdArray<T>, Nd<T>) -> Nd<T>, ev: Ev<T>) {
    let form = choice(0, 3);
    let rs = operand_shape(&shape, true);
    let (lk, rk) = (pick(FORMS), pick(FORMS));
    assume(layout_ok(rk, &rs));
    shard();
    let l: A<T> = make(&shape, lk, &|n| gens(n, gl));
    let r: A<T> = make(&rs, rk, &|n| gens(n, gr));
    let (c, l, r) = match form {
        0 => (op(l.a(), r.a()), l, r),
        1 => { let ((x, l), (y, r)) = (l.split(), r.split()); (oo(x, y), l, r) }
        2 => { let (x, l) = l.split(); (ob(x, r.a()), l, r) }
        _ => { let (y, r) = r.split(); (bo(l.a(), y), l, r) }
    };
    check_array(&c, &shape, &|k| ev(l.e(k), r.e(bsrc(k, &shape, &rs))));
    check(!c.is_view(), OTHER);
    l.intact();
    r.intact();
}

/// the full range of the element type: a panic exactly when the scalar operator panics
fn full<T: El>(lays: &[usize], gl: Gen<T>, gr: Gen<T>, op: Op<T>, scal: fn(&NdArray<T>, T) -> Nd<T>, chk: fn(T, T) -> Option<T>) {
    let n = choice(1, 2);
    let (lk, rk) = (pick(lays), pick(lays));
    let with_scalar = flip();
    shard();
    let l: A<T> = make(&[n], lk, &|n| gens(n, gl));
    let r: A<T> = make(&[if with_scalar { 1 } else { n }], rk, &|n| gens(n, gr));
    let mut bad = false;
    let mut want = vec![];
    let mut k = 0;
    while k < n {
        match chk(l.e(k), r.e(if with_scalar { 0 } else { k })) {
            Some(x) => want.push(x),
            None => { bad = true; want.push(T::of(0)); }
        }
        k += 1;
    }
    panic_if(bad);
    let c = if with_scalar { scal(l.a(), r.e(0)) } else { op(l.a(), r.a()) };
    panic_end();
    let d = c.data_slice();
    check(d.len() == n, SHAPE);
    let mut k = 0;
    while k < n { check(d[k].ident(want[k]), VALUE); k += 1; }
}
/// floats: arbitrary bit patterns, the result is the IEEE-754 result of the scalar operator
fn bits<T: El>(lays: &[usize], op: Op<T>, scal: fn(&NdArray<T>, T) -> Nd<T>, ev: Ev<T>) {
    let (lk, rk) = (pick(lays), pick(lays));
    let with_scalar = flip();
    shard();
    let n = 2;
    let l: A<T> = make_arb(&[n], lk);
    let r: A<T> = make_arb(&[n], rk);
    let c = if with_scalar { scal(l.a(), r.e(0)) } else { op(l.a(), r.a()) };
    let d = c.data_slice();
    check(d.len() == n, SHAPE);
    let mut k = 0;
    while k < n { check(d[k].ident(ev(l.e(k), r.e(if with_scalar { 0 } else { k }))), VALUE); k += 1; }
}

fn g<T: El, const LO: i64, const HI: i64>() -> T { T::sym(LO, HI) }

/// all forms of one operator for one element type on small shapes
macro_rules! small {
    ($t:ty, $op:tt, $gl:expr, $gr:expr) => {{
        let what = choice(0, 3);
        match what {
            0 => { let o = if flip() { vec![3] } else { vec![2, 2] }; arrays::<$t>(o, false, false, &[CONTIG, STEP, INNER, BCAST0, BCASTL, SCALARB], $gl, $gr, |a, b| a $op b, |a, b| a $op b) }
            1 => arrays::<$t>(vec![2, 3], true, true, &[CONTIG], $gl, $gr, |a, b| a $op b, |a, b| a $op b),
            2 => scalar::<$t>(pick_shape(0, 2, 2), FEW, $gl, $gr, |a, b| a $op b, |a, b| a $op b, |a, b| a $op b),
            _ => forms::<$t>(vec![2, 2], $gl, $gr, |a, b| a $op b, |a, b| a $op b, |a, b| a $op b, |a, b| a $op b, |a, b| a $op b),
        }
    }};
}
macro_rules! long {
    ($t:ty, $op:tt, $gl:expr, $gr:expr) => {
        long::<$t>(if thorough() { LENS } else { &[5, 8, 9, 16, 17, 31, 33, 65] }, &[CONTIG, STEP], $gl, $gr, |a, b| a $op b, |a, b| a $op b)
    };
}
macro_rules! full {
    ($t:ty, $op:tt, $gr:expr, $chk:expr) => {
        full::<$t>(&[CONTIG, STEP], <$t as El>::full, $gr, |a, b| a $op b, |a, b| a $op b, $chk)
    };
}
macro_rules! arith {
    ($t:ty) => {
        match choice(0, 3) {
            0 => small!($t, +, g::<$t, -60, 60>, g::<$t, -60, 60>),
            1 => small!($t, -, g::<$t, 60, 120>, g::<$t, 0, 60>),
            2 => small!($t, *, g::<$t, -11, 11>, g::<$t, -11, 11>),
            _ => small!($t, %, g::<$t, -100, 100>, g::<$t, 1, 100>),
        }
    };
}
macro_rules! bitops {
    ($t:ty) => {
        match choice(0, 3) {
            0 => small!($t, &, <$t as El>::full, <$t as El>::full),
            1 => small!($t, |, <$t as El>::full, <$t as El>::full),
            2 => small!($t, <<, <$t as El>::full, g::<$t, 0, 7>),
            _ => small!($t, >>, <$t as El>::full, g::<$t, 0, 7>),
        }
    };
}
macro_rules! longs {
    ($t:ty) => {
        match choice(0, 2) {
            0 => long!($t, +, g::<$t, -60, 60>, g::<$t, -60, 60>),
            1 => long!($t, -, g::<$t, 60, 120>, g::<$t, 0, 60>),
            _ => long!($t, *, g::<$t, -11, 11>, g::<$t, -11, 11>),
        }
    };
}
macro_rules! fulls {
    ($t:ty) => {
        match choice(0, 7) {
            0 => full!($t, +, <$t as El>::full, |a, b| a.checked_add(b)),
            1 => full!($t, -, <$t as El>::full, |a, b| a.checked_sub(b)),
            2 => full!($t, *, <$t as El>::full, |a, b| a.checked_mul(b)),
            3 => full!($t, %, <$t as El>::full, |a, b| a.checked_rem(b)),
            4 => full!($t, &, <$t as El>::full, |a, b| Some(a & b)),
            5 => full!($t, |, <$t as El>::full, |a, b| Some(a | b)),
            6 => full!($t, <<, <$t as El>::full, |a, b| if b < 0 as $t || b >= <$t as El>::W as $t { None } else { Some(a << b) }),
            _ => full!($t, >>, <$t as El>::full, |a, b| if b < 0 as $t || b >= <$t as El>::W as $t { None } else { Some(a >> b) }),
        }
    };
}
macro_rules! fbits {
    ($t:ty) => {
        match choice(0, 3) {
            0 => bits::<$t>(&[CONTIG, STEP], |a, b| a + b, |a, b| a + b, |a, b| a + b),
            1 => bits::<$t>(&[CONTIG, STEP], |a, b| a - b, |a, b| a - b, |a, b| a - b),
            2 => bits::<$t>(&[CONTIG, STEP], |a, b| a * b, |a, b| a * b, |a, b| a * b),
            _ => bits::<$t>(&[CONTIG, STEP], |a, b| a / b, |a, b| a / b, |a, b| a / b),
        }
    };
}
const M: i64 = 1_000_000;
fn empties<T: Num>() {
    let s = pick(EMPTY);
    let (op, form, rev) = (choice(0, 2), choice(0, 3), flip());
    shard();
    let (a, b) = (empty::<T>(s), empty::<T>(s));
    let r = s.len();
    let (x, y) = if rev & (r >= 2) { (ext(&a).transpose(0, r as isize - 1), ext(&b).transpose(0, r as isize - 1)) } else { (ext(&a).view(), ext(&b).view()) };
    let one = NdArray::<T>::ones(vec![1; r]);
    let z = match form {
        0 => match op { 0 => &x + &y, 1 => &x - &y, _ => &x * &y },
        1 => match op { 0 => &x + T::of(1), 1 => &x - T::of(1), _ => &x * T::of(1) },
        2 => match op { 0 => &x + &one, 1 => &x - &one, _ => &x * &one },
        _ => match op { 0 => &one + &x, 1 => &one - &x, _ => &one * &x },
    };
    check_empty(&z, x.shape());
}
harness! {
    h_c01_empty => if flip() { empties::<i32>() } else { empties::<f32>() };
    h_c01_big_add => big::<i32>(BIG, -50, |a, b| a + b, |a, b| a + b);
    h_c01_big_mul => big::<f32>(if thorough() { BIG } else { BIG_Q }, -50, |a, b| a * b, |a, b| a * b);
    h_c01_big_sub => big::<f64>(if thorough() { BIG } else { BIG_Q }, -50, |a, b| a - b, |a, b| a - b);
    h_c01_big_or => big::<u8>(if thorough() { BIG } else { BIG_Q }, 3, |a, b| a | b, |a, b| a | b);
    h_c01_alias_i32 => aliased::<i32>(g::<i32, {-M}, {M}>, |a, b| a - b, |a, b| a - b);
    h_c01_alias_f32 => aliased::<f32>(g::<f32, {-1000}, {1000}>, |a, b| a * b, |a, b| a * b);
    // the full product of broadcast patterns and layouts
    h_c01_add_i32 => arrays::<i32>(pick_shape(0, 3, 2), true, true, ALL, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| a + b, |a, b| a + b);
    h_c01_sub_f32 => arrays::<f32>(pick_shape(1, 2, 3), true, true, if thorough() { ALL } else { MOST }, g::<f32, {-M}, {M}>, g::<f32, {-M}, {M}>, |a, b| a - b, |a, b| a - b);
    h_c01_mul_f64 => arrays::<f64>(pick_shape(1, 3, 2), true, true, if thorough() { MOST } else { &[CONTIG, INNER, SWAP] }, g::<f64, {-1000}, {1000}>, g::<f64, {-1000}, {1000}>, |a, b| a * b, |a, b| a * b);
    h_c01_rem_i32 => arrays::<i32>(pick_shape(1, 2, 3), true, false, if thorough() { MOST } else { &[CONTIG, GAPS] }, g::<i32, {-M}, {M}>, g::<i32, 1, {M}>, |a, b| a % b, |a, b| a % b);
    h_c01_bits_i64 => arrays::<i64>(pick_shape(1, 2, 3), true, false, if thorough() { MOST } else { &[CONTIG, SWAP] }, i64::full, i64::full, |a, b| a & b, |a, b| a & b);
    h_c01_long_rem => long!(i64, %, g::<i64, {-M}, {M}>, g::<i64, 1, {M}>);
    h_c01_long_bits => match choice(0, 3) {
        0 => long!(i32, &, i32::full, i32::full), 1 => long!(u64, |, u64::full, u64::full),
        2 => long!(u16, <<, u16::full, g::<u16, 0, 15>), _ => long!(i32, >>, i32::full, g::<i32, 0, 31>),
    };
    h_c01_rank4 => arrays::<i16>(pick_dims(4, &[1, 2]), true, thorough(), if thorough() { FEW } else { &[CONTIG] }, g::<i16, -90, 90>, g::<i16, -90, 90>, |a, b| a - b, |a, b| a - b);
    h_c01_rank5 => arrays::<i64>(if thorough() { pick_dims(5, &[1, 2]) } else { vec![2, 2, 2, 1, 2] }, true, false, &[CONTIG, SWAP], g::<i64, {-M}, {M}>, g::<i64, {-M}, {M}>, |a, b| a * b, |a, b| a * b);
    h_c01_deep => arrays::<i32>(vec![2; choice(5, 6)], false, false, DEEP, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| a - b, |a, b| a - b);
    h_c01_deep_scalar => scalar::<f32>(vec![2; choice(4, 6)], DEEP, g::<f32, {-M}, {M}>, g::<f32, {-M}, {M}>, |a, b| a - b, |a, b| a - b, |a, b| a - b);
    h_c01_div_f64 => arrays::<f64>(pick_shape(1, 2, 3), true, false, FEW, g::<f64, {-M}, {M}>, g::<f64, 1, {M}>, |a, b| a / b, |a, b| a / b);
    h_c01_scalar_i32 => scalar::<i32>(pick_shape(0, 3, 3), ALL, g::<i32, {-M}, {M}>, g::<i32, {-M}, {M}>, |a, b| a - b, |a, b| a - b, |a, b| a - b);
    h_c01_scalar_f64 => scalar::<f64>(pick_shape(0, 3, 2), ALL, g::<f64, {-M}, {M}>, g::<f64, 1, {M}>, |a, b| a / b, |a, b| a / b, |a, b| a / b);
    h_c01_i8 => arith!(i8);
    h_c01_i16 => arith!(i16);
    h_c01_i32 => arith!(i32);
    h_c01_i64 => arith!(i64);
    h_c01_i128 => arith!(i128);
    h_c01_isize => arith!(isize);
    h_c01_u8 => arith!(u8);
    h_c01_u16 => arith!(u16);
    h_c01_u32 => arith!(u32);
    h_c01_u64 => arith!(u64);
    h_c01_u128 => arith!(u128);
    h_c01_usize => arith!(usize);
    h_c01_f32 => arith!(f32);
    h_c01_f64 => arith!(f64);
    h_c01_fdiv_f32 => small!(f32, /, g::<f32, -100, 100>, g::<f32, 1, 100>);
    h_c01_fdiv_f64 => small!(f64, /, g::<f64, -100, 100>, g::<f64, 1, 100>);
    h_c01_longdiv_f32 => long!(f32, /, g::<f32, -100, 100>, g::<f32, 1, 100>);
    h_c01_longdiv_f64 => long!(f64, /, g::<f64, -100, 100>, g::<f64, 1, 100>);
    h_c01_bit_i8 => bitops!(i8);
    h_c01_bit_i16 => bitops!(i16);
    h_c01_bit_i32 => bitops!(i32);
    h_c01_bit_i64 => bitops!(i64);
    h_c01_bit_i128 => bitops!(i128);
    h_c01_bit_isize => bitops!(isize);
    h_c01_bit_u8 => bitops!(u8);
    h_c01_bit_u16 => bitops!(u16);
    h_c01_bit_u32 => bitops!(u32);
    h_c01_bit_u64 => bitops!(u64);
    h_c01_bit_u128 => bitops!(u128);
    h_c01_bit_usize => bitops!(usize);
    h_c01_long_i32 => longs!(i32);
    h_c01_long_f32 => longs!(f32);
    h_c01_long_f64 => longs!(f64);
    h_c01_long_u8 => longs!(u8);
    h_c01_full_i8 => fulls!(i8);
    h_c01_full_u8 => fulls!(u8);
    h_c01_full_i32 => fulls!(i32);
    h_c01_full_u16 => fulls!(u16);
    h_c01_bits_f32 => fbits!(f32);
    h_c01_bits_f64 => fbits!(f64);
}
