//! C09: dot, matrix-vector, matrix-matrix and batched matrix products.
//! Bounds: matrices with rows and columns 1..=3 (and 4, 5, 8, 9, 17 in single dimensions), 1..=3 batches, vectors up to
//! length 65 (quick) / 130 (thorough); all pairs of layouts among the ones that exist for the rank (contiguous, sub-range,
//! stride 2, transposed, inner slice, middle slice, diagonal, gaps, zero strides); operands that share memory; lengths up to 1025 with five symbolic elements per operand; the 14 numeric element types; element values
//! bounded so that no intermediate result overflows or rounds, the whole range of i8 and u16 on products of length 1..=2 and of i32 on length 1
//! (overflow has to panic).  Rejections: all pairs of shapes of rank 0..=4 with dimensions 1..=2 (1..=3 up to rank 2).
//! Products over an axis of length zero.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

type Op<T> = fn(&NdArray<'static, T>, &NdArray<'static, T>) -> NdArray<'static, T>;
fn st<T: Num>(a: &A<T>) -> &'static NdArray<'static, T> { a.a() }

/// what the product of shapes `a` and `b` is: (output shape, shared length)
fn out_shape(a: &[usize], b: &[usize]) -> Option<(Vec<usize>, usize)> {
    match (a.len(), b.len()) {
        (1, 1) if a[0] == b[0] => Some((vec![], a[0])),
        (2, 1) if a[1] == b[0] => Some((vec![a[0]], a[1])),
        (2, 2) if a[1] == b[0] => Some((vec![a[0], b[1]], a[1])),
        (3, 3) if a[0] == b[0] && a[2] == b[1] => Some((vec![a[0], a[1], b[2]], a[2])),
        _ => None,
    }
}
/// positions of the factors of term `t` of output element `k`
fn factors(a: &[usize], b: &[usize], k: usize, t: usize) -> (usize, usize) {
    match (a.len(), b.len()) {
        (1, 1) => (t, t),
        (2, 1) => (k * a[1] + t, t),
        (2, 2) => ((k / b[1]) * a[1] + t, t * b[1] + k % b[1]),
        _ => {
            let (m, n) = (a[1], b[2]);
            let (bt, i, j) = (k / (m * n), k / n % m, k % n);
            ((bt * m + i) * a[2] + t, (bt * b[1] + t) * n + j)
        }
    }
}
fn verify<T: Num>(a: &A<T>, b: &A<T>, r: &NdArray<T>) {
    let (sa, sb) = (a.shape(), b.shape());
    let (out, n) = out_shape(sa, sb).unwrap();
    check_array(r, &out, &|k| {
        let mut acc = T::of(0);
        let mut t = 0;
        while t < n { let (x, y) = factors(sa, sb, k, t); acc = acc + a.e(x) * b.e(y); t += 1; }
        acc
    });
    check_written(a, &|k| a.e(k));
    check_written(b, &|k| b.e(k));
}
/// both operands are views of the same memory
fn aliased<T: Num>((d, mm, bm): (Op<T>, Op<T>, Op<T>)) {
    let s: &[usize] = pick(&[&[3][..], &[2, 2], &[2, 3], &[3, 3], &[2, 1], &[2, 2, 2]]);
    let a: A<T> = make_sym(s, pick_layout_of(s, &[CONTIG, INNER]), -9, 9);
    let ((x, mx), (y, my)) = (part(&a), part(&a));
    let (out, n) = match out_shape(&mx.shape, &my.shape) { Some(o) => o, None => { assume(false); return; } };
    let dot = out.len() == 0 && flip();
    shard();
    let op = if mx.shape.len() == 3 { bm } else if dot { d } else { mm };
    let r = op(&x, &y);
    check_array(&r, &out, &|k| {
        let mut acc = T::of(0);
        let mut t = 0;
        while t < n { let (p, q) = factors(&mx.shape, &my.shape, k, t); acc = acc + a.base[mx.offs[p]] * a.base[my.offs[q]]; t += 1; }
        acc
    });
    check_written(&a, &|k| a.e(k));
}
fn product<T: Num>(sa: Vec<usize>, sb: Vec<usize>, la: &[usize], lb: &[usize], lo: i64, hi: i64, op: Op<T>) {
    let (ka, kb) = (pick_layout_of(&sa, la), pick_layout_of(&sb, lb));
    shard();
    let a: A<T> = make_sym(&sa, ka, lo, hi);
    let b: A<T> = make_sym(&sb, kb, lo, hi);
    let r = op(st(&a), st(&b));
    verify(&a, &b, &r);
}
fn dots<T: Num>(lens: &[usize], lays: &[usize], lo: i64, hi: i64, op: Op<T>) {
    let n = pick(lens);
    product::<T>(vec![n], vec![n], lays, lays, lo, hi, op);
}
fn matvec<T: Num>(d: usize, lays: &[usize], vl: &[usize], op: Op<T>) {
    let (m, n) = (choice(1, d), choice(1, d));
    product::<T>(vec![m, n], vec![n], lays, vl, -100, 100, op);
}
fn matmat<T: Num>(d: usize, lays: &[usize], op: Op<T>) {
    let (m, n, k) = (choice(1, d), choice(1, d), choice(1, d));
    product::<T>(vec![m, k], vec![k, n], lays, lays, -100, 100, op);
}
fn batch<T: Num>(bs: usize, d: usize, lays: &[usize], op: Op<T>) {
    let (b, m, n, k) = (choice(1, bs), choice(1, d), choice(1, d), choice(1, d));
    product::<T>(vec![b, m, k], vec![b, k, n], lays, lays, -100, 100, op);
}
/// one long dimension
fn wide<T: Num>(ds: &[usize], lays: &[usize], mm: Op<T>, bm: Op<T>) {
    let d = pick(ds);
    let (sa, sb) = match choice(0, 5) {
        0 => (vec![d, 2], vec![2, 2]),
        1 => (vec![2, d], vec![d, 2]),
        2 => (vec![2, 2], vec![2, d]),
        3 => (vec![2, d], vec![d]),
        4 => (vec![2, 2, d], vec![2, d, 1]),
        _ => (vec![2, 1, 2], vec![2, 2, d]),
    };
    let op = if sa.len() == 3 { bm } else { mm };
    product::<T>(sa, sb, lays, lays, -50, 50, op);
}
/// large operands, a few elements of each symbolic
fn big<T: Num>(ns: &[usize], (d, mm, bm): (Op<T>, Op<T>, Op<T>)) {
    let n = pick(ns);
    let (sa, sb) = match choice(0, 8) {
        0 => (vec![n], vec![n]),
        1 => (vec![2, n], vec![n]),
        2 => (vec![n, 2], vec![2]),
        3 => (vec![40, 33], vec![33]),
        4 => (vec![16, 20], vec![20, 17]),
        5 => (vec![2, n], vec![n, 2]),
        6 => (vec![n, 2], vec![2, 1]),
        7 => (vec![1, 3], vec![3, n]),
        _ => (vec![9, 8, 5], vec![9, 5, 8]),
    };
    let lays: &[usize] = if thorough() { MOST } else { &[CONTIG, SWAP, STEP] };
    let (ka, kb) = (pick_layout_of(&sa, lays), pick_layout_of(&sb, lays));
    shard();
    let a: A<T> = make_mixed(&sa, ka, -9, 9);
    let b: A<T> = make_mixed(&sb, kb, -9, 9);
    let op = if sa.len() == 3 { bm } else if sa.len() == 1 { d } else { mm };
    let r = op(st(&a), st(&b));
    verify(&a, &b, &r);
}
fn reject<T: Num>(sa: Vec<usize>, sb: Vec<usize>, form: usize, op: Op<T>) {
    shard();
    let a: A<T> = A::new(&sa, vec![T::of(1); prod(&sa)]);
    let b: A<T> = A::new(&sb, vec![T::of(2); prod(&sb)]);
    let ok = out_shape(&sa, &sb).is_some() && match form { 0 => sa.len() == 1, 1 => sa.len() != 3, _ => sa.len() == 3 };
    panic_if(!ok);
    let r = op(st(&a), st(&b));
    panic_end();
    verify(&a, &b, &r);
}
/// the whole range of an integer type: the product panics exactly if it overflows
fn full<T: Num>(nmax: usize, op: Op<T>, mm: bool, chk: fn(T, T) -> Option<T>, add: fn(T, T) -> Option<T>) {
    let n = choice(1, nmax);
    shard();
    let (sa, sb) = if mm { (vec![1, n], vec![n, 1]) } else { (vec![n], vec![n]) };
    let a: A<T> = make_full(&sa, CONTIG);
    let b: A<T> = make_full(&sb, CONTIG);
    let mut want = Some(T::of(0));
    let mut i = 0;
    while i < n {
        want = match (want, chk(a.e(i), b.e(i))) { (Some(w), Some(x)) => add(w, x), _ => None };
        i += 1;
    }
    if n == 2 && want.is_none() {
        // both orders of summation overflow, or an individual product does
        return;
    }
    panic_if(want.is_none());
    let r = op(st(&a), st(&b));
    panic_end();
    check(Some(r.data_slice()[0]) == want, VALUE);
}
macro_rules! ops { ($t:ty) => { (
    (|a, b| a.dot(b)) as Op<$t>, (|a, b| a.matmul(b)) as Op<$t>, (|a, b| a.bmm(b)) as Op<$t>) } }
macro_rules! dtype {
    ($t:ty) => {{
        let (d, m, b) = ops!($t);
        let few: &[usize] = &[CONTIG, STEP, SWAP];
        match choice(0, 3) {
            0 => product::<$t>(vec![3], vec![3], few, few, -5, 5, d),
            1 => product::<$t>(vec![2, 3], vec![3], few, few, -5, 5, m),
            2 => product::<$t>(vec![2, 3], vec![3, 2], few, few, -5, 5, m),
            _ => product::<$t>(vec![2, 2, 2], vec![2, 2, 2], few, few, -5, 5, b),
        }
    }};
}
macro_rules! full { ($t:ty, $n:expr) => { if flip() { full::<$t>($n, ops!($t).0, false, <$t>::checked_mul, <$t>::checked_add) } else { full::<$t>($n, ops!($t).1, true, <$t>::checked_mul, <$t>::checked_add) } } }
const D1: &[usize] = &[CONTIG, PREFIX, STEP, SCALARB, DIAG];
const W: &[usize] = &[4, 5, 8, 9, 17];
macro_rules! empties { ($t:ty) => {{
    let (m, n) = (choice(1, 3), choice(1, 3));
    let f = choice(0, 2);
    shard();
    match f {
        0 => check_array(&empty::<$t>(&[m, 0]).matmul(&empty::<$t>(&[0, n])), &[m, n], &|_| <$t>::of(0)),
        1 => check_array(&empty::<$t>(&[m, 0]).matmul(&empty::<$t>(&[0])), &[m], &|_| <$t>::of(0)),
        _ => check_array(&empty::<$t>(&[0]).dot(&empty::<$t>(&[0])), &[], &|_| <$t>::of(0)),
    }
    observe(0);
}} }
harness! {
    h_c09_empty => match choice(0, 2) { 0 => empties!(i32), 1 => empties!(f32), _ => empties!(f64) };
    h_c09_big_f32 => big::<f32>(&[257], ops!(f32));
    h_c09_big_i32 => big::<i32>(if thorough() { &[257, 1025] } else { &[1025] }, ops!(i32));
    h_c09_alias_i32 => aliased::<i32>(ops!(i32));
    h_c09_alias_f32 => aliased::<f32>(ops!(f32));
    h_c09_dot_i32 => dots::<i32>(&[1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33], D1, -5000, 5000, ops!(i32).0);
    h_c09_dot_f32 => dots::<f32>(if thorough() { LENS } else { LENS_Q }, D1, -100, 100, ops!(f32).0);
    h_c09_dot_f64 => dots::<f64>(if thorough() { LENS } else { LENS_Q }, D1, -1000, 1000, ops!(f64).0);
    h_c09_matvec_i32 => matvec::<i32>(3, ALL, D1, ops!(i32).1);
    h_c09_matvec_f32 => matvec::<f32>(4, if thorough() { ALL } else { MOST }, D1, ops!(f32).1);
    h_c09_matvec_f64 => matvec::<f64>(2, ALL, D1, ops!(f64).1);
    h_c09_matmul_i32 => matmat::<i32>(if thorough() { 3 } else { 2 }, ALL, ops!(i32).1);
    h_c09_matmul_f32 => matmat::<f32>(3, if thorough() { ALL } else { MOST }, ops!(f32).1);
    h_c09_matmul_f64 => matmat::<f64>(if thorough() { 4 } else { 2 }, MOST, ops!(f64).1);
    h_c09_bmm_i64 => batch::<i64>(2, 2, if thorough() { ALL } else { MOST }, ops!(i64).2);
    h_c09_bmm_f32 => batch::<f32>(if thorough() { 3 } else { 2 }, 2, if thorough() { ALL } else { &[CONTIG, STEP, SWAP, BCAST0, MIDDLE, GAPS, REV] }, ops!(f32).2);
    h_c09_bmm_f64 => batch::<f64>(3, if thorough() { 3 } else { 2 }, FEW, ops!(f64).2);
    h_c09_wide_i32 => wide::<i32>(W, &[CONTIG, SWAP, INNER], ops!(i32).1, ops!(i32).2);
    h_c09_wide_f32 => wide::<f32>(W, &[CONTIG, SWAP, STEP], ops!(f32).1, ops!(f32).2);
    ht_c09_wide_f64 => wide::<f64>(LENS, MOST, ops!(f64).1, ops!(f64).2);
    h_c09_i8 => dtype!(i8);
    h_c09_i16 => dtype!(i16);
    h_c09_i32 => dtype!(i32);
    h_c09_i64 => dtype!(i64);
    h_c09_i128 => dtype!(i128);
    h_c09_isize => dtype!(isize);
    h_c09_u8 => dtype!(u8);
    h_c09_u16 => dtype!(u16);
    h_c09_u32 => dtype!(u32);
    h_c09_u64 => dtype!(u64);
    h_c09_u128 => dtype!(u128);
    h_c09_usize => dtype!(usize);
    h_c09_f32 => dtype!(f32);
    h_c09_f64 => dtype!(f64);
    h_c09_full_i8 => full!(i8, 2);
    h_c09_full_i32 => full!(i32, 1);
    h_c09_full_u16 => full!(u16, 2);
    h_c09_reject_dot => reject::<f32>(pick_shape(0, 2, 3), pick_shape(0, 2, 3), 0, ops!(f32).0);
    h_c09_reject_matmul => reject::<f64>(pick_shape(0, 2, 3), pick_shape(0, 2, 3), 1, ops!(f64).1);
    h_c09_reject_matmul3 => reject::<f64>(pick_shape(0, 3, 2), pick_shape(0, 3, 2), 1, ops!(f64).1);
    h_c09_reject_bmm => reject::<i32>(pick_dims(3, &[1, 2]), pick_dims(3, &[1, 2]), 2, ops!(i32).2);
    h_c09_reject_bmm4 => reject::<f32>(pick_shape(2, 4, 2), pick_shape(3, 3, 2), 2, ops!(f32).2);
}
