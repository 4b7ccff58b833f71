//! C14: equality, clones and copies.
//! Bounds: equality of every pair of shapes of rank 0..=3 with dimensions 1..=2 (thorough: 1..=3) and of equal shapes of rank 0..=3 with
//! dimensions 1..=3 in every pair of the twelve layouts (thorough; quick: rank 3 with six of them), lengths up to 65 (thorough: 130);
//! pairs of views of the same memory; arrays of hundreds of elements in eight shapes (five elements of each operand symbolic);
//! copies of rank 0..=4 arrays in every layout and of lengths up to 130; all 15 element types for copies, i32, u8, i64, bool, f32 and f64 for
//! equality; every element value, for floats any bit pattern (NaN is unequal to itself; zeros of either sign are equal).
//! Arrays without elements: all pairs of eight shapes.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

fn conj<T: El>(a: &A<T>, b: &A<T>) -> bool {
    let (mut r, mut k) = (true, 0);
    while k < a.size() { r = r & (a.e(k) == b.e(k)); k += 1; }
    r
}
fn compare<T: El>(a: &A<T>, b: &A<T>, form: usize) {
    let want = if same(a.shape(), b.shape()) { conj(a, b) } else { false };
    let (x, y) = (a.a(), b.a());
    let got = match form { 0 => *x == *y, 1 => x == *y, 2 => *x == y, 3 => !(*x != *y), _ => *y == *x };
    observe(got as u64);
    check(got == want, VALUE);
}
fn equal<T: El>(shape: Vec<usize>, la: &[usize], lb: &[usize], arb: bool) {
    let (ka, kb) = (pick_layout_of(&shape, la), pick_layout_of(&shape, lb));
    let form = if shape.len() <= 1 { choice(0, 4) } else { (ka + kb) % 5 };
    shard();
    let mk = |k| -> A<T> { if arb { make_arb(&shape, k) } else { make_full(&shape, k) } };
    let (a, b) = (mk(ka), mk(kb));
    compare(&a, &b, form);
}
/// an array equals its own views and copies (unless it holds a NaN)
fn reflexive<T: El>() {
    let s = pick_shape(0, 3, 2);
    let k = pick_layout_of(&s, ALL);
    shard();
    let a: A<T> = make_full(&s, k);
    check(a.a() == *a.a(), VALUE);
    check(*a.a() == a.a().clone(), VALUE);
    check(a.a().clone() == *a.a(), VALUE);
    if s.len() >= 2 { let t = a.a().transpose(0, -1); check(t.transpose(0, -1) == *a.a(), VALUE); }
}
/// two views of the same memory
fn aliased<T: El>() {
    let s: &[usize] = pick(&[&[3][..], &[2, 2], &[3, 3], &[2, 1], &[2, 2, 2]]);
    let a: A<T> = make_arb(s, CONTIG);
    let ((x, mx), (y, my)) = (part(&a), part(&a));
    assume(mx.shape.len() == my.shape.len());
    let form = choice(0, 4);
    shard();
    let mut want = same(&mx.shape, &my.shape);
    if want { let mut k = 0; while k < mx.size() { want = want & (a.base[mx.offs[k]] == a.base[my.offs[k]]); k += 1; } }
    let got = match form { 0 => *x == *y, 1 => &*x == *y, 2 => *x == &*y, 3 => !(*x != *y), _ => *y == *x };
    observe(got as u64);
    check(got == want, VALUE);
}
fn shapes<T: El>(d: usize) {
    let (s, t) = (pick_shape(0, 3, d), pick_shape(0, 3, d));
    assume(!same(&s, &t));
    let (ka, kb) = (pick_layout_of(&s, &[CONTIG, SWAP, SCALARB]), pick_layout_of(&t, &[CONTIG, STEP]));
    let form = choice(0, 4);
    shard();
    let (a, b): (A<T>, A<T>) = (make_full(&s, ka), make_full(&t, kb));
    compare(&a, &b, form);
}
fn tensors<T: El + TensorDataType>() {
    let (s, u) = (pick_shape(0, 2, 2), pick_shape(0, 2, 2));
    let (form, tr) = (choice(0, 6), flip());
    assume(!tr || s.len() == 2);
    shard();
    let (x, y): (Vec<T>, Vec<T>) = (arbs(prod(&s)), arbs(prod(&u)));
    let a: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.clone(), x.clone()) };
    let b: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(u.clone(), y.clone()) };
    let (na, nb) = (owned(&s, &x), owned(&u, &y));
    let m = if tr { M::new(&s).transpose(0, 1) } else { M::new(&s) };
    let (a, na) = if tr { (a.T(), na.T()) } else { (a, na) };
    let mut want = same(&m.shape, &u);
    if want { let mut k = 0; while k < m.size() { want = want & (x[m.offs[k]] == y[k]); k += 1; } }
    let got = match form {
        0 => a == b, 1 => a == nb, 2 => na == b, 3 => na == &b, 4 => &na == b, 5 => b == a, _ => !(a != b),
    };
    observe(got as u64);
    check(got == want, VALUE);
}

fn idents<T: El>(d: &[T], n: usize, want: &dyn Fn(usize) -> T, id: u32) {
    check(d.len() == n, COUNT);
    let mut k = 0;
    while k < d.len() && k < n { check(d[k].ident(want(k)), id); k += 1; }
}
fn fresh<T: El>(r: &NdArray<T>, a: &A<T>, shape: &[usize]) {
    check(same(r.shape(), shape) && r.is_contiguous() && !r.is_view() && r.is_uniformly_strided(), SHAPE);
    check(r.size() == prod(shape) && r.stride().len() == shape.len(), SHAPE);
    idents(r.data_slice(), a.size(), &|k| a.e(k), VALUE);
}
fn copies<T: El>(shape: Vec<usize>, lays: &[usize]) {
    let k = pick_layout_of(&shape, lays);
    let op = choice(0, 1);
    shard();
    let mut a: A<T> = make_arb(&shape, k);
    let n = a.size();
    let flat = [n];
    let rs: &[usize] = if op == 0 { &shape } else { &flat };
    let mut c: NdArray<T> = if op == 0 { a.a().clone() } else { a.a().flatten() };
    fresh(&c, &a, rs);
    // writes to the copy do not show in the source, nor the other way round
    let (v, w) = (T::arb(), T::arb());
    c.fill(v);
    idents(a.root().data_slice(), a.base.len(), &|b| a.base[b], UNTOUCHED);
    if writable(k) {
        a.a_mut().fill(w);
        idents(c.data_slice(), n, &|_| v, UNTOUCHED);
    }
    // ... and the copy outlives the source
    drop(a);
    idents(c.data_slice(), n, &|_| v, UNTOUCHED);
    idents(&c.into_data_vector(), n, &|_| v, VALUE);
}
fn extract<T: El>(shape: Vec<usize>) {
    let k = pick_layout_of(&shape, ALL);
    let op = choice(0, 3);
    shard();
    let mut a: A<T> = make_arb(&shape, k);
    let n = a.size();
    match op {
        0 => {
            let v = *a.hold.pop().unwrap();
            panic_if(k != CONTIG);
            let d = v.into_data_vector();
            panic_end();
            idents(&d, n, &|k| a.e(k), VALUE);
            if k == CONTIG { a.hold.clear(); }
        }
        1 => {
            panic_if(!a.a().is_contiguous());
            let d = a.a().data_slice();
            panic_end();
            idents(d, n, &|k| a.e(k), VALUE);
        }
        2 => {
            panic_if(n != 1);
            let v = a.a().value();
            panic_end();
            check(v.ident(a.e(0)), VALUE);
        }
        // re-laid-out by consuming view operations: still the owner; the data is in row-major order of what it shows now, or refused
        _ => {
            let r = shape.len();
            assume(k == CONTIG && r >= 1);
            let how = choice(0, 3);
            assume(how != 1 || r >= 2);
            let b = a.hold.pop().unwrap();
            let (v, m) = match how {
                0 => (b.reshape([n]), a.m.reshape(&[n])),
                1 => (b.transpose(0, -1), a.m.transpose(0, r - 1)),
                2 => (b.unsqueeze(0), { let mut s = shape.clone(); s.insert(0, 1); a.m.reshape(&s) }),
                _ => (b.squeeze(), a.m.clone()),
            };
            check_slice_vals(&v, &m, &a.base);
            panic_if(!v.is_contiguous());
            let d = v.into_data_vector();
            panic_end();
            idents(&d, n, &|k| a.base[m.offs[k]], VALUE);
        }
    }
}
fn check_slice_vals<T: El>(v: &NdArray<T>, m: &M, base: &[T]) {
    check(v.size() == m.size(), COUNT);
    let mut k = 0;
    let mut it = v.flatiter();
    while k < m.size() { match it.next() { Some(x) => check(x.ident(base[m.offs[k]]), VALUE), None => check(false, COUNT) } k += 1; }
}
fn shape4() -> Vec<usize> {
    let r = choice(0, if thorough() { 5 } else { 4 });
    pick_dims(r, if r < 3 { &[1, 2, 3] } else { &[1, 2] })
}
fn lens2(lens: &[usize]) -> Vec<usize> {
    let n = pick(lens);
    let two = choice(0, 2);
    assume(two == 0 || n < 34 || thorough());
    match two { 0 => vec![n], 1 => vec![2, n], _ => vec![n, 3] }
}
fn lens() -> Vec<usize> { lens2(if thorough() { LENS } else { LENS_Q }) }
fn lens_eq() -> Vec<usize> { vec![pick(if thorough() { LENS } else { &[4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] })] }
fn eq_shape() -> (Vec<usize>, &'static [usize]) {
    let r = choice(0, 3);
    (pick_dims(r, if r < 3 || thorough() { &[1, 2, 3] } else { &[1, 2] }), if r < 3 || thorough() { ALL } else { &[CONTIG, STEP, SWAP, GAPS, BCASTL, REV] })
}
macro_rules! eq { ($t:ty, $arb:expr) => {{ let (s, l) = eq_shape(); equal::<$t>(s, l, l, $arb) }} }
fn big() -> Vec<usize> { pick(BIG).to_vec() }
fn empties<T: Num>() {
    let (s, t) = (pick(EMPTY), pick(EMPTY));
    shard();
    let (a, b) = (empty::<T>(s), empty::<T>(t));
    check((a == b) == same(s, t), VALUE);
    observe((a == b) as u64);
    check_empty(&a.clone(), s);
    check_empty(&a.flatten(), &[0]);
}
harness! {
    h_c14_high_copy => if flip() { copies::<f32>(high(), &[CONTIG, SWAP, REV, BCAST0]) } else { copies::<i64>(high(), &[STEP, INNER, MIDDLE]) };
    h_c14_high_eq => equal::<i32>(high(), &[CONTIG, REV, INNER], &[CONTIG, SWAP], false);
    h_c14_empty => empties::<f32>();
    h_c14_big_copy => match choice(0, 2) { 0 => copies::<f32>(big(), &[CONTIG, SWAP, BCAST0]), 1 => copies::<u8>(big(), &[CONTIG, INNER]), _ => copies::<i64>(big(), &[STEP, REV]) };
    h_c14_big_eq => match choice(0, 1) { 0 => equal::<f32>(big(), &[CONTIG, SWAP], &[CONTIG, INNER], false), _ => equal::<i32>(big(), &[CONTIG], &[CONTIG, STEP], false) };
    h_c14_alias_f32 => aliased::<f32>();
    h_c14_alias_i32 => aliased::<i32>();
    h_c14_eq_f32 => eq!(f32, false);
    h_c14_eq_i32 => eq!(i32, false);
    h_c14_eq_u8 => { let s = pick_shape(0, 2, 2); equal::<u8>(s, ALL, ALL, false) };
    h_c14_eq_bool => { let s = pick_shape(0, 2, 2); equal::<bool>(s, ALL, ALL, false) };
    h_c14_eq_bits => { let s = pick_shape(0, 2, 2); if flip() { equal::<f32>(s, MOST, MOST, true) } else { equal::<f64>(s, MOST, MOST, true) } };
    h_c14_eq_long => { let s = lens_eq(); match choice(0, 2) { 0 => equal::<f32>(s, &[CONTIG, STEP], &[CONTIG, STEP, SCALARB], false), 1 => equal::<i64>(s, &[CONTIG], &[CONTIG, STEP], false), _ => equal::<u8>(s, &[CONTIG], &[CONTIG, PREFIX], false) } };
    h_c14_shapes => shapes::<i32>(if thorough() { 3 } else { 2 });
    h_c14_reflexive => if flip() { reflexive::<f64>() } else { reflexive::<i16>() };
    h_c14_tensor => if flip() { tensors::<f32>() } else { tensors::<f64>() };
    h_c14_copy_f32 => copies::<f32>(shape4(), ALL);
    h_c14_copy_i64 => copies::<i64>(shape4(), ALL);
    h_c14_copy_long => match choice(0, 2) { 0 => copies::<f32>(lens(), ALL), 1 => copies::<u8>(lens(), WRITE), _ => copies::<f64>(lens(), WRITE) };
    h_c14_copy_types => match choice(0, 11) {
        0 => copies::<bool>(pick_shape(0, 2, 3), ALL), 1 => copies::<i8>(pick_shape(0, 2, 3), ALL), 2 => copies::<i16>(pick_shape(0, 2, 3), ALL),
        3 => copies::<i32>(pick_shape(0, 2, 3), ALL), 4 => copies::<i128>(pick_shape(0, 2, 3), ALL), 5 => copies::<isize>(pick_shape(0, 2, 3), ALL),
        6 => copies::<u8>(pick_shape(0, 2, 3), ALL), 7 => copies::<u16>(pick_shape(0, 2, 3), ALL), 8 => copies::<u32>(pick_shape(0, 2, 3), ALL),
        9 => copies::<u64>(pick_shape(0, 2, 3), ALL), 10 => copies::<u128>(pick_shape(0, 2, 3), ALL), _ => copies::<usize>(pick_shape(0, 2, 3), ALL),
    };
    h_c14_extract => match choice(0, 3) { 0 => extract::<f32>(shape4()), 1 => extract::<i32>(shape4()), 2 => extract::<u8>(pick_shape(0, 2, 3)), _ => extract::<f64>(vec![pick(&[5, 8, 17, 33])]) };
    ht_c14_eq_f64 => eq!(f64, false);
    ht_c14_copy_bool => copies::<bool>(shape4(), ALL);
}
