//! C03: broadcasting: compatible shapes broadcast exactly as NumPy's rules say, incompatible ones are rejected,
//! and a broadcast view shows the right elements, shares the memory and cannot be written through.
//! Bounds: source and target shapes of rank 0..=3 (4 in the second harness) with dimensions 1..=3, sources in all ten
//! layouts; operators + - * / % & | << >> on every pair of shapes of rank 0..=2 with dimensions 1..=3 (rank 3: 1..=2).
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

/// broadcast_to: accepted exactly if NumPy accepts it; the view maps every index to the right element
fn bto<T: El>(from: Vec<usize>, to: Vec<usize>, lays: &[usize]) {
    let k = pick_layout_of(&from, lays);
    shard();
    let a: A<T> = make_sym(&from, k, -100, 100);
    let ok = can_bcast(&from, &to);
    panic_if(!ok);
    let v = a.a().broadcast_to(&to);
    panic_end();
    check_view(&v, &to, &|k| a.e(bsrc(k, &to, &from)));
    check(v.is_view(), OTHER);
    check(v.ndims() == to.len() && v.size() == prod(&to), SHAPE);
    // the same mapping through a copy
    let c = v.clone();
    check_array(&c, &to, &|k| a.e(bsrc(k, &to, &from)));
    check(!c.is_view(), OTHER);
}
/// a broadcast view is live: it shows later writes to its source
fn shares<T: El>(from: Vec<usize>, lays: &[usize]) {
    let mut to = from.clone();
    let mut i = 0;
    while i < to.len() { if to[i] == 1 && flip() { to[i] = 2; } i += 1; }
    if flip() { to.insert(0, choice(1, 2)); }
    let lay = pick_layout_of(&from, lays);
    shard();
    let mut a: A<T> = make_sym(&from, lay, -100, 100);
    let v = a.a().broadcast_to(&to);
    let new = syms::<T>(prod(&from), -100, 100);
    let mut it = a.a_mut().flatiter_ptr();
    let mut k = 0;
    while k < new.len() { match it.next() { Some(p) => unsafe { *p = new[k] }, None => check(false, COUNT) } k += 1; }
    check_view(&v, &to, &|k| new[bsrc(k, &to, &from)]);
}
/// no write reaches shared memory through a broadcast view (or a view of one)
fn readonly<T: El>(what: usize, f: fn(&mut NdArray<'static, T>, usize, T)) {
    let from = pick_shape(0, 2, 2);
    let lead = choice(0, 1);
    let mut to = from.clone();
    let mut i = 0;
    while i < to.len() { if to[i] == 1 && flip() { to[i] = 3; } i += 1; }
    if lead == 1 { to.insert(0, 2); }
    let then = choice(0, 4);
    assume(then != 1 || to.len() >= 2);
    assume((then != 2 && then != 4) || to.len() >= 1);
    let op = choice(0, what - 1);
    shard();
    let a: A<T> = A::sym(&from, 1, 100).broadcast(&to);
    let mut a = match then {
        1 => a.transpose(0, 1),
        2 => a.slice(0, 0, 1),
        3 => a.unsqueeze(0),
        4 => a.index(0, 0),
        _ => a,
    };
    let x = T::sym(1, 3);
    panic_if(true);
    f(a.a_mut(), op, x);
    panic_end();
}
/// out-of-place operators accept exactly the compatible shapes, in any order
fn ops(l: Vec<usize>, r: Vec<usize>) {
    let op = choice(0, 8);
    shard();
    let want = bshape(&l, &r);
    let t = match &want { Some(t) => t.clone(), None => vec![] };
    let (li, ri) = (|k| bsrc(k, &t, &l), |k| bsrc(k, &t, &r));
    macro_rules! go {
        ($t:ty, $op:tt) => {{
            let (a, b) = (A::<$t>::sym(&l, 4, 100), A::<$t>::sym(&r, 1, 4));
            panic_if(want.is_none());
            let c = a.a() $op b.a();
            panic_end();
            check_array(&c, &t, &|k| a.e(li(k)) $op b.e(ri(k)));
        }};
    }
    match op {
        0 => go!(i32, +),
        1 => go!(i64, -),
        2 => go!(f32, *),
        3 => go!(f64, /),
        4 => go!(i16, %),
        5 => go!(u8, &),
        6 => go!(u32, |),
        7 => go!(i32, <<),
        _ => go!(u64, >>),
    }
}
harness! {
    h_c03_to_high => bto::<i32>(pick_dims(choice(4, 5), &[1, 2]), pick(&[&[2, 1, 2, 2, 2][..], &[1, 2, 3, 1, 2, 2], &[2, 1, 2, 1, 2, 2, 2]]).to_vec(), &[CONTIG, SWAP]);
    h_c03_to_i32 => bto::<i32>(pick_shape(0, 2, 3), pick_shape(0, 3, if thorough() { 4 } else { 3 }), if thorough() { ALL } else { &[CONTIG, STEP, INNER, BCAST0, SCALARB] });
    h_c03_to_layouts => bto::<f64>(pick_shape(1, 3, 2), pick_shape(1, 3, 2), ALL);
    h_c03_to_rank4 => bto::<i64>(pick_dims(if flip() { 3 } else { 4 }, &[1, 2]), pick_dims(4, &[1, 3]), &[CONTIG, SWAP]);
    h_c03_to_rank4b => bto::<u8>(pick_dims(choice(2, 4), &[1, 2]), pick_dims(4, &[1, 2]), &[CONTIG, SWAP]);
    ht_c03_to_rank5 => bto::<i32>(pick_dims(choice(2, 5), &[1, 2]), pick_dims(5, &[1, 2]), &[CONTIG, SWAP, INNER]);
    h_c03_to_rank3 => bto::<f32>(pick_dims(3, &[1, 2, 3]), pick_dims(3, &[1, 2, 3]), &[CONTIG, INNER]);
    h_c03_shares => shares::<i32>(pick_shape(0, 3, 2), WRITE);
    h_c03_readonly_i32 => readonly::<i32>(12, |a, w, x| match w {
        0 => *a += x,
        1 => *a -= x,
        2 => *a *= x,
        3 => *a %= x,
        4 => *a &= x,
        5 => *a |= x,
        6 => *a <<= x,
        7 => *a >>= x,
        8 => a.fill(x),
        9 => a.zero(),
        10 => *a += &NdArray::scalar(x),
        _ => *a *= NdArray::scalar(x),
    });
    h_c03_readonly_f32 => readonly::<f32>(10, |a, w, x| match w {
        0 => *a += x,
        1 => *a -= x,
        2 => *a *= x,
        3 => *a /= x,
        4 => a.fill(x),
        5 => a.zero(),
        6 => *a += &NdArray::scalar(x),
        7 => *a -= &NdArray::scalar(x),
        8 => *a *= &NdArray::scalar(x),
        _ => *a /= NdArray::scalar(x),
    });
    h_c03_readonly_index => readonly::<i32>(1, |a, _, x| match a.ndims() {
        0 => a[[]] = x,
        1 => a[0] = x,
        2 => a[[0, 0]] = x,
        3 => a[[0, 0, 0]] = x,
        _ => a[[0, 0, 0, 0]] = x,
    });
    h_c03_ops => ops(pick_shape(0, 2, 3), pick_shape(0, 2, 3));
    h_c03_ops3 => ops(pick_shape(0, 3, 2), pick_shape(0, 3, 2));
    ht_c03_ops3 => ops(pick_shape(0, 3, 3), pick_shape(0, 3, 3));
    ht_c03_ops4 => ops(pick_dims(4, &[1, 2]), pick_shape(1, 4, 2));
}
