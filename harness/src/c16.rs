//! C16: fill and zero.
//! Bounds: rank 0..=4 with dimensions 1..=3 (1..=2 from rank 3; thorough: rank 5) in every layout, read-only broadcasts included
//! (rejected); one-dimensional lengths up to 130 and two-dimensional views with rows around the unrolling boundaries; arrays of hundreds of elements in eight shapes (five elements symbolic); all 15
//! element types; every element value and fill value of the type, any float bit pattern included.
//! Arrays without elements: eight shapes.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

fn written<T: El>(d: &A<T>, v: T) {
    let (now, n) = (d.root().data_slice(), d.base.len());
    check(now.len() == n, COUNT);
    check(same(d.a().shape(), &d.m.shape), SHAPE);
    let mut hit = vec![false; n];
    let mut k = 0;
    while k < d.m.offs.len() { hit[d.m.offs[k]] = true; k += 1; }
    let mut b = 0;
    while b < n {
        if hit[b] { check(now[b].ident(v), VALUE) } else { check(now[b].ident(d.base[b]), UNTOUCHED) }
        b += 1;
    }
}
fn go<T: El + From<bool>>(shape: Vec<usize>, lays: &[usize]) {
    let k = pick_layout_of(&shape, lays);
    let zero = flip();
    shard();
    let mut d: A<T> = make_arb(&shape, k);
    let v = if zero { T::from(false) } else { T::arb() };
    panic_if(!writable(k));
    if zero { d.a_mut().zero() } else { d.a_mut().fill(v) }
    panic_end();
    written(&d, v);
}
fn shapes<T: El + From<bool>>() {
    let r = choice(0, if thorough() { 5 } else { 4 });
    let s = pick_dims(r, if r < 3 { &[1, 2, 3] } else { &[1, 2] });
    go::<T>(s, ALL)
}
fn deep<T: El + From<bool>>() {
    let r = choice(3, if thorough() { 4 } else { 3 });
    let s = pick_dims(r, &[1, 2, 3]);
    go::<T>(s, ALL)
}
fn long<T: El + From<bool>>() {
    let n = pick(if thorough() { LENS } else { LENS_Q });
    let two = choice(0, 2);
    let s = match two { 0 => vec![n], 1 => vec![2, n], _ => vec![n, 3] };
    assume(two == 0 || n < 34 || thorough());
    go::<T>(s, WRITE)
}
/// two disjoint or nested views of one array, filled one after the other
fn twice<T: El + From<bool>>() {
    let s = [choice(1, 3), choice(1, 3)];
    let (ax, at, ay, aty) = (choice(0, 1), choice(0, 2), choice(0, 1), choice(0, 2));
    assume(at < s[ax] && aty < s[ay]);
    shard();
    let base: Vec<T> = arbs(s[0] * s[1]);
    let mut a = owned(&s, &base);
    let (v, w) = (T::arb(), T::arb());
    a.slice_along(Axis(ax as isize), at).fill(v);
    a.slice_along(Axis(ay as isize), aty..).fill(w);
    let d = a.data_slice();
    let mut k = 0;
    while k < d.len() {
        let i = [k / s[1], k % s[1]];
        let want = if i[ay] >= aty { w } else if i[ax] == at { v } else { base[k] };
        check(d[k].ident(want), VALUE);
        k += 1;
    }
    a.zero();
    let d = a.data_slice();
    let mut k = 0;
    while k < d.len() { check(d[k].ident(T::from(false)), VALUE); k += 1; }
}
// f32, f64, u64, ... all implement From<bool>
fn big() -> Vec<usize> { pick(BIG).to_vec() }
fn empties<T: Num>() {
    let s = pick(EMPTY);
    let z = flip();
    shard();
    let mut a = empty::<T>(s);
    if z { a.zero() } else { a.fill(T::of(3)) }
    check_empty(&a, s);
}
harness! {
    h_c16_high => if flip() { go::<f32>(high(), &[CONTIG, SWAP, REV, INNER]) } else { go::<i32>(high(), &[PREFIX, STEP, MIDDLE]) };
    h_c16_empty => if flip() { empties::<f32>() } else { empties::<u8>() };
    h_c16_big => match choice(0, 2) { 0 => go::<f32>(big(), &[CONTIG, PREFIX, SWAP, INNER, GAPS, REV]), 1 => go::<u8>(big(), &[CONTIG, INNER, SWAP]), _ => go::<i64>(big(), &[CONTIG, STEP, MIDDLE]) };
    h_c16_shapes_f32 => shapes::<f32>();
    h_c16_shapes_i32 => shapes::<i32>();
    h_c16_shapes_bool => shapes::<bool>();
    h_c16_deep => deep::<f64>();
    h_c16_long_f32 => long::<f32>();
    h_c16_long_f64 => long::<f64>();
    h_c16_long_i32 => long::<i32>();
    h_c16_long_u8 => long::<u8>();
    h_c16_twice => twice::<i64>();
    h_c16_types => match choice(0, 11) {
        0 => go::<f64>(pick_shape(0, 2, 3), WRITE), 1 => go::<i8>(pick_shape(0, 2, 3), WRITE), 2 => go::<i16>(pick_shape(0, 2, 3), WRITE),
        3 => go::<i64>(pick_shape(0, 2, 3), WRITE), 4 => go::<i128>(pick_shape(0, 2, 3), WRITE), 5 => go::<isize>(pick_shape(0, 2, 3), WRITE),
        6 => go::<u8>(pick_shape(0, 2, 3), WRITE), 7 => go::<u16>(pick_shape(0, 2, 3), WRITE), 8 => go::<u32>(pick_shape(0, 2, 3), WRITE),
        9 => go::<u64>(pick_shape(0, 2, 3), WRITE), 10 => go::<u128>(pick_shape(0, 2, 3), WRITE), _ => go::<usize>(pick_shape(0, 2, 3), WRITE),
    };
    ht_c16_types_long => match choice(0, 9) {
        0 => long::<i8>(), 1 => long::<i16>(), 2 => long::<i64>(), 3 => long::<i128>(), 4 => long::<isize>(),
        5 => long::<u16>(), 6 => long::<u32>(), 7 => long::<u64>(), 8 => long::<u128>(), _ => long::<usize>(),
    };
    ht_c16_shapes_u8 => shapes::<u8>();
    ht_c16_shapes_i64 => shapes::<i64>();
}
