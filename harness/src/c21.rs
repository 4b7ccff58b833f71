//! C21: the printed form of arrays and tensors.
//! Bounds: rank 0..=4, dimensions 1..=3 (1..=2 from rank 3), all twelve layouts; one-dimensional lengths up to 20, eight shapes of 100 to 1025 elements in three layouts; elements: all
//! digits in turn with one symbolic digit, one symbolic signed i32 of one digit among fixed ones, one symbolic u8 over its whole
//! range, up to six bool, tensors of fixed floats. White space is not compared.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;
use std::fmt::Write;

const TEXT: u32 = 90;
struct Text(Vec<u8>);
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
fn printed(a: &dyn std::fmt::Debug) -> Vec<u8> {
    let mut t = Text(vec![]);
    check(write!(t, "{:?}", a).is_ok(), TEXT);
    let mut out = vec![];
    let mut i = 0;
    while i < t.0.len() { let c = t.0[i]; if !(c == b' ' || c == b'\n') { out.push(c); } i += 1; }
    out
}
/// brackets around every axis, commas between its entries
fn nested(shape: &[usize], at: &mut usize, el: &dyn Fn(usize) -> Vec<u8>, out: &mut Vec<u8>) {
    if shape.is_empty() { out.extend(el(*at)); *at += 1; return; }
    out.push(b'[');
    let mut i = 0;
    while i < shape[0] { if i > 0 { out.push(b','); } nested(&shape[1..], at, el, out); i += 1; }
    out.push(b']');
}
fn expect(got: &[u8], shape: &[usize], el: &dyn Fn(usize) -> Vec<u8>) {
    let mut want = vec![];
    nested(shape, &mut 0, el, &mut want);
    check(got.len() == want.len(), COUNT);
    if got.len() != want.len() { return; }
    let mut i = 0;
    while i < got.len() { observe(got[i] as u64); check(got[i] == want[i], TEXT); i += 1; }
}
fn digits(shape: Vec<usize>) {
    let k = pick_layout(&shape);
    shard();
    // the digits in turn, one of them symbolic
    let a: A<u8> = make(&shape, k, &|n| (0..n).map(|i| if i == n / 2 { u8::sym(0, 9) } else { (i % 10) as u8 }).collect());
    expect(&printed(a.a()), &shape, &|i| vec![b'0' + a.e(i)]);
    check_written(&a, &|i| a.e(i));
}
fn large() {
    let shape = pick(&[&[100][..], &[257], &[1025], &[33, 9], &[2, 130], &[130, 2], &[7, 6, 5], &[40, 1, 7]]).to_vec();
    let k = pick_layout_of(&shape, &[CONTIG, STEP, SWAP]);
    shard();
    let a: A<u8> = make(&shape, k, &|n| (0..n).map(|i| if i == n / 2 { u8::sym(0, 9) } else { (i * 7 % 10) as u8 }).collect());
    expect(&printed(a.a()), &shape, &|i| vec![b'0' + a.e(i)]);
}
fn signed() {
    let shape = pick(&[&[1][..], &[3], &[2, 2], &[4], &[1, 2]]).to_vec();
    let k = pick_layout_of(&shape, &[CONTIG, SWAP, STEP, BCAST0]);
    shard();
    let a: A<i32> = make(&shape, k, &|n| (0..n).map(|i| if i == n / 2 { i32::sym(-9, 9) } else { i as i32 - 2 }).collect());
    expect(&printed(a.a()), &shape, &|i| { let x = a.e(i); if x < 0 { vec![b'-', (b'0' as i32 - x) as u8] } else { vec![(b'0' as i32 + x) as u8] } });
}
fn bytes() {
    let shape = pick(&[&[][..], &[1], &[1, 1]]);
    shard();
    let a: A<u8> = make_full(shape, CONTIG);
    expect(&printed(a.a()), shape, &|i| {
        let x = a.e(i);
        if x >= 100 { vec![b'0' + x / 100, b'0' + x / 10 % 10, b'0' + x % 10] } else if x >= 10 { vec![b'0' + x / 10, b'0' + x % 10] } else { vec![b'0' + x] }
    });
}
fn bools() {
    let shape = pick(&[&[][..], &[1], &[2], &[5], &[2, 2], &[2, 1, 3]]).to_vec();
    shard();
    let xs: Vec<bool> = (0..prod(&shape)).map(|_| flip()).collect();
    let a = unsafe { NdArray::from_contiguous_owned_buffer(shape.clone(), xs.clone()) };
    expect(&printed(&a), &shape, &|i| if xs[i] { b"true".to_vec() } else { b"false".to_vec() });
}
fn tensors() {
    let shape = pick_shape(0, 3, 2);
    let track = flip();
    shard();
    let n = prod(&shape);
    let a = owned(&shape, &(0..n).map(|i| (i % 10) as f32 + 0.5).collect::<Vec<f32>>());
    let text = printed(&a);
    expect(&text, &shape, &|i| vec![b'0' + (i % 10) as u8, b'.', b'5']);
    let mut t: Tensor<f32> = unsafe { Tensor::from_contiguous_owned_buffer(shape.clone(), (0..n).map(|i| (i % 10) as f32 + 0.5).collect()) };
    t.set_requires_grad(track);
    expect(&printed(&t), &shape, &|i| vec![b'0' + (i % 10) as u8, b'.', b'5']);
}
harness! {
    h_c21_high => digits(pick(&[&[2, 1, 2, 1, 2][..], &[1, 2, 1, 1, 2, 1], &[2, 1, 1, 1, 1, 1, 2]]).to_vec());
    h_c21_rank2 => digits(pick_shape(0, 2, 3));
    h_c21_rank3 => digits(pick_dims(3, &[1, 2]));
    h_c21_rank4 => digits(pick_dims(4, &[1, 2]));
    h_c21_long => digits(vec![choice(4, 20)]);
    h_c21_large => large();
    h_c21_signed => signed();
    h_c21_bytes => bytes();
    h_c21_bools => bools();
    h_c21_tensors => tensors();
    ht_c21_rank3 => digits(pick_dims(3, &[1, 2, 3]));
}
