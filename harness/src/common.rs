//! Reference model shared by all harnesses: an array is its base buffer plus, for every logical
//! (row-major) element, the index of that element in the base buffer.
use crate::rt::*;
use redstone_ml::*;

pub trait El: RawDataType {
    const W: u32;
    const FLOAT: bool;
    const SIGNED: bool;
    /// symbolic element, any integer value in lo..=hi (clamped to the type)
    fn sym(lo: i64, hi: i64) -> Self;
    /// symbolic element with an arbitrary bit pattern (floats: any integer in +-2^20)
    fn full() -> Self;
    /// any value of the type whatsoever (floats: any bit pattern, NaN and infinities included)
    fn arb() -> Self { Self::full() }
    /// identical values (floats: same bits, or both NaN)
    fn ident(self, o: Self) -> bool { self == o }
    fn of(v: i64) -> Self;
    fn bits(self) -> u64;
}
pub trait Num: El + NumericDataType {}
impl<T: El + NumericDataType> Num for T {}
macro_rules! int_el {
    ($($t:ty, $w:expr, $s:expr;)*) => { $(
        impl El for $t {
            const W: u32 = $w; const FLOAT: bool = false; const SIGNED: bool = $s;
            fn sym(lo: i64, hi: i64) -> Self {
                let (mut lo, mut hi) = (lo, hi);
                if !$s && lo < 0 { lo = 0; }
                if $w == 8 && $s { if lo < -128 { lo = -128; } if hi > 127 { hi = 127; } }
                if $w == 8 && !$s && hi > 255 { hi = 255; }
                if $s || $w < 64 { int(if $w < 64 { if $s { $w } else { $w * 2 } } else { 64 }, lo, hi) as $t } else { int(64, lo, hi) as $t }
            }
            fn full() -> Self { if $w == 128 { (((any(64) as u128) << 64) | any(64) as u128) as $t } else { any(if $w > 64 { 64 } else { $w }) as $t } }
            fn of(v: i64) -> Self { v as $t }
            fn bits(self) -> u64 { self as u64 }
        }
    )* };
}
int_el! { i8,8,true; i16,16,true; i32,32,true; i64,64,true; isize,64,true; i128,128,true;
          u8,8,false; u16,16,false; u32,32,false; u64,64,false; usize,64,false; u128,128,false; }
impl El for f32 {
    const W: u32 = 32;
    const FLOAT: bool = true;
    const SIGNED: bool = true;
    fn sym(lo: i64, hi: i64) -> Self { int(32, lo, hi) as i32 as f32 }
    fn full() -> Self { int(32, -(1 << 20), 1 << 20) as i32 as f32 }
    fn arb() -> Self { f32::from_bits(any(32) as u32) }
    fn ident(self, o: Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
    fn of(v: i64) -> Self { v as f32 }
    fn bits(self) -> u64 { (self as f64 + 0.0).to_bits() } // +0.0: zeros are observed without their sign
}
impl El for f64 {
    const W: u32 = 64;
    const FLOAT: bool = true;
    const SIGNED: bool = true;
    fn sym(lo: i64, hi: i64) -> Self { int(32, lo, hi) as i32 as f64 }
    fn full() -> Self { int(32, -(1 << 20), 1 << 20) as i32 as f64 }
    fn arb() -> Self { f64::from_bits(any(64)) }
    fn ident(self, o: Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
    fn of(v: i64) -> Self { v as f64 }
    fn bits(self) -> u64 { (self + 0.0).to_bits() }
}
impl El for bool {
    const W: u32 = 8;
    const FLOAT: bool = false;
    const SIGNED: bool = false;
    fn sym(_lo: i64, _hi: i64) -> Self { int(8, 0, 1) == 1 }
    fn full() -> Self { int(8, 0, 1) == 1 }
    fn of(v: i64) -> Self { v != 0 }
    fn bits(self) -> u64 { self as u64 }
}

// ---------------------------------------------------------------------------------------------
// index arithmetic of the model

pub fn prod(s: &[usize]) -> usize {
    let mut p = 1;
    let mut i = 0;
    while i < s.len() { p *= s[i]; i += 1; }
    p
}
/// multi-index of the k-th element in row-major order
pub fn unravel(mut k: usize, s: &[usize]) -> Vec<usize> {
    let mut r = vec![0; s.len()];
    let mut i = s.len();
    while i > 0 { i -= 1; r[i] = k % s[i]; k /= s[i]; }
    r
}
pub fn ravel(idx: &[usize], s: &[usize]) -> usize {
    let mut r = 0;
    let mut i = 0;
    while i < s.len() { r = r * s[i] + idx[i]; i += 1; }
    r
}
pub fn same(a: &[usize], b: &[usize]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
/// NumPy broadcasting of two shapes
pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    let mut r = vec![1; n];
    let mut i = 0;
    while i < n {
        let x = if i < a.len() { a[a.len() - 1 - i] } else { 1 };
        let y = if i < b.len() { b[b.len() - 1 - i] } else { 1 };
        if x != y && x != 1 && y != 1 { return None; }
        r[n - 1 - i] = if x == 1 { y } else { x };
        i += 1;
    }
    Some(r)
}
/// can `from` be broadcast to exactly `to`?
pub fn can_bcast(from: &[usize], to: &[usize]) -> bool {
    if from.len() > to.len() { return false; }
    let d = to.len() - from.len();
    let mut i = 0;
    while i < from.len() { if from[i] != 1 && from[i] != to[d + i] { return false; } i += 1; }
    true
}
/// for element `k` (row-major) of an array with shape `to`: the element of the operand it reads
pub fn bsrc(k: usize, to: &[usize], from: &[usize]) -> usize {
    let idx = unravel(k, to);
    let d = to.len() - from.len();
    let mut r = 0;
    let mut i = 0;
    while i < from.len() {
        r = r * from[i] + if from[i] == 1 { 0 } else { idx[d + i] };
        i += 1;
    }
    r
}

/// the logical content of an array
#[derive(Clone)]
pub struct M { pub shape: Vec<usize>, pub offs: Vec<usize> }
impl M {
    pub fn new(shape: &[usize]) -> M {
        let n = prod(shape);
        M { shape: shape.to_vec(), offs: (0..n).collect() }
    }
    pub fn size(&self) -> usize { self.offs.len() }
    pub fn at(&self, idx: &[usize]) -> usize { self.offs[ravel(idx, &self.shape)] }
    fn build(&self, shape: Vec<usize>, f: impl Fn(&[usize]) -> Vec<usize>) -> M {
        let n = prod(&shape);
        let mut offs = Vec::with_capacity(n);
        let mut k = 0;
        while k < n { let src = f(&unravel(k, &shape)); offs.push(self.at(&src)); k += 1; }
        M { shape, offs }
    }
    pub fn transpose(&self, a: usize, b: usize) -> M {
        let mut s = self.shape.clone();
        s.swap(a, b);
        self.build(s, |i| { let mut j = i.to_vec(); j.swap(a, b); j })
    }
    pub fn slice(&self, axis: usize, lo: usize, n: usize) -> M {
        let mut s = self.shape.clone();
        s[axis] = n;
        self.build(s, |i| { let mut j = i.to_vec(); j[axis] += lo; j })
    }
    pub fn index(&self, axis: usize, at: usize) -> M {
        let mut s = self.shape.clone();
        s.remove(axis);
        self.build(s, |i| { let mut j = i.to_vec(); j.insert(axis, at); j })
    }
    pub fn broadcast(&self, to: &[usize]) -> M {
        let n = prod(to);
        let mut offs = Vec::with_capacity(n);
        let mut k = 0;
        while k < n { offs.push(self.offs[bsrc(k, to, &self.shape)]); k += 1; }
        M { shape: to.to_vec(), offs }
    }
    pub fn reshape(&self, to: &[usize]) -> M { M { shape: to.to_vec(), offs: self.offs.clone() } }
    /// diagonal over axes a, b (appended as the last axis); offset as in NumPy
    pub fn diagonal(&self, off: isize, a: usize, b: usize) -> M {
        let (da, db) = (self.shape[a], self.shape[b]);
        let (oa, ob) = if off >= 0 { (0, off as usize) } else { ((-off) as usize, 0) };
        let n = if da - oa < db - ob { da - oa } else { db - ob };
        let mut s = vec![];
        let mut x = 0;
        while x < self.shape.len() { if x != a && x != b { s.push(self.shape[x]); } x += 1; }
        s.push(n);
        let nd = self.shape.len();
        self.build(s, |i| {
            let mut j = vec![0; nd];
            let mut y = 0;
            let mut x = 0;
            while x < nd { if x != a && x != b { j[x] = i[y]; y += 1; } x += 1; }
            j[a] = i[y] + oa;
            j[b] = i[y] + ob;
            j
        })
    }
}

// ---------------------------------------------------------------------------------------------
// arrays under test

pub fn owned<T: El>(shape: &[usize], data: &[T]) -> NdArray<'static, T> {
    unsafe { NdArray::from_contiguous_owned_buffer(shape.to_vec(), data.to_vec()) }
}
pub fn syms<T: El>(n: usize, lo: i64, hi: i64) -> Vec<T> {
    if n > LARGE { return mixed(n, if lo < -100 { -100 } else { lo }, if hi > 100 { 100 } else { hi }); }
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(T::sym(lo, hi)); i += 1; }
    v
}
pub fn fulls<T: El>(n: usize) -> Vec<T> {
    if n > LARGE { return mix(n, if T::W == 1 { 0 } else { 1 }, if T::W == 1 { 1 } else { 100 }, &|| T::full()); }
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(T::full()); i += 1; }
    v
}

/// An array under test together with its model.  `hold` keeps every array that the current view
/// (its last entry) borrows from alive; views never own memory, so the drop order is irrelevant.
pub struct A<T: El> { pub hold: Vec<Box<NdArray<'static, T>>>, pub base: Vec<T>, pub m: M }

pub fn ext<'x, T: El>(a: &NdArray<'_, T>) -> &'x NdArray<'x, T> { unsafe { std::mem::transmute(a) } }
pub fn long<'x, T: El>(a: NdArray<'_, T>) -> NdArray<'x, T> { unsafe { std::mem::transmute(a) } }

impl<T: El> A<T> {
    pub fn new(shape: &[usize], base: Vec<T>) -> A<T> {
        let a = owned(shape, &base);
        A { hold: vec![Box::new(a)], base, m: M::new(shape) }
    }
    pub fn sym(shape: &[usize], lo: i64, hi: i64) -> A<T> { A::new(shape, syms(prod(shape), lo, hi)) }
    pub fn full(shape: &[usize]) -> A<T> { A::new(shape, fulls(prod(shape))) }
    /// the array under test
    pub fn a<'x>(&self) -> &'x NdArray<'x, T> { ext(&self.hold[self.hold.len() - 1]) }
    pub fn a_mut(&mut self) -> &mut NdArray<'static, T> { let n = self.hold.len(); &mut self.hold[n - 1] }
    /// the array that owns the memory
    pub fn root<'x>(&self) -> &'x NdArray<'x, T> { ext(&self.hold[0]) }
    /// expected k-th element in row-major order
    pub fn e(&self, k: usize) -> T { self.base[self.m.offs[k]] }
    pub fn size(&self) -> usize { self.m.size() }
    pub fn shape(&self) -> &[usize] { &self.m.shape }
    fn push(mut self, v: NdArray<'_, T>, m: M) -> A<T> {
        self.hold.push(Box::new(long(v)));
        self.m = m;
        self
    }
    pub fn transpose(self, x: usize, y: usize) -> A<T> {
        let v = self.a().transpose(x as isize, y as isize);
        let m = self.m.transpose(x, y);
        self.push(v, m)
    }
    pub fn slice(self, axis: usize, lo: usize, n: usize) -> A<T> {
        let v = self.a().slice_along(Axis(axis as isize), lo..lo + n);
        let m = self.m.slice(axis, lo, n);
        self.push(v, m)
    }
    pub fn index(self, axis: usize, at: usize) -> A<T> {
        let v = self.a().slice_along(Axis(axis as isize), at);
        let m = self.m.index(axis, at);
        self.push(v, m)
    }
    pub fn broadcast(self, to: &[usize]) -> A<T> {
        let v = self.a().broadcast_to(to);
        let m = self.m.broadcast(to);
        self.push(v, m)
    }
    pub fn reshape(self, to: &[usize]) -> A<T> {
        let v = self.a().reshape(to);
        let m = self.m.reshape(to);
        self.push(v, m)
    }
    pub fn unsqueeze(self, axis: usize) -> A<T> {
        let v = self.a().unsqueeze(axis as isize);
        let mut s = self.m.shape.clone();
        s.insert(axis, 1);
        let m = self.m.reshape(&s);
        self.push(v, m)
    }
    pub fn diagonal(self, off: isize, x: usize, y: usize) -> A<T> {
        let v = self.a().offset_diagonal_along(off, x as isize, y as isize);
        let m = self.m.diagonal(off, x, y);
        self.push(v, m)
    }
    /// the array under test by value, and everything else (if it is a view, what it borrows from)
    pub fn split(mut self) -> (NdArray<'static, T>, A<T>) { let v = *self.hold.pop().unwrap(); (v, self) }
    /// the memory behind a view that was consumed still holds the old contents
    pub fn intact(&self) {
        if self.hold.len() == 0 { return; }
        let (d, mut i) = (self.root().data_slice(), 0);
        check(d.len() == self.base.len(), COUNT);
        while i < self.base.len() { check(d[i].ident(self.base[i]), UNTOUCHED); i += 1; }
    }
    /// consume, keeping only the array under test (which must own its memory)
    pub fn take(mut self) -> NdArray<'static, T> { *self.hold.pop().unwrap() }
}

/// memory layouts for an array of a given shape
pub const CONTIG: usize = 0; // owned, contiguous
pub const PREFIX: usize = 1; // contiguous sub-range of a longer buffer (offset > 0)
pub const STEP: usize = 2; // uniform stride 2
pub const SWAP: usize = 3; // first and last axis swapped in memory
pub const INNER: usize = 4; // rows of a wider array (non-uniform stride), offset > 0
pub const BCAST0: usize = 5; // stride 0 along the first axis
pub const BCASTL: usize = 6; // stride 0 along the last axis
pub const MIDDLE: usize = 7; // middle/first axis cut out of a larger array
pub const SCALARB: usize = 8; // stride 0 along all axes
pub const DIAG: usize = 9; // last axis is a diagonal
pub const GAPS: usize = 10; // cut out of an array that is larger along every axis: no two axes can be merged
pub const REV: usize = 11; // all axes in reverse order
pub const NLAY: usize = 12;

pub fn layout_ok(kind: usize, shape: &[usize]) -> bool {
    let r = shape.len();
    match kind {
        CONTIG => true,
        SWAP => r >= 2 && !(shape[0] == 1 && shape[r - 1] == 1),
        INNER => r >= 2,
        MIDDLE => r >= 2,
        BCAST0 => r >= 2,
        BCASTL => r >= 2,
        SCALARB => r >= 1,
        PREFIX | STEP => r >= 1,
        DIAG => r >= 1 && prod(shape) * shape[r - 1] < 20000,
        GAPS => r >= 2 && r <= 6,
        REV => r >= 3,
        _ => false,
    }
}
pub fn writable(kind: usize) -> bool { kind != BCAST0 && kind != BCASTL && kind != SCALARB }

/// an array of the given shape in the given layout, elements made by `gen(n)`
pub fn make<T: El>(shape: &[usize], kind: usize, gen: &dyn Fn(usize) -> Vec<T>) -> A<T> {
    let r = shape.len();
    let mk = |s: &[usize]| A::new(s, gen(prod(s)));
    match kind {
        PREFIX => { let mut s = shape.to_vec(); s[0] += 1; mk(&s).slice(0, 1, shape[0]) }
        STEP => { let mut s = shape.to_vec(); s.push(2); mk(&s).index(r, 1) }
        SWAP => { let mut s = shape.to_vec(); s.swap(0, r - 1); mk(&s).transpose(0, r - 1) }
        INNER => { let mut s = shape.to_vec(); s[r - 1] += 1; mk(&s).slice(r - 1, 1, shape[r - 1]) }
        MIDDLE => { let mut s = shape.to_vec(); s.insert(1, 2); mk(&s).index(1, 1) }
        BCAST0 => { let mut s = shape.to_vec(); s[0] = 1; mk(&s).broadcast(shape) }
        BCASTL => { let mut s = shape.to_vec(); s[r - 1] = 1; mk(&s).broadcast(shape) }
        SCALARB => { let s = vec![1; r]; mk(&s).broadcast(shape) }
        DIAG => {
            let mut s = shape.to_vec();
            s.push(shape[r - 1] + 1);
            mk(&s).diagonal(1, r - 1, r)
        }
        GAPS => {
            let mut s = shape.to_vec();
            let mut i = 0;
            while i < r { s[i] += 1; i += 1; }
            let mut a = mk(&s);
            let mut i = 0;
            while i < r { a = a.slice(i, 1, shape[i]); i += 1; }
            a
        }
        REV => {
            let mut s = shape.to_vec();
            s.reverse();
            let mut a = mk(&s);
            let mut i = 0;
            while i < r / 2 { a = a.transpose(i, r - 1 - i); i += 1; }
            a
        }
        _ => mk(shape),
    }
}
pub fn make_sym<T: El>(shape: &[usize], kind: usize, lo: i64, hi: i64) -> A<T> {
    make(shape, kind, &|n| syms(n, lo, hi))
}
pub fn make_full<T: El>(shape: &[usize], kind: usize) -> A<T> {
    make(shape, kind, &|n| fulls(n))
}
pub fn arbs<T: El>(n: usize) -> Vec<T> {
    if n > LARGE { return mix(n, if T::W == 1 { 0 } else { 1 }, if T::W == 1 { 1 } else { 100 }, &|| T::arb()); }
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(T::arb()); i += 1; }
    v
}
pub fn make_arb<T: El>(shape: &[usize], kind: usize) -> A<T> {
    make(shape, kind, &|n| arbs(n))
}
/// fixed different elements in lo..=hi, with symbolic ones at the first, the last and three other positions
pub fn mixed<T: El>(n: usize, lo: i64, hi: i64) -> Vec<T> { mix(n, lo, hi, &|| T::sym(lo, hi)) }
fn mix<T: El>(n: usize, lo: i64, hi: i64, sym: &dyn Fn() -> T) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let w = (hi - lo + 1) as usize;
    let mut i = 0;
    while i < n { v.push(T::of(lo + ((i * 7919 + i / w * 31) % w) as i64)); i += 1; }
    let at = [0, n / 3, n / 2, n - 1 - n / 8, n - 1];
    let mut i = 0;
    while i < at.len() { v[at[i]] = sym(); i += 1; }
    v
}
/// buffers larger than this hold a few symbolic elements among fixed ones
const LARGE: usize = 250;
pub fn make_mixed<T: El>(shape: &[usize], kind: usize, lo: i64, hi: i64) -> A<T> {
    make(shape, kind, &|n| mixed(n, lo, hi))
}
/// shapes of hundreds of elements: one long axis in every position, many equal axes
pub const BIG: &[&[usize]] = &[&[1025], &[256], &[3, 300], &[300, 3], &[20, 31], &[7, 8, 9], &[2, 130, 3], &[2, 2, 2, 2, 2, 2, 2, 2]];
pub const BIG_Q: &[&[usize]] = &[&[1025], &[300, 3], &[20, 31], &[2, 130, 3]];
pub const ALL: &[usize] = &[CONTIG, PREFIX, STEP, SWAP, INNER, BCAST0, BCASTL, MIDDLE, SCALARB, DIAG, GAPS, REV];
pub const FEW: &[usize] = &[CONTIG, STEP, SWAP, INNER];
pub const MOST: &[usize] = &[CONTIG, STEP, SWAP, INNER, BCAST0, BCASTL];
pub const WRITE: &[usize] = &[CONTIG, PREFIX, STEP, SWAP, INNER, MIDDLE, DIAG, GAPS, REV];
/// layouts for arrays with many axes
/// shapes with many axes
pub const HIGH: &[&[usize]] = &[&[2, 1, 2, 2, 1], &[2, 2, 2, 2, 2], &[1, 2, 1, 2, 2, 2], &[2, 1, 1, 3, 2, 1, 2], &[1, 1, 2, 1, 1, 1, 2, 3], &[2, 2, 1, 1, 1, 1, 1, 1, 3]];
pub fn high() -> Vec<usize> { pick(HIGH).to_vec() }
pub const DEEP: &[usize] = &[CONTIG, GAPS, REV, BCAST0];
/// lengths around the powers of two, where unrolled or blocked loops change behaviour
pub const LENS: &[usize] = &[4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130];
pub const LENS_Q: &[usize] = &[4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 23, 31, 32, 33, 64, 65, 100, 129];

/// choose a layout that makes sense for the shape
pub fn pick_layout(shape: &[usize]) -> usize {
    let k = choice(0, NLAY - 1);
    assume(layout_ok(k, shape));
    k
}
pub fn pick_layout_of(shape: &[usize], kinds: &[usize]) -> usize {
    let k = pick(kinds);
    assume(layout_ok(k, shape));
    k
}
/// a shape of rank `rmin..=rmax` with dimensions in `1..=dmax`
pub fn pick_shape(rmin: usize, rmax: usize, dmax: usize) -> Vec<usize> {
    let r = choice(rmin, rmax);
    let mut s = vec![];
    let mut i = 0;
    while i < r { s.push(choice(1, dmax)); i += 1; }
    s
}
pub fn pick_dims(r: usize, dims: &[usize]) -> Vec<usize> {
    let mut s = vec![];
    let mut i = 0;
    while i < r { s.push(pick(dims)); i += 1; }
    s
}

// assertion ids
pub const SHAPE: u32 = 1;
pub const VALUE: u32 = 2;
pub const OTHER: u32 = 3;
pub const UNTOUCHED: u32 = 4;
pub const COUNT: u32 = 5;

/// read element k of `r` through a path that only trusts `data_slice` of a contiguous result
pub fn check_array<T: El>(r: &NdArray<'_, T>, shape: &[usize], want: &dyn Fn(usize) -> T) {
    let ok = same(r.shape(), shape);
    check(ok, SHAPE);
    if !ok { return; }
    let n = prod(shape);
    check(r.is_contiguous(), OTHER);
    if !r.is_contiguous() { return; }
    let d = r.data_slice();
    check(d.len() == n, COUNT);
    if d.len() != n { return; }
    let mut k = 0;
    while k < n {
        observe(d[k].bits());
        check(d[k] == want(k), VALUE);
        k += 1;
    }
}
/// the same for an arbitrary (strided) array: walk it with the public shape/stride metadata
pub fn check_view<T: El>(v: &NdArray<'_, T>, shape: &[usize], want: &dyn Fn(usize) -> T) {
    let ok = same(v.shape(), shape) && v.stride().len() == shape.len();
    check(ok, SHAPE);
    if !ok { return; }
    let n = prod(shape);
    let mut it = v.flatiter();
    let mut k = 0;
    while k < n {
        match it.next() {
            Some(x) => { observe(x.bits()); check(x == want(k), VALUE) }
            None => { check(false, COUNT); return; }
        }
        k += 1;
    }
    check(it.next().is_none(), COUNT);
}
/// choose the shape of an operand that broadcasts to `out`
pub fn operand_shape(out: &[usize], drop_ok: bool) -> Vec<usize> {
    let drop = if drop_ok { choice(0, out.len()) } else { 0 };
    let mut s = vec![];
    let mut i = drop;
    while i < out.len() {
        // an axis of the operand either has the full length or is 1
        s.push(if out[i] > 1 && flip() { 1 } else { out[i] });
        i += 1;
    }
    s
}
/// after the operation: element k of the view holds want(k), every other element of the buffer is as before
pub fn check_written<T: El>(d: &A<T>, want: &dyn Fn(usize) -> T) {
    let (now, n) = (d.root().data_slice(), d.base.len());
    check(now.len() == n, COUNT);
    check(same(d.a().shape(), &d.m.shape), SHAPE);
    let mut src = vec![usize::MAX; n];
    let mut k = 0;
    while k < d.m.offs.len() { src[d.m.offs[k]] = k; k += 1; }
    let mut b = 0;
    while b < n {
        observe(now[b].bits());
        if src[b] == usize::MAX { check(now[b] == d.base[b], UNTOUCHED) } else { check(now[b] == want(src[b]), VALUE) }
        b += 1;
    }
}
/// the view shows the selected elements, and only refers to memory of the array
pub fn check_slice<T: El>(a: &A<T>, v: &NdArray<T>, m: &M) {
    check_view(v, &m.shape, &|k| a.base[m.offs[k]]);
    check(v.is_view(), OTHER);
    // positions, not just values: each element is the very element of the base buffer
    let base = a.root().data_slice().as_ptr();
    let mut it = v.flatiter_ptr();
    let mut k = 0;
    while k < m.offs.len() {
        match it.next() { Some(p) => check(p as *const T == unsafe { base.add(m.offs[k]) }, OTHER), None => check(false, COUNT) }
        k += 1;
    }
    // what the view says about its layout, and a copy of it, agree with the selected elements as well
    let off = |k: usize| m.offs[k] as isize - m.offs[0] as isize;
    if v.is_contiguous() {
        let mut k = 0;
        while k < m.offs.len() { check(off(k) == k as isize, OTHER); k += 1; }
    }
    if v.is_uniformly_strided() && m.offs.len() > 2 {
        let mut k = 2;
        while k < m.offs.len() { check(off(k) == off(1) * k as isize, OTHER); k += 1; }
    }
    check_array(&v.clone(), &m.shape, &|k| a.base[m.offs[k]]);
}

/// some view of the array: one of several that share its memory
pub fn part<T: El>(a: &A<T>) -> (Box<NdArray<'static, T>>, M) {
    let s = a.shape().to_vec();
    let r = s.len();
    let m = M { shape: s.clone(), offs: a.m.offs.clone() };
    let x = a.a();
    match choice(0, 7) {
        0 => (Box::new(x.view()), m),
        1 => { assume(r >= 2); (Box::new(x.transpose(0, -1)), m.transpose(0, r - 1)) }
        2 => { assume(r >= 1); assume(s[0] >= 2); (Box::new(x.slice_along(Axis(0), ..s[0] - 1)), m.slice(0, 0, s[0] - 1)) }
        3 => { assume(r >= 1); assume(s[0] >= 2); (Box::new(x.slice_along(Axis(0), 1..)), m.slice(0, 1, s[0] - 1)) }
        4 => { assume(r >= 2); assume(s[r - 1] >= 2); (Box::new(x.slice_along(Axis(r as isize - 1), 1..)), m.slice(r - 1, 1, s[r - 1] - 1)) }
        5 => { assume(r >= 1); (Box::new(x.slice_along(Axis(0), 0)), m.index(0, 0)) }
        6 => { assume(r >= 1); (Box::new(x.slice_along(Axis(0), s[0] - 1)), m.index(0, s[0] - 1)) }
        _ => { assume(r >= 2); (Box::new(x.slice_along(Axis(r as isize - 1), 0)), m.index(r - 1, 0)) }
    }
}

/// arrays without elements (an empty range, reshaped): every shape of this list, owned or transposed
pub const EMPTY: &[&[usize]] = &[&[0], &[0, 2], &[2, 0], &[0, 0], &[1, 0], &[2, 0, 3], &[0, 1, 2], &[3, 2, 0]];
pub fn empty<T: Num>(shape: &[usize]) -> NdArray<'static, T> {
    NdArray::<T>::arange(T::of(0), T::of(0)).reshape(shape.to_vec())
}
pub fn check_empty<T: El>(v: &NdArray<'_, T>, shape: &[usize]) {
    let ok = same(v.shape(), shape) && v.size() == 0;
    check(ok, SHAPE);
    if !ok { return; }
    observe(0);
    check(v.flatiter().next().is_none(), COUNT);
}
