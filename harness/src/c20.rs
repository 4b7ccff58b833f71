//! C20: tensors compute what arrays compute.
//! Bounds: the same program is run on tensors and on arrays. Elementwise operators, scalar operators, negation and reshapes: any bit pattern as
//! element (NaN and infinities included), eight combinations of shapes (ranks 0..=3), every by-reference and by-value form, every assignment of
//! the tracking flag, chains of two operations over all live tensors (quick: three combinations of shapes and eight operations; thorough: all, and three of the eight). All products: elements -3..=3 (exact sums), sizes up
//! to 3 (vectors up to 9), after an optional reshape of either operand. Constructors: any value, listed ranges. Conversions: of owned, shared,
//! tracked and view tensors, after a chain of one. A backward pass afterwards changes no value. Eleven operations on hundreds of elements (five symbolic).
use crate::common::*;
use crate::graph::{Op, Tn, RESHAPE, SQUEEZE, TRANSPOSE, TT, UNSQUEEZE, VIEW};
use crate::rt::*;
use redstone_ml::*;

/// transpose with negative axes
const NEGATIVE: usize = 6;
struct Pair<T: El + TensorDataType> { t: Option<Box<Tn<T>>>, a: Box<NdArray<'static, T>>, from: Option<usize> }
struct Run<T: El + TensorDataType> { p: Vec<Pair<T>> }

fn agree<T: El>(x: &NdArray<'_, T>, y: &NdArray<'_, T>) {
    let ok = same(x.shape(), y.shape());
    check(ok, SHAPE);
    if !ok { return; }
    let n = prod(y.shape());
    let (mut i, mut j) = (x.flatiter(), y.flatiter());
    let mut k = 0;
    while k < n {
        match (i.next(), j.next()) { (Some(a), Some(b)) => check(a.ident(b), VALUE), _ => { check(false, COUNT); return; } }
        k += 1;
    }
    check(i.next().is_none(), COUNT);
}
/// does the array operation accept these operands?
fn fits(op: Op, x: &[usize], y: &[usize]) -> bool {
    match op {
        Op::Bin(..) => bshape(x, y).is_some(),
        Op::Dot => x.len() == 1 && y.len() == 1 && x[0] == y[0],
        Op::Matmul => (x.len() == 1 && y.len() == 1 && x[0] == y[0]) || (x.len() == 2 && (y.len() == 1 || y.len() == 2) && x[1] == y[0]),
        Op::Bmm => x.len() == 3 && y.len() == 3 && x[0] == y[0] && x[2] == y[1],
        _ => true,
    }
}
macro_rules! bin { ($k:expr, $x:expr, $y:expr) => { match $k { 0 => $x + $y, 1 => $x - $y, 2 => $x * $y, _ => $x / $y } } }
macro_rules! re { ($k:expr, $x:expr, $a:expr, $b:expr, $n:expr) => { match $k {
    VIEW => $x.view(),
    RESHAPE => if $a == 0 { $x.reshape([$n]) } else { $x.reshape([$a, $n / $a]) },
    SQUEEZE => $x.squeeze(), UNSQUEEZE => $x.unsqueeze($a as isize), TRANSPOSE => $x.transpose($a as isize, $b as isize), NEGATIVE => $x.transpose(-1 - $a as isize, -1 - $b as isize), _ => $x.T(),
} } }
impl<T: El + TensorDataType> Run<T> {
    fn leaf(&mut self, s: &[usize], v: Vec<T>, req: bool) {
        let a = owned(s, &v);
        let mut t: Tn<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.to_vec(), v) };
        if req { t.set_requires_grad(true); }
        self.p.push(Pair { t: Some(Box::new(t)), a: Box::new(a), from: None });
    }
    fn live(&self, i: usize) -> bool { self.p[i].t.is_some() }
    fn t(&self, i: usize) -> &'static Tn<T> { unsafe { &*(&**self.p[i].t.as_ref().unwrap() as *const Tn<T>) } }
    fn a(&self, i: usize) -> &'static NdArray<'static, T> { ext(&self.p[i].a) }
    fn take(&mut self, i: usize) -> Tn<T> {
        let mut k = 0;
        while k < self.p.len() { assume(self.p[k].from != Some(i) || self.p[k].t.is_none()); k += 1; }
        *self.p[i].t.take().unwrap()
    }
    fn push(&mut self, t: Tensor<'_, T>, a: NdArray<'_, T>, from: Option<usize>) {
        let t: Tn<T> = unsafe { std::mem::transmute(t) };
        self.p.push(Pair { t: Some(Box::new(t)), a: Box::new(long(a)), from });
    }
    fn apply(&mut self, op: Op, x: usize, y: usize, s: T) {
        let (sx, sy) = (self.a(x).shape().to_vec(), self.a(y).shape().to_vec());
        assume(fits(op, &sx, &sy));
        let (r, n) = (sx.len(), prod(&sx));
        match op {
            Op::Bin(k, form) => {
                assume(x != y || form == 0);
                let want = bin!(k, self.a(x), self.a(y));
                let tx = if form & 1 == 1 { Some(self.take(x)) } else { None };
                let ty = if form & 2 == 2 { Some(self.take(y)) } else { None };
                let t = match (tx, ty) {
                    (Some(a), Some(b)) => bin!(k, a, b),
                    (Some(a), None) => bin!(k, a, self.t(y)),
                    (None, Some(b)) => bin!(k, self.t(x), b),
                    (None, None) => bin!(k, self.t(x), self.t(y)),
                };
                self.push(t, want, None);
            }
            Op::Scal(k, own) => {
                let want = bin!(k, self.a(x), s);
                let t = if own { bin!(k, self.take(x), s) } else { bin!(k, self.t(x), s) };
                self.push(t, want, None);
            }
            Op::Neg(own) => {
                let want = -self.a(x);
                let t = if own { -self.take(x) } else { -self.t(x) };
                self.push(t, want, None);
            }
            Op::Dot => { let (t, w) = (self.t(x).dot(self.t(y)), self.a(x).dot(self.a(y))); self.push(t, w, None) }
            Op::Matmul => { let (t, w) = (self.t(x).matmul(self.t(y)), self.a(x).matmul(self.a(y))); self.push(t, w, None) }
            Op::Bmm => { let (t, w) = (self.t(x).bmm(self.t(y)), self.a(x).bmm(self.a(y))); self.push(t, w, None) }
            Op::Re(k, a, b, own) => {
                match k {
                    RESHAPE => assume((a == 0 || n % a == 0) && self.a(x).is_uniformly_strided()),
                    UNSQUEEZE => assume(a <= r),
                    TRANSPOSE | NEGATIVE => assume(a < r && b < r),
                    TT => assume(r >= 2),
                    _ => {}
                }
                let want = re!(k, self.a(x), a, b, n);
                if own {
                    let t = self.take(x);
                    let t = re!(k, t, a, b, n);
                    self.push(t, want, None);
                } else {
                    let t = re!(k, self.t(x), a, b, n);
                    self.push(t, want, Some(x));
                }
            }
        }
    }
    /// every live tensor holds what its array holds
    fn all(&self) {
        let mut i = 0;
        while i < self.p.len() {
            if self.live(i) {
                let t = self.t(i);
                agree(t.ndarray(), self.a(i));
                check(same(t.shape(), self.a(i).shape()) && t.size() == self.a(i).size() && t.ndims() == self.a(i).ndims() && t.len() == self.a(i).len(), COUNT);
            }
            i += 1;
        }
    }
    fn two(&self, op: Op) -> (usize, usize) {
        let x = choice(0, self.p.len() - 1);
        let y = if matches!(op, Op::Scal(..) | Op::Neg(_) | Op::Re(..)) { x } else { choice(0, self.p.len() - 1) };
        assume(self.live(x) && self.live(y));
        (x, y)
    }
}
fn elementwise(few: bool) -> Op {
    match choice(0, if few { 7 } else { 9 }) {
        0 => Op::Bin(choice(0, 3), if few { pick(&[0, 3]) } else { choice(0, 3) }), 1 => Op::Scal(choice(0, 3), !few && flip()), 2 => Op::Neg(flip()),
        3 => Op::Re(VIEW, 0, 0, flip()), 4 => Op::Re(RESHAPE, 0, 0, flip()), 5 => Op::Re(UNSQUEEZE, 0, 0, flip()),
        6 => Op::Re(TRANSPOSE, 0, 1, flip()), 7 => Op::Re(TT, 0, 0, flip()),
        8 => Op::Re(RESHAPE, pick(&[1, 2]), 0, flip()), _ => match choice(0, 4) { 3 => Op::Re(NEGATIVE, 0, 1, flip()), 4 => Op::Re(NEGATIVE, 2, 0, flip()), 0 => Op::Re(SQUEEZE, 0, 0, flip()), 1 => Op::Re(TRANSPOSE, 1, 2, flip()), _ => Op::Re(UNSQUEEZE, 1, 0, flip()) },
    }
}
const SH: &[(&[usize], &[usize])] = &[(&[3], &[3]), (&[2, 3], &[3]), (&[2, 1], &[1, 3]), (&[2, 2], &[2, 2]), (&[], &[2]), (&[1, 2, 2], &[2, 1]), (&[9], &[1]), (&[2, 3], &[2, 3])];
/// the operations of the second and later steps of a chain
fn brief() -> Op {
    match choice(0, 7) {
        0 => Op::Bin(1, 0), 1 => Op::Bin(2, 3), 2 => Op::Scal(3, false), 3 => Op::Neg(true), 4 => Op::Re(TT, 0, 0, flip()),
        5 => Op::Re(RESHAPE, 0, 0, flip()), 6 => Op::Re(VIEW, 0, 0, flip()), _ => Op::Re(UNSQUEEZE, 0, 0, true),
    }
}
fn chain<T: El + TensorDataType>(steps: usize, few: bool) {
    let (s, u) = if few { pick(&[(&[3][..], &[3][..]), (&[2, 2], &[2]), (&[2, 1], &[1, 3])]) } else { pick(SH) };
    let (a, b) = (flip(), flip());
    let mut r: Run<T> = Run { p: vec![] };
    r.leaf(s, arbs(prod(s)), a);
    r.leaf(u, arbs(prod(u)), b);
    let mut i = 0;
    while i < steps {
        let op = if few { brief() } else { elementwise(i > 0) };
        let (x, y) = r.two(op);
        if i == 0 { shard(); }
        let c = if matches!(op, Op::Scal(..)) { T::arb() } else { T::of(1) };
        r.apply(op, x, y, c);
        r.all();
        i += 1;
    }
    let last = r.p.len() - 1;
    if r.t(last).requires_grad() && flip() {
        r.t(last).backward();
        r.all();
    }
}
fn products<T: El + TensorDataType>() {
    let (op, s, u): (Op, &[usize], &[usize]) = pick(&[(Op::Dot, &[3][..], &[3][..]), (Op::Dot, &[9], &[9]), (Op::Dot, &[1], &[1]), (Op::Matmul, &[4], &[4]), (Op::Matmul, &[2, 3], &[3]), (Op::Matmul, &[3, 2], &[2]),
        (Op::Matmul, &[1, 9], &[9]), (Op::Matmul, &[2, 3], &[3, 2]), (Op::Matmul, &[3, 1], &[1, 3]), (Op::Matmul, &[1, 3], &[3, 1]), (Op::Matmul, &[2, 2], &[2, 2]), (Op::Matmul, &[3, 3], &[3, 3]),
        (Op::Bmm, &[2, 2, 3], &[2, 3, 1]), (Op::Bmm, &[1, 2, 2], &[1, 2, 2]), (Op::Bmm, &[2, 2, 2], &[2, 2, 2]), (Op::Bmm, &[3, 1, 2], &[3, 2, 2])]);
    let (a, b) = (flip(), flip());
    // either operand may be a transpose of a tensor
    let (p, q) = (s.len() >= 2 && flip(), u.len() >= 2 && flip());
    let own = flip();
    shard();
    let mut r: Run<T> = Run { p: vec![] };
    let rev = |s: &[usize], t: bool| { let mut s = s.to_vec(); if t { let n = s.len(); s.swap(n - 2, n - 1); } s };
    let (l, m) = (rev(s, p), rev(u, q));
    r.leaf(&l, syms(prod(s), -3, 3), a);
    r.leaf(&m, syms(prod(u), -3, 3), b);
    let (mut x, mut y) = (0, 1);
    if p { r.apply(Op::Re(TRANSPOSE, s.len() - 2, s.len() - 1, own), x, x, T::of(1)); x = r.p.len() - 1; }
    if q { r.apply(Op::Re(TRANSPOSE, u.len() - 2, u.len() - 1, own), y, y, T::of(1)); y = r.p.len() - 1; }
    r.all();
    r.apply(op, x, y, T::of(1));
    r.all();
    if a | b {
        let last = r.p.len() - 1;
        r.t(last).backward();
        r.all();
    }
}
/// a product followed by anything, or anything followed by a product
fn mixed<T: El + TensorDataType>() {
    let (s, u): (&[usize], &[usize]) = pick(&[(&[2, 2][..], &[2, 2][..]), (&[2, 2], &[2]), (&[2], &[2]), (&[1, 2, 2], &[1, 2, 2])]);
    let (a, b) = (flip(), flip());
    let mut r: Run<T> = Run { p: vec![] };
    r.leaf(s, syms(prod(s), -3, 3), a);
    r.leaf(u, syms(prod(u), -3, 3), b);
    let mut i = 0;
    let mut prods = 0;
    while i < 2 {
        let op = match choice(0, 7) {
            0 => Op::Dot, 1 => Op::Matmul, 2 => Op::Bmm, 3 => Op::Bin(choice(0, 2), choice(0, 3)), 4 => Op::Scal(choice(0, 2), flip()), 5 => Op::Neg(flip()),
            6 => Op::Re(choice(0, 3), 0, 0, flip()), _ => Op::Re(TT, 0, 0, flip()),
        };
        if matches!(op, Op::Dot | Op::Matmul | Op::Bmm) { prods += 1; }
        if i == 1 { assume(prods > 0); }
        let (x, y) = r.two(op);
        if i == 0 { shard(); }
        r.apply(op, x, y, T::of(2));
        r.all();
        i += 1;
    }
}
/// operands that do not fit are refused, as by arrays
fn refused<T: El + TensorDataType>() {
    let s = pick_shape(0, 3, 2);
    let u = pick_shape(0, 3, 2);
    let op = match choice(0, 5) { 0 => Op::Bin(0, 0), 1 => Op::Bin(3, 3), 2 => Op::Dot, 3 => Op::Matmul, 4 => Op::Bmm, _ => Op::Bin(2, 1) };
    assume(!fits(op, &s, &u));
    let mut a: Tn<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.clone(), syms(prod(&s), 1, 3)) };
    let mut b: Tn<T> = unsafe { Tensor::from_contiguous_owned_buffer(u.clone(), syms(prod(&u), 1, 3)) };
    let (p, q) = (flip(), flip());
    shard();
    if p { a.set_requires_grad(true); }
    if q { b.set_requires_grad(true); }
    panic_if(true);
    match op { Op::Bin(0, _) => drop(&a + &b), Op::Bin(3, _) => drop(a / b), Op::Dot => drop(a.dot(&b)), Op::Matmul => drop(a.matmul(&b)), Op::Bmm => drop(a.bmm(&b)), _ => drop(a * &b) }
    panic_end();
}
/// tensor to array: owned, shared, tracked and view tensors
fn convert<T: El + TensorDataType>() {
    let s: &[usize] = pick(&[&[2, 2][..], &[3], &[], &[1, 2, 2], &[1, 1]]);
    let req = flip();
    let mut r: Run<T> = Run { p: vec![] };
    r.leaf(s, arbs(prod(s)), req);
    let (form, op) = (choice(0, 4), choice(0, 5));
    shard();
    match op {
        0 => {}
        1 => { assume(s.len() >= 2); r.apply(Op::Re(TT, 0, 0, false), 0, 0, T::of(1)) }
        2 => r.apply(Op::Re(VIEW, 0, 0, false), 0, 0, T::of(1)),
        3 => r.apply(Op::Re(UNSQUEEZE, 0, 0, true), 0, 0, T::of(1)),
        4 => r.apply(Op::Scal(0, false), 0, 0, T::arb()),
        _ => r.apply(Op::Bin(2, 0), 0, 0, T::of(1)),
    }
    r.all();
    let last = r.p.len() - 1;
    let want = r.a(last);
    match form {
        0 => {
            let t = r.t(last);
            let x: &NdArray<T> = ext(t.ndarray());
            agree(x, want);
            if t.size() == 1 { check(t.value().ident(want.value()), VALUE); }
            let back: &Tensor<T> = t.as_ref();
            agree(ext(back.ndarray()), want);
        }
        1 => {
            let x = r.t(last).get_ndarray();
            agree(&x, want);
            // it outlives every tensor
            let keep = flip();
            if !keep { let mut k = r.p.len(); while k > 0 { k -= 1; r.p[k].t = None; } }
            agree(&x, want);
            if keep { r.all(); }
        }
        2 => {
            let mut x = r.t(last).detach();
            agree(&x, want);
            // an array of its own: changing it changes nothing else
            if flip() { x += T::of(1); r.all(); } else { let mut k = r.p.len(); while k > 0 { k -= 1; r.p[k].t = None; } agree(&x, want); }
        }
        3 => {
            let mut x = r.take(last).into_ndarray();
            agree(&x, want);
            if flip() { x += T::of(1); r.all(); } else { let mut k = r.p.len(); while k > 0 { k -= 1; r.p[k].t = None; } agree(&x, want); }
        }
        _ => {
            // shared data: the array handed out before stays as it is
            let x = r.t(last).get_ndarray();
            let y = r.take(last).into_ndarray();
            agree(&x, want);
            agree(&y, want);
            drop(x);
            agree(&y, want);
            r.all();
        }
    }
}
macro_rules! constructors { ($t:ty) => { {
    type T = $t;
    let s = pick_shape(0, 3, 3);
    let v = T::arb();
    let k = choice(0, 8);
    assume(k < 6 || s.len() == 0);
    shard();
    let fresh = |t: Tensor<T>, a: NdArray<T>| {
        agree(ext(t.ndarray()), ext(&a));
        check(!t.requires_grad() & t.is_leaf() & !t.is_view() & t.is_contiguous(), OTHER);
        check(t.gradient().is_none(), COUNT);
    };
    match k {
        0 => fresh(Tensor::full(v, &s), NdArray::full(v, &s)),
        1 => fresh(Tensor::<T>::zeros(&s), NdArray::<T>::zeros(&s)),
        2 => fresh(Tensor::<T>::ones(&s), NdArray::<T>::ones(&s)),
        3 => fresh(Tensor::scalar(v), NdArray::scalar(v)),
        4 => { let d: Vec<T> = arbs(3); fresh(Tensor::new(d.clone()), NdArray::new(d)) }
        5 => { let d = vec![[v, T::arb()], [T::arb(), v]]; fresh(Tensor::new(d.clone()), NdArray::new(d)) }
        6 => { let (a, b, c) = pick(&[(0, 5, 1), (-2, 3, 2), (1, 2, 1), (5, 0, -2), (3, -1, -1), (0, 7, 3)]); let st = T::of(c); fresh(Tensor::arange_with_step(T::of(a), T::of(b), st), NdArray::arange_with_step(T::of(a), T::of(b), st)) }
        7 => { let (a, b) = pick(&[(0, 5), (-3, 2), (7, 8)]); fresh(Tensor::arange(T::of(a), T::of(b)), NdArray::arange(T::of(a), T::of(b))) }
        _ => {
            let (a, b, n) = pick(&[(0, 4, 5), (-2, 2, 2), (3, 0, 3), (1, 2, 4), (1, 1, 2)]);
            if flip() { fresh(Tensor::linspace(T::of(a), T::of(b), n), NdArray::linspace(T::of(a), T::of(b), n)) } else { fresh(Tensor::linspace_exclusive(T::of(a), T::of(b), n), NdArray::linspace_exclusive(T::of(a), T::of(b), n)) }
        }
    }
} } }
fn large<T: El + TensorDataType>() {
    let (k, s, u): (usize, &[usize], &[usize]) = pick(&[(0, &[300, 3][..], &[3][..]), (1, &[1025], &[1]), (2, &[20, 31], &[20, 31]), (3, &[3, 300], &[3, 1]), (4, &[257], &[257]), (5, &[40, 33], &[33]), (5, &[16, 10], &[10, 17]), (6, &[9, 4, 5], &[9, 5, 3]),
        (7, &[1025], &[1]), (8, &[20, 31], &[1]), (9, &[20, 31], &[1])]);
    let (a, b) = (flip(), flip());
    shard();
    let mut r: Run<T> = Run { p: vec![] };
    r.leaf(s, crate::common::mixed(prod(s), -3, 3), a);
    r.leaf(u, if prod(u) > 4 { crate::common::mixed(prod(u), 1, 3) } else { syms(prod(u), 1, 3) }, b);
    let op = match k { 0..=3 => Op::Bin(k, 0), 4 => Op::Dot, 5 => Op::Matmul, 6 => Op::Bmm, 7 => Op::Neg(false), 8 => Op::Re(TT, 0, 0, false), _ => Op::Re(RESHAPE, 0, 0, true) };
    r.apply(op, 0, if k < 7 { 1 } else { 0 }, T::of(1));
    r.all();
}
harness! {
    h_c20_large => if flip() { large::<f32>() } else { large::<f64>() };
    h_c20_one_f32 => chain::<f32>(1, false);
    h_c20_one_f64 => chain::<f64>(1, false);
    h_c20_chain_f32 => chain::<f32>(2, true);
    ht_c20_chain_f64 => chain::<f64>(2, false);
    ht_c20_chain3_f32 => chain::<f32>(3, true);
    h_c20_products_f32 => products::<f32>();
    h_c20_products_f64 => products::<f64>();
    h_c20_mixed_f32 => mixed::<f32>();
    ht_c20_mixed_f64 => mixed::<f64>();
    h_c20_refused => refused::<f32>();
    h_c20_convert_f32 => convert::<f32>();
    h_c20_convert_f64 => convert::<f64>();
    h_c20_make_f32 => constructors!(f32);
    h_c20_make_f64 => constructors!(f64);
}
