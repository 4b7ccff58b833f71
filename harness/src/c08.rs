//! C08: memory safety over histories.
//! Bounds: arrays: all histories of three (thorough: four) steps over all live arrays, starting from one or two owned arrays of six shapes: views by reference (view, slice, T, reshape,
//! unsqueeze, broadcast, diagonal), views that consume their source, clones, flatten, conversion to another type and to a vector, in-place updates through
//! owners and through views, operators by reference and by value, reductions, abandoned iterators, drops. Tensors: histories of two steps over two (thorough: four) combinations of shapes and of three steps over one (thorough: two; quick leaves out first steps that create nothing and last steps that create something): operations in both
//! forms, tracking switched on and off, backward passes, clearing, gradients, arrays handed out and kept, drops; at the end everything is
//! dropped oldest or newest first. Sizes up to 6, symbolic element values in -3..=3. Every access of every path is checked against the live
//! allocations, every release must match its allocation, and nothing may be left at the end. The borrow rules of the language are assumed.
use crate::common::*;
use crate::graph::*;
use crate::rt::*;
use redstone_ml::*;

struct Slot<T: El> { a: Option<Box<NdArray<'static, T>>>, m: M, base: usize, from: Option<usize>, ro: bool }
struct Heap<T: Num> { s: Vec<Slot<T>>, bases: Vec<Vec<T>>, extra: Vec<(Vec<T>, Vec<T>)> }

impl<T: Num> Heap<T> {
    fn new() -> Self { Heap { s: vec![], bases: vec![], extra: vec![] } }
    fn fresh(&mut self, a: NdArray<'_, T>, shape: &[usize], v: Vec<T>) {
        self.bases.push(v);
        self.s.push(Slot { a: Some(Box::new(long(a))), m: M::new(shape), base: self.bases.len() - 1, from: None, ro: false });
    }
    fn view(&mut self, a: NdArray<'_, T>, m: M, base: usize, from: Option<usize>, ro: bool) {
        self.s.push(Slot { a: Some(Box::new(long(a))), m, base, from, ro });
    }
    fn live(&self, x: usize) -> bool { self.s[x].a.is_some() }
    fn borrowed(&self, x: usize) -> bool {
        let mut k = 0;
        while k < self.s.len() { if self.s[k].from == Some(x) && self.live(k) { return true; } k += 1; }
        false
    }
    fn a(&self, x: usize) -> &'static NdArray<'static, T> { ext(self.s[x].a.as_ref().unwrap()) }
    fn take(&mut self, x: usize) -> NdArray<'static, T> { assume(!self.borrowed(x)); *self.s[x].a.take().unwrap() }
    fn vals(&self, x: usize) -> Vec<T> {
        let s = &self.s[x];
        let (mut v, mut k) = (vec![], 0);
        while k < s.m.size() { v.push(self.bases[s.base][s.m.offs[k]]); k += 1; }
        v
    }
    fn all(&self) {
        let mut x = 0;
        while x < self.s.len() {
            if self.live(x) { let v = self.vals(x); check_view(self.a(x), &self.s[x].m.shape, &|k| v[k]); }
            x += 1;
        }
        let mut x = 0;
        while x < self.extra.len() {
            let (a, b) = &self.extra[x];
            check(a.len() == b.len(), COUNT);
            let mut k = 0;
            while k < b.len() { check(a[k] == b[k], VALUE); k += 1; }
            x += 1;
        }
    }
    fn step(&mut self, kinds: usize) {
        let x = choice(0, self.s.len() - 1);
        assume(self.live(x));
        let k = choice(0, kinds);
        let (m, base, ro, from) = (M { shape: self.s[x].m.shape.clone(), offs: self.s[x].m.offs.clone() }, self.s[x].base, self.s[x].ro, self.s[x].from);
        let s = m.shape.clone();
        let (r, n) = (s.len(), m.size());
        match k {
            // views by reference
            0 => { let v = self.a(x).view(); self.view(v, m, base, Some(x), ro); }
            1 => { assume(r >= 2); let v = self.a(x).T(); self.view(v, m.transpose(0, 1), base, Some(x), ro); }
            2 => { assume(r >= 1 && s[0] >= 2); let v = self.a(x).slice_along(Axis(0), 1..); self.view(v, m.slice(0, 1, s[0] - 1), base, Some(x), ro); }
            3 => { assume(self.a(x).is_uniformly_strided()); let v = self.a(x).reshape([n]); self.view(v, m.reshape(&[n]), base, Some(x), ro); }
            4 => { let mut to = s.clone(); to.insert(0, 2); let v = self.a(x).broadcast_to(&to); self.view(v, m.broadcast(&to), base, Some(x), true); }
            5 => { assume(r >= 2); let v = self.a(x).diagonal(); self.view(v, m.diagonal(0, 0, 1), base, Some(x), ro); }
            // views that consume their source
            6 => { assume(r >= 2); let a = self.take(x); self.view(a.T(), m.transpose(0, 1), base, from, ro); }
            7 => { assume(self.a(x).is_uniformly_strided()); let a = self.take(x); self.view(a.reshape([n]), m.reshape(&[n]), base, from, ro); }
            8 => { let a = self.take(x); let mut to = s.clone(); to.insert(0, 1); self.view(if flip() { a.view().unsqueeze(0) } else { a.unsqueeze(0) }, m.reshape(&to), base, from, ro); }
            // new arrays
            9 => { let v = self.vals(x); let a = self.a(x).clone(); self.fresh(a, &s, v); }
            10 => { let v = self.vals(x); let a = self.a(x).flatten(); self.fresh(a, &[n], v); }
            11 => {
                let v = self.vals(x);
                let (mut d, mut i) = (vec![], 0);
                while i < n { d.push(v[i] + v[i]); i += 1; }
                let form = choice(0, 2);
                let a = match form { 0 => self.a(x) + self.a(x), 1 => { let y = self.a(x).clone(); self.a(x) + y } _ => { let y = self.a(x).clone(); let z = self.take(x); z + y } };
                self.fresh(a, &s, d);
            }
            12 => {
                let v = self.vals(x);
                let (mut t, mut i) = (T::of(0), 0);
                while i < n { t = t + v[i]; i += 1; }
                let a = self.a(x).sum();
                self.fresh(a, &[], vec![t]);
            }
            // updates
            13 => {
                assume(!ro && !self.borrowed(x));
                let fill = flip();
                let mut a = self.take(x);
                let mut i = 0;
                while i < n { let o = m.offs[i]; self.bases[base][o] = if fill { T::of(5) } else { self.bases[base][o] + T::of(2) }; i += 1; }
                if fill { a.fill(T::of(5)); } else { a += T::of(2); }
                self.s[x].a = Some(Box::new(a));
            }
            14 => {
                assume(!ro && !self.borrowed(x) && r >= 1);
                let v = self.vals(x);
                let mut a = self.take(x);
                // update from a copy of itself
                let c = a.clone();
                a -= &c;
                let mut i = 0;
                while i < n { let o = m.offs[i]; self.bases[base][o] = v[i] - v[i]; i += 1; }
                self.s[x].a = Some(Box::new(a));
            }
            // ends
            15 => { drop(self.take(x)); }
            16 => {
                assume(from.is_none() && self.a(x).is_contiguous());
                let v = self.vals(x);
                let d = self.take(x).into_data_vector();
                self.extra.push((d, v));
            }
            // iterators, abandoned half way; sub-arrays that are kept
            17 => {
                assume(r >= 1);
                let v = self.vals(x);
                let row = n / s[0];
                let mut it = self.a(x).iter();
                let first = it.next();
                if flip() { drop(it.next()); }
                drop(it);
                match first { Some(a) => self.fresh(a, &s[1..], v[..row].to_vec()), None => check(false, COUNT) }
            }
            _ => {
                let mut it = self.a(x).flatiter();
                let v = self.vals(x);
                match it.next() { Some(e) => check(e == v[0], VALUE), None => check(false, COUNT) }
                let c = self.a(x).astype::<i64>();
                check(same(c.shape(), &s), SHAPE);
            }
        }
    }
    fn finish(mut self, oldest: bool) {
        if oldest {
            // sources go before their views only when the views are gone
            let mut left = true;
            while left {
                left = false;
                let mut x = 0;
                while x < self.s.len() { if self.live(x) { if self.borrowed(x) { left = true; } else { self.s[x].a = None; self.all(); } } x += 1; }
            }
        } else {
            let mut x = self.s.len();
            while x > 0 { x -= 1; self.s[x].a = None; }
        }
        self.all();
    }
}
const KINDS: usize = 18;
fn arrays<T: Num>(steps: usize, shapes: &[&[usize]], two: bool) {
    let s = pick(shapes);
    let mut h: Heap<T> = Heap::new();
    let v: Vec<T> = syms(prod(s), -3, 3);
    h.fresh(owned(s, &v), s, v);
    if two { let v: Vec<T> = syms(2, -3, 3); h.fresh(owned(&[2], &v), &[2], v); }
    let oldest = flip();
    let mut i = 0;
    while i < steps {
        if i == 1 { shard(); }
        h.step(KINDS);
        i += 1;
    }
    h.all();
    h.finish(oldest);
}

struct Held<T: El + TensorDataType> { arrays: Vec<(NdArray<'static, T>, Vec<usize>, Vec<T>)>, shared: Vec<(std::rc::Rc<NdArray<'static, T>>, Vec<usize>, Vec<T>)> }
impl<T: El + TensorDataType> Held<T> {
    fn all(&self) {
        let mut i = 0;
        while i < self.arrays.len() { let (a, s, v) = &self.arrays[i]; check_view(a, s, &|k| v[k]); i += 1; }
        let mut i = 0;
        while i < self.shared.len() { let (a, s, v) = &self.shared[i]; check_view(a, s, &|k| v[k]); i += 1; }
    }
}
fn values<T: El + TensorDataType>(g: &Graph<T>) { let mut i = 0; while i < g.n.len() { if g.live(i) { g.check_value(i); } i += 1; } }
fn gradients<T: El + TensorDataType>(g: &Graph<T>) {
    let mut i = 0;
    while i < g.n.len() {
        if g.live(i) {
            if let Some(d) = g.t(i).gradient() {
                check(same(d.shape(), &g.n[i].shape), SHAPE);
                let (mut it, mut n) = (d.flatiter(), 0);
                while let Some(e) = it.next() { observe(e.bits()); n += 1; }
                check(n == g.n[i].v.len(), COUNT);
            }
        }
        i += 1;
    }
}
fn tensors<T: El + TensorDataType>(steps: usize, full: bool) {
    const QUICK: &[(&[usize], &[usize])] = &[(&[2], &[2]), (&[1, 2, 2], &[1, 2, 2])];
    const FULL: &[(&[usize], &[usize])] = &[(&[2, 2], &[2]), (&[1, 2], &[2, 1]), (&[2], &[2]), (&[1, 2, 2], &[1, 2, 2])];
    let (s, u) = pick(if full { if thorough() { FULL } else { QUICK } } else if thorough() { &FULL[..2] } else { &FULL[1..2] });
    let (a, b) = if full { (flip(), flip()) } else { (true, !thorough() || flip()) };
    let oldest = flip();
    let mut g: Graph<T> = Graph::new(false);
    g.leaf(s, syms(prod(s), -3, 3), a);
    g.leaf(u, syms(prod(u), -3, 3), b);
    let mut lent: Vec<NdArray<'static, T>> = vec![];
    let mut h: Held<T> = Held { arrays: vec![], shared: vec![] };
    let mut i = 0;
    while i < steps {
        if i == 1 { shard(); }
        // quick: the first step makes a new tensor from the first leaf, the last one uses or ends the first leaf or the newest tensor
        let brief = !full && !thorough();
        let x = if brief && i == 0 { 0 } else if brief && i == 2 { pick(&[0, g.n.len() - 1]) } else { choice(0, g.n.len() - 1) };
        assume(g.live(x));
        let last = i + 1 == steps;
        match if brief && i == 0 { choice(0, 8) } else if brief && i == 2 { pick(&[9, 10, 12, 14, 15, 16]) } else { choice(if last { 5 } else { 0 }, 17) } {
            0 => assume(g.apply(Op::Re(VIEW, 0, 0, false), x, x, T::of(2)).is_some()),
            1 => assume(g.apply(Op::Re(TT, 0, 0, false), x, x, T::of(2)).is_some()),
            2 => assume(g.apply(Op::Re(VIEW, 0, 0, true), x, x, T::of(2)).is_some()),
            3 => assume(g.apply(Op::Scal(if full { choice(0, 2) } else { 0 }, false), x, x, T::of(2)).is_some()),
            4 => assume(g.apply(Op::Neg(flip()), x, x, T::of(2)).is_some()),
            5 => assume(g.apply(Op::Re(RESHAPE, 0, 0, true), x, x, T::of(2)).is_some()),
            6 => { let y = choice(0, g.n.len() - 1); assume(g.live(y)); assume(g.apply(Op::Bin(2, 0), x, y, T::of(2)).is_some()); }
            7 => { let y = choice(0, g.n.len() - 1); assume(g.live(y) && x != y); assume(g.apply(Op::Bin(if full { choice(0, 2) } else { 2 }, 3), x, y, T::of(2)).is_some()); }
            8 => { let y = choice(0, g.n.len() - 1); assume(g.live(y)); assume(g.apply(if g.n[x].shape.len() == 3 { Op::Bmm } else { Op::Matmul }, x, y, T::of(2)).is_some()); }
            9 => { g.t(x).backward(); }
            10 => { g.t(x).zero_gradient(); }
            11 => { assume(!g.borrowed(x)); let on = !g.n[x].req; g.track(x, on); }
            12 => g.drop(x),
            13 => h.arrays.push((g.t(x).detach(), g.n[x].shape.clone(), g.n[x].v.clone())),
            14 => h.shared.push((g.t(x).get_ndarray(), g.n[x].shape.clone(), g.n[x].v.clone())),
            15 => { assume(!g.borrowed(x)); let t = *g.n[x].t.take().unwrap(); h.arrays.push((t.into_ndarray(), g.n[x].shape.clone(), g.n[x].v.clone())) }
            // a pass fed with a gradient that another tensor holds
            16 => { let y = choice(0, g.n.len() - 1); assume(g.live(y)); assume(same(&g.n[x].shape, &g.n[y].shape)); match g.t(y).gradient() { Some(d) => g.t(x).backward_with(d), None => assume(false) } }
            // a gradient that stays in use
            _ => { if let Some(d) = g.t(x).gradient() { let c: NdArray<'static, T> = d.clone(); check(same(c.shape(), &g.n[x].shape), SHAPE); g.n[x].lent = true; lent.push(long(d)); } else { assume(false) } }
        }
        i += 1;
    }
    if oldest { let mut i = 0; while i < g.n.len() { if g.live(i) { g.t(i).zero_gradient(); } i += 1; } }
    let mut i = 0;
    while i < lent.len() { let mut it = lent[i].flatiter(); while let Some(e) = it.next() { observe(e.bits()); } i += 1; }
    // what is still there can be used
    values(&g);
    gradients(&g);
    let mut i = if full { 0 } else { g.n.len() - 2 };
    while i < g.n.len() { if g.live(i) { g.t(i).backward(); } i += 1; }
    gradients(&g);
    drop(lent);
    let mut i = 0;
    while i < g.n.len() { g.n[i].lent = false; i += 1; }
    if oldest {
        let mut left = true;
        while left {
            left = false;
            let mut i = 0;
            while i < g.n.len() { if g.live(i) { if g.borrowed(i) { left = true; } else { g.drop(i); } } i += 1; }
        }
    } else {
        let mut i = g.n.len();
        while i > 0 { i -= 1; g.n[i].t = None; }
    }
    h.all();
}
harness! {
    h_c08_arrays_i32 => arrays::<i32>(if thorough() { 4 } else { 3 }, if thorough() { &[&[2, 3], &[3]] } else { &[&[2, 3]] }, false);
    h_c08_arrays_f32 => arrays::<f32>(if thorough() { 3 } else { 2 }, &[&[2, 2], &[3], &[], &[2, 1, 2]], true);
    h_c08_arrays_u8 => arrays::<u8>(2, &[&[1, 3], &[1, 1]], true);
    h_c08_tensors_f32 => tensors::<f32>(3, false);
    h_c08_tensors2_f64 => tensors::<f64>(2, true);
}
