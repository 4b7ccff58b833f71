//! A recorded computation on tensors next to its reference model: values, tracking flags and (on demand) the full Jacobian of
//! every node with respect to every tracked leaf, propagated forwards. Used by C08, C11, C12 and C20.
use crate::common::*;
use crate::rt::*;
use redstone_ml::*;

pub type Tn<T> = Tensor<'static, T>;
/// rows: elements of the node, columns: elements of the leaf; None is a structural zero
pub type Jac<T> = Vec<Vec<Option<T>>>;

pub struct Node<T: El + TensorDataType> {
    pub t: Option<Box<Tn<T>>>,
    pub shape: Vec<usize>,
    pub v: Vec<T>,
    pub jac: Vec<Option<Jac<T>>>,
    pub req: bool,
    /// created by the user (as opposed to the result of an operation)
    pub user: bool,
    /// number of the leaf whose gradient this tensor holds
    pub leaf: Option<usize>,
    /// the node whose memory this one borrows
    pub from: Option<usize>,
    /// all elements are powers of two (divisors: quotients and their derivatives are exact)
    pub pow2: bool,
    /// its gradient has been handed out and is still in use
    pub lent: bool,
}
pub struct Graph<T: El + TensorDataType> { pub n: Vec<Node<T>>, pub leaves: usize, pub with_jac: bool }

fn add<T: El + TensorDataType>(a: Option<T>, b: Option<T>) -> Option<T> {
    match (a, b) { (Some(x), Some(y)) => Some(x + y), (Some(x), None) => Some(x), (None, y) => y }
}
fn mul<T: El + TensorDataType>(a: Option<T>, k: T) -> Option<T> { match a { Some(x) => Some(x * k), None => None } }

#[derive(Clone, Copy)]
pub enum Op { Bin(usize, usize), Scal(usize, bool), Neg(bool), Dot, Matmul, Bmm, Re(usize, usize, usize, bool) }
pub const VIEW: usize = 0;
pub const RESHAPE: usize = 1; // to one axis (a, b ignored), or to [a, size / a] when a > 0
pub const SQUEEZE: usize = 2;
pub const UNSQUEEZE: usize = 3; // at axis a
pub const TRANSPOSE: usize = 4; // axes a, b
pub const TT: usize = 5;

impl<T: El + TensorDataType> Graph<T> {
    pub fn new(with_jac: bool) -> Self { Graph { n: vec![], leaves: 0, with_jac } }
    pub fn leaf(&mut self, shape: &[usize], v: Vec<T>, req: bool) -> usize {
        let mut t: Tn<T> = unsafe { Tensor::from_contiguous_owned_buffer(shape.to_vec(), v.clone()) };
        if req { t.set_requires_grad(true); }
        self.n.push(Node { t: Some(Box::new(t)), shape: shape.to_vec(), v, jac: vec![], req: false, user: true, leaf: None, from: None, pow2: false, lent: false });
        let i = self.n.len() - 1;
        if req { self.start(i); }
        i
    }
    /// node i becomes a leaf of its own
    fn start(&mut self, i: usize) {
        let size = self.n[i].v.len();
        let l = self.leaves;
        self.leaves += 1;
        let node = &mut self.n[i];
        node.req = true;
        node.leaf = Some(l);
        node.jac.clear();
        let mut k = 0;
        while k < l { node.jac.push(None); k += 1; }
        let mut j = vec![];
        let mut r = 0;
        while r < size { let mut row = vec![None; size]; row[r] = Some(T::of(1)); j.push(row); r += 1; }
        node.jac.push(Some(j));
    }
    pub fn track(&mut self, i: usize, on: bool) {
        self.n[i].t.as_mut().unwrap().set_requires_grad(on);
        if on && !self.n[i].req { self.start(i); }
        if !on && self.n[i].req { self.n[i].req = false; self.n[i].leaf = None; self.n[i].jac.clear(); }
    }
    pub fn live(&self, i: usize) -> bool { self.n[i].t.is_some() }
    pub fn borrowed(&self, i: usize) -> bool {
        if self.n[i].lent { return true; }
        let mut k = 0;
        while k < self.n.len() { if self.n[k].from == Some(i) && self.live(k) { return true; } k += 1; }
        false
    }
    pub fn t(&self, i: usize) -> &'static Tn<T> { unsafe { &*(&**self.n[i].t.as_ref().unwrap() as *const Tn<T>) } }
    fn take(&mut self, i: usize) -> Tn<T> { assume(!self.borrowed(i)); *self.n[i].t.take().unwrap() }
    pub fn drop(&mut self, i: usize) { assume(!self.borrowed(i)); self.n[i].t = None; }
    fn jac_of(&self, i: usize, l: usize, r: usize, c: usize) -> Option<T> {
        match self.n[i].jac.get(l) { Some(Some(j)) => j[r][c], _ => None }
    }
    fn leaf_len(&self, l: usize) -> usize {
        let mut k = 0;
        while k < self.n.len() { if self.n[k].leaf == Some(l) { return self.n[k].v.len(); } k += 1; }
        // the tensor stopped being tracked, but results still refer to it
        let mut k = 0;
        while k < self.n.len() { if let Some(Some(j)) = self.n[k].jac.get(l) { return j[0].len(); } k += 1; }
        0
    }
    /// jacobian of a result: row i is computed by f(leaf, column, i)
    fn derive(&self, size: usize, f: &dyn Fn(usize, usize, usize) -> Option<T>) -> Vec<Option<Jac<T>>> {
        let mut out = vec![];
        if !self.with_jac { return out; }
        let mut l = 0;
        while l < self.leaves {
            let n = self.leaf_len(l);
            let mut j = vec![];
            let mut i = 0;
            while i < size { let mut row = vec![]; let mut c = 0; while c < n { row.push(f(l, c, i)); c += 1; } j.push(row); i += 1; }
            out.push(Some(j));
            l += 1;
        }
        out
    }
    fn push(&mut self, t: Tensor<'_, T>, shape: Vec<usize>, v: Vec<T>, jac: Vec<Option<Jac<T>>>, req: bool, from: Option<usize>) -> usize {
        let t: Tn<T> = unsafe { std::mem::transmute(t) };
        self.n.push(Node { t: Some(Box::new(t)), shape, v, jac: if req { jac } else { vec![] }, req, user: false, leaf: None, from, pow2: false, lent: false });
        self.n.len() - 1
    }
    /// node x op node y; false if the model says that the operands do not fit
    pub fn apply(&mut self, op: Op, x: usize, y: usize, s: T) -> Option<usize> {
        let (sx, sy) = (self.n[x].shape.clone(), self.n[y].shape.clone());
        let (vx, vy) = (self.n[x].v.clone(), self.n[y].v.clone());
        match op {
            Op::Bin(k, form) => {
                let out = bshape(&sx, &sy)?;
                if k == 3 && !self.n[y].pow2 { return None; }
                let n = prod(&out);
                let (mut v, mut i) = (vec![], 0);
                while i < n {
                    let (a, b) = (vx[bsrc(i, &out, &sx)], vy[bsrc(i, &out, &sy)]);
                    v.push(match k { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b });
                    i += 1;
                }
                let jac = self.derive(n, &|l, c, i| {
                    let (p, q) = (bsrc(i, &out, &sx), bsrc(i, &out, &sy));
                    let (da, db, a, b) = (self.jac_of(x, l, p, c), self.jac_of(y, l, q, c), vx[p], vy[q]);
                    match k {
                        0 => add(da, db),
                        1 => add(da, match db { Some(z) => Some(-z), None => None }),
                        2 => add(mul(da, b), mul(db, a)),
                        _ => add(mul(da, T::of(1) / b), mul(db, -(a / (b * b)))),
                    }
                });
                let req = self.n[x].req || self.n[y].req;
                assume(x != y || form == 0);
                // the operands are passed by reference or by value
                let (ox, oy) = (form & 1 == 1, form & 2 == 2);
                let tx = if ox { Some(self.take(x)) } else { None };
                let ty = if oy { Some(self.take(y)) } else { None };
                macro_rules! go { ($o:tt) => { match (tx, ty) {
                    (Some(a), Some(b)) => a $o b,
                    (Some(a), None) => a $o self.t(y),
                    (None, Some(b)) => self.t(x) $o b,
                    (None, None) => self.t(x) $o self.t(y),
                } } }
                let t = match k { 0 => go!(+), 1 => go!(-), 2 => go!(*), _ => go!(/) };
                Some(self.push(t, out, v, jac, req, None))
            }
            Op::Scal(k, own) => {
                let n = vx.len();
                let (mut v, mut i) = (vec![], 0);
                while i < n { let a = vx[i]; v.push(match k { 0 => a + s, 1 => a - s, 2 => a * s, _ => a / s }); i += 1; }
                let jac = self.derive(n, &|l, c, i| { let d = self.jac_of(x, l, i, c); match k { 0 | 1 => d, 2 => mul(d, s), _ => mul(d, T::of(1) / s) } });
                let req = self.n[x].req;
                let tx = if own { Some(self.take(x)) } else { None };
                macro_rules! go { ($o:tt) => { match tx { Some(a) => a $o s, None => self.t(x) $o s } } }
                let t = match k { 0 => go!(+), 1 => go!(-), 2 => go!(*), _ => go!(/) };
                Some(self.push(t, sx, v, jac, req, None))
            }
            Op::Neg(own) => {
                let n = vx.len();
                let (mut v, mut i) = (vec![], 0);
                while i < n { v.push(-vx[i]); i += 1; }
                let jac = self.derive(n, &|l, c, i| match self.jac_of(x, l, i, c) { Some(z) => Some(-z), None => None });
                let req = self.n[x].req;
                let t = if own { -self.take(x) } else { -self.t(x) };
                Some(self.push(t, sx, v, jac, req, None))
            }
            Op::Dot | Op::Matmul | Op::Bmm => {
                let (b, m, k, n, out) = match op {
                    Op::Bmm => { if sx.len() != 3 || sy.len() != 3 || sx[0] != sy[0] || sx[2] != sy[1] { return None; } (sx[0], sx[1], sx[2], sy[2], vec![sx[0], sx[1], sy[2]]) }
                    _ => {
                        if sx.len() == 1 && sy.len() == 1 { if sx[0] != sy[0] { return None; } (1, 1, sx[0], 1, vec![]) }
                        else if matches!(op, Op::Dot) { return None; }
                        else if sx.len() == 2 && sy.len() == 1 { if sx[1] != sy[0] { return None; } (1, sx[0], sx[1], 1, vec![sx[0]]) }
                        else if sx.len() == 2 && sy.len() == 2 { if sx[1] != sy[0] { return None; } (1, sx[0], sx[1], sy[1], vec![sx[0], sy[1]]) }
                        else { return None; }
                    }
                };
                let at = |i: usize, p: usize| { let (g, r, c) = (i / (m * n), (i / n) % m, i % n); (g * m * k + r * k + p, g * k * n + p * n + c) };
                let total = b * m * n;
                let (mut v, mut i) = (vec![], 0);
                while i < total {
                    let (mut acc, mut p) = (None, 0);
                    while p < k { let (q, r) = at(i, p); acc = add(acc, Some(vx[q] * vy[r])); p += 1; }
                    v.push(acc.unwrap());
                    i += 1;
                }
                let jac = self.derive(total, &|l, c, i| {
                    let (mut acc, mut p) = (None, 0);
                    while p < k {
                        let (q, r) = at(i, p);
                        acc = add(acc, mul(self.jac_of(x, l, q, c), vy[r]));
                        acc = add(acc, mul(self.jac_of(y, l, r, c), vx[q]));
                        p += 1;
                    }
                    acc
                });
                let req = self.n[x].req || self.n[y].req;
                let t = match op { Op::Dot => self.t(x).dot(self.t(y)), Op::Matmul => self.t(x).matmul(self.t(y)), _ => self.t(x).bmm(self.t(y)) };
                Some(self.push(t, out, v, jac, req, None))
            }
            Op::Re(k, a, b, own) => {
                let r = sx.len();
                let n = vx.len();
                let m = M::new(&sx);
                let m = match k {
                    VIEW => m,
                    RESHAPE => if a == 0 { m.reshape(&[n]) } else { if n % a != 0 { return None; } m.reshape(&[a, n / a]) },
                    SQUEEZE => { let (mut s, mut i) = (vec![], 0); while i < r { if sx[i] != 1 { s.push(sx[i]); } i += 1; } m.reshape(&s) }
                    UNSQUEEZE => { if a > r { return None; } let mut s = sx.clone(); s.insert(a, 1); m.reshape(&s) }
                    TRANSPOSE => { if a >= r || b >= r { return None; } m.transpose(a, b) }
                    _ => { if r < 2 { return None; } m.transpose(0, 1) }
                };
                if k == RESHAPE && !same(&sx, &m.shape) && !self.t(x).is_uniformly_strided() { return None; }
                let (mut v, mut i) = (vec![], 0);
                while i < n { v.push(vx[m.offs[i]]); i += 1; }
                let jac = self.derive(n, &|l, c, i| self.jac_of(x, l, m.offs[i], c));
                let req = self.n[x].req;
                macro_rules! go { ($t:expr) => { match k {
                    VIEW => $t.view(), RESHAPE => $t.reshape(m.shape.clone()), SQUEEZE => $t.squeeze(), UNSQUEEZE => $t.unsqueeze(a as isize),
                    TRANSPOSE => $t.transpose(a as isize, b as isize), _ => $t.T(),
                } } }
                if own {
                    let t = self.take(x);
                    let t = go!(t);
                    Some(self.push(t, m.shape.clone(), v, jac, req, None))
                } else {
                    let t = go!(self.t(x));
                    Some(self.push(t, m.shape.clone(), v, jac, req, Some(x)))
                }
            }
        }
    }
    /// values and shape of node i as the model has them
    pub fn check_value(&self, i: usize) {
        check_view(self.t(i).ndarray(), &self.n[i].shape, &|k| self.n[i].v[k]);
        check(same(self.t(i).shape(), &self.n[i].shape), SHAPE);
    }
    pub fn check_flags(&self, i: usize) {
        let (t, n) = (self.t(i), &self.n[i]);
        check(t.requires_grad() == n.req, OTHER);
        check(t.is_leaf() == (!n.req || n.user), OTHER);
    }
    /// expected gradient of leaf l after a pass from node i with upstream gradient g
    pub fn vjp(&self, i: usize, g: &[T], l: usize, len: usize) -> Vec<Option<T>> {
        let (mut out, mut c) = (vec![], 0);
        while c < len {
            let (mut acc, mut r) = (None, 0);
            while r < g.len() { acc = add(acc, mul(self.jac_of(i, l, r, c), g[r])); r += 1; }
            out.push(acc);
            c += 1;
        }
        out
    }
    /// the gradient of node i is `want`
    pub fn check_grad(&self, i: usize, want: &[Option<T>]) {
        match self.t(i).gradient() {
            Some(g) => check_view(&g, &self.n[i].shape, &|k| match want[k] { Some(x) => x, None => T::of(0) }),
            None => check(false, COUNT),
        }
    }
    pub fn zeros(&self, i: usize) -> Vec<Option<T>> { vec![None; self.n[i].v.len()] }
}
pub fn plus<T: El + TensorDataType>(a: &[Option<T>], b: &[Option<T>]) -> Vec<Option<T>> {
    let (mut r, mut i) = (vec![], 0);
    while i < a.len() { r.push(add(a[i], b[i])); i += 1; }
    r
}
