//! C11: back-propagation.
//! Bounds: every differentiable operation on two leaves of any broadcastable pair of shapes of rank 0..=2 (thorough: 3) with dimensions 1..=3, every
//! assignment of the tracking flag, by-reference and by-value forms; products of vectors, matrices and batches with dimensions 1..=3;
//! chains of two (thorough: three) operations over all live tensors (shared operands included) in four (thorough: six) combinations of shapes; two (thorough: three)
//! passes from any tensor with clearing in between, operands dropped before the pass. Symbolic leaf values in -3..=3 and upstream
//! gradients in -3..=3 (integers, so that float arithmetic is exact), divisors are powers of two. The model propagates full Jacobians forwards.
use crate::common::*;
use crate::graph::*;
use crate::rt::*;
use redstone_ml::*;

fn pow2s<T: El>(n: usize) -> Vec<T> { let (mut v, mut i) = (vec![], 0); while i < n { v.push(T::of([2, -1, -4, 8, 1][i % 5])); i += 1; } v }
/// a pass from node i; `acc` holds the gradients expected so far, per node
fn pass<T: El + TensorDataType>(g: &Graph<T>, i: usize, ones: bool, acc: &mut Vec<Vec<Option<T>>>) {
    let n = g.n[i].v.len();
    let up: Vec<T> = if ones { vec![T::of(1); n] } else { syms(n, -3, 3) };
    if ones { g.t(i).backward() } else { g.t(i).backward_with(owned(&g.n[i].shape, &up)) }
    let mut k = 0;
    while k < g.n.len() {
        if let Some(l) = g.n[k].leaf { acc[k] = plus(&acc[k], &g.vjp(i, &up, l, g.n[k].v.len())); }
        k += 1;
    }
}
fn start<T: El + TensorDataType>(g: &Graph<T>) -> Vec<Vec<Option<T>>> {
    let (mut a, mut k) = (vec![], 0);
    while k < g.n.len() { a.push(g.zeros(k)); k += 1; }
    a
}
fn verify<T: El + TensorDataType>(g: &Graph<T>, acc: &Vec<Vec<Option<T>>>) {
    let mut k = 0;
    while k < g.n.len() {
        if g.live(k) {
            g.check_value(k);
            if g.n[k].leaf.is_some() { g.check_grad(k, &acc[k]) } else { check(g.t(k).gradient().is_none(), COUNT) }
        }
        k += 1;
    }
}
/// one operation on two leaves
fn single<T: El + TensorDataType>(s: Vec<usize>, u: Vec<usize>, op: Op) {
    let unary = matches!(op, Op::Scal(..) | Op::Neg(_) | Op::Re(..));
    let div = matches!(op, Op::Bin(3, _));
    let (a, b) = if unary { (true, false) } else { (flip(), flip()) };
    shard();
    let mut g: Graph<T> = Graph::new(true);
    g.leaf(&s, syms(prod(&s), -3, 3), a);
    if !unary { g.leaf(&u, if div { pow2s(prod(&u)) } else { syms(prod(&u), -3, 3) }, b); g.n[1].pow2 = div; }
    let r = g.apply(op, 0, if unary { 0 } else { 1 }, T::of(-4));
    assume(r.is_some());
    let mut acc = start(&g);
    if !a & !b { check(g.n[r.unwrap()].jac.is_empty(), OTHER); }
    pass(&g, r.unwrap(), false, &mut acc);
    verify(&g, &acc);
}
fn elementwise<T: El + TensorDataType>(rmax: usize, d: usize) {
    let k = choice(0, 3);
    let s = pick_shape(0, rmax, d);
    let u = pick_shape(0, rmax, d);
    assume(bshape(&s, &u).is_some());
    single::<T>(s, u, Op::Bin(k, 0))
}
fn forms<T: El + TensorDataType>() {
    let op = match choice(0, 3) { 0 => Op::Bin(choice(0, 3), choice(0, 3)), 1 => Op::Scal(choice(0, 3), flip()), 2 => Op::Neg(flip()), _ => Op::Re(choice(0, 5), choice(0, 2), choice(0, 2), flip()) };
    let (s, u): (&[usize], &[usize]) = pick(&[(&[2][..], &[2][..]), (&[2, 2], &[2]), (&[2, 1, 2], &[2, 1]), (&[], &[2]), (&[1, 3], &[3, 1])]);
    single::<T>(s.to_vec(), u.to_vec(), op)
}
fn products<T: El + TensorDataType>(d: usize) {
    let kind = choice(0, 4);
    let (m, k, n) = (choice(1, d), choice(1, d), choice(1, d));
    assume(kind != 0 || (m == 1 && n == 1));
    assume((kind != 1 && kind != 4) || n == 1);
    assume(kind != 4 || m == 1);
    let (s, u, op) = match kind {
        0 => (vec![k], vec![k], Op::Dot),
        1 => (vec![m, k], vec![k], Op::Matmul),
        2 => (vec![m, k], vec![k, n], Op::Matmul),
        3 => { let b = if thorough() { choice(1, 3) } else { choice(1, 2) }; (vec![b, m, k], vec![b, k, n], Op::Bmm) }
        _ => (vec![k], vec![k], Op::Matmul),
    };
    single::<T>(s, u, op)
}
fn op_of(k: usize) -> Op {
    match k {
        0 => Op::Bin(0, 0), 1 => Op::Bin(1, 0), 2 => Op::Bin(2, 0), 3 => Op::Bin(3, 0), 4 => Op::Scal(1, false), 5 => Op::Scal(3, false), 6 => Op::Neg(false),
        7 => Op::Matmul, 8 => Op::Re(TT, 0, 0, false), 9 => Op::Re(RESHAPE, 0, 0, true), 10 => Op::Re(UNSQUEEZE, 1, 0, false), 11 => Op::Scal(2, true),
        12 => Op::Bmm, 13 => Op::Re(TRANSPOSE, 0, 1, true), 14 => Op::Bin(2, 3), _ => Op::Re(VIEW, 0, 0, false),
    }
}
const PAIRS: &[(&[usize], &[usize])] = &[(&[2], &[2]), (&[2, 2], &[2]), (&[2, 1], &[1, 2]), (&[], &[2]), (&[2, 2], &[2, 2]), (&[1, 2, 2], &[1, 2, 2])];
fn chain<T: El + TensorDataType>(steps: usize, nops: usize, pairs: &[(&[usize], &[usize])]) {
    let (s, u) = pick(pairs);
    let which = choice(0, 2); // both, the first, the second leaf require gradients
    let mut g: Graph<T> = Graph::new(true);
    g.leaf(s, syms(prod(s), -3, 3), which != 2);
    g.leaf(u, pow2s(prod(u)), which != 1);
    g.n[1].pow2 = true;
    let mut i = 0;
    while i < steps {
        let op = op_of(choice(0, nops));
        let unary = matches!(op, Op::Scal(..) | Op::Neg(_) | Op::Re(..));
        let x = choice(0, g.n.len() - 1);
        let y = if unary { x } else { choice(0, g.n.len() - 1) };
        // each step but the first uses the result before it
        assume(i == 0 || x == g.n.len() - 1 || y == g.n.len() - 1);
        assume(g.live(x) && g.live(y));
        if i == 0 { shard(); }
        assume(g.apply(op, x, y, T::of(-2)).is_some());
        i += 1;
    }
    let mut acc = start(&g);
    let last = g.n.len() - 1;
    pass(&g, last, false, &mut acc);
    verify(&g, &acc);
}
/// listed programs of three to six operations: shared intermediate results, deep chains, mixed products and reshapes
fn programs<T: El + TensorDataType>() {
    let b = |k: usize| Op::Bin(k, 0);
    let (neg, t, mm) = (Op::Neg(false), Op::Re(TT, 0, 0, false), Op::Matmul);
    let flat = Op::Re(RESHAPE, 0, 0, false);
    let (add, sub, mul) = (b(0), b(1), b(2));
    type P = (&'static [usize], &'static [usize], Vec<(Op, usize, usize)>);
    let p = choice(0, 15);
    let (s, u, prog): P = match p {
        0 => (&[2], &[2], vec![(mul, 0, 1), (add, 2, 2), (mul, 3, 0)]),
        1 => (&[2], &[2], vec![(mul, 0, 0), (mul, 2, 2), (add, 3, 2), (sub, 4, 1)]),
        2 => (&[2], &[], vec![(add, 0, 1), (mul, 2, 0), (sub, 3, 2), (neg, 4, 4), (mul, 5, 1)]),
        3 => (&[2, 2], &[2], vec![(mul, 0, 1), (t, 2, 2), (add, 3, 0), (mul, 4, 1)]),
        4 => (&[2, 2], &[2, 2], vec![(mm, 0, 1), (mm, 2, 0), (add, 3, 1)]),
        5 => (&[2, 2], &[2], vec![(mm, 0, 1), (mm, 0, 2), (mul, 3, 2)]),
        6 => (&[2, 1], &[1, 2], vec![(mul, 0, 1), (t, 2, 2), (mm, 2, 3), (flat, 4, 4)]),
        7 => (&[2], &[2], vec![(Op::Re(UNSQUEEZE, 1, 0, false), 0, 0), (mul, 2, 1), (Op::Re(UNSQUEEZE, 0, 0, false), 1, 1), (add, 3, 4), (sub, 5, 0)]),
        8 => (&[2], &[2], vec![(add, 0, 1), (sub, 0, 1), (mul, 2, 3), (b(3), 4, 1), (add, 5, 2)]),
        9 => (&[1, 2, 2], &[1, 2, 2], vec![(Op::Bmm, 0, 1), (Op::Re(TRANSPOSE, 1, 2, false), 2, 2), (Op::Bmm, 3, 0)]),
        10 => (&[2, 2], &[2, 2], vec![(t, 0, 0), (mm, 2, 1), (Op::Scal(2, false), 3, 3), (neg, 4, 4), (Op::Scal(3, false), 5, 5), (add, 6, 0)]),
        11 => (&[2], &[2], vec![(Op::Dot, 0, 1), (mul, 2, 0), (Op::Dot, 3, 1), (add, 4, 2)]),
        12 => (&[2], &[1], vec![(mul, 0, 1), (mul, 2, 1), (add, 3, 2), (add, 4, 0), (neg, 5, 5), (sub, 6, 1)]),
        13 => (&[], &[], vec![(mul, 0, 1), (mul, 2, 0), (mul, 3, 1), (add, 4, 2), (sub, 5, 3)]),
        14 => (&[4], &[2, 2], vec![(Op::Re(RESHAPE, 2, 0, false), 0, 0), (mul, 2, 1), (t, 3, 3), (flat, 1, 1), (sub, 5, 0), (Op::Re(RESHAPE, 2, 0, false), 6, 6)]),
        _ => (&[2, 1, 2], &[2, 1], vec![(add, 0, 1), (Op::Re(SQUEEZE, 0, 0, false), 0, 0), (mul, 3, 1), (mul, 2, 4)]),
    };
    let which = choice(0, 2);
    // the pass starts from the last result, or twice: from it and from the one before
    let twice = flip();
    let late = flip(); // operands that nothing borrows from are dropped before the pass
    shard();
    let mut g: Graph<T> = Graph::new(true);
    g.leaf(s, syms(prod(s), -2, 2), which != 2);
    g.leaf(u, pow2s(prod(u)), which != 1);
    g.n[1].pow2 = true;
    let mut i = 0;
    while i < prog.len() { let (op, x, y) = prog[i]; assume(g.apply(op, x, y, T::of(-2)).is_some()); i += 1; }
    let last = g.n.len() - 1;
    let mut acc = start(&g);
    if twice { pass(&g, last - 1, true, &mut acc); }
    if late { let mut k = last; while k > 2 { k -= 1; if !g.borrowed(k) { g.drop(k); } } }
    pass(&g, last, false, &mut acc);
    verify(&g, &acc);
}
/// large operands with a few symbolic elements
fn large<T: Num + TensorDataType>() {
    let (k, s, u): (usize, &[usize], &[usize]) = pick(&[(0, &[300, 3][..], &[3][..]), (2, &[300, 3], &[3]), (2, &[3, 300], &[3, 1]), (1, &[1025], &[1]), (2, &[1025], &[1025]), (2, &[20, 31], &[]), (1, &[1, 40], &[20, 1]),
        (4, &[257], &[257]), (5, &[40, 33], &[33]), (6, &[16, 10], &[10, 17]), (6, &[2, 257], &[257, 1]), (7, &[9, 4, 5], &[9, 5, 3]), (3, &[20, 31], &[20, 31])]);
    let (p, q) = (flip(), flip());
    assume(p | q);
    shard();
    let (x, y): (Vec<T>, Vec<T>) = (mixed(prod(s), -3, 3), if k == 3 { pow2s(prod(u)) } else { mixed(prod(u), -3, 3) });
    let mut a: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.to_vec(), x.clone()) };
    let mut b: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(u.to_vec(), y.clone()) };
    if p { a.set_requires_grad(true); }
    if q { b.set_requires_grad(true); }
    let c = match k { 0 => &a + &b, 1 => &a - &b, 2 => &a * &b, 3 => &a / &b, 4 => a.dot(&b), 5 | 6 => a.matmul(&b), _ => a.bmm(&b) };
    let out = c.shape().to_vec();
    let w: Vec<T> = mixed(prod(&out), -3, 3);
    c.backward_with(owned(&out, &w));
    let (mut da, mut db) = (vec![T::of(0); x.len()], vec![T::of(0); y.len()]);
    let mut o = 0;
    while o < w.len() {
        if k <= 3 {
            let (i, j) = (bsrc(o, &out, s), bsrc(o, &out, u));
            match k {
                0 => { da[i] = da[i] + w[o]; db[j] = db[j] + w[o] }
                1 => { da[i] = da[i] + w[o]; db[j] = db[j] - w[o] }
                2 => { da[i] = da[i] + w[o] * y[j]; db[j] = db[j] + w[o] * x[i] }
                _ => { da[i] = da[i] + w[o] / y[j]; db[j] = db[j] - w[o] * x[i] / (y[j] * y[j]) }
            }
        } else {
            let n = u[if k == 7 { 1 } else { 0 }];
            let (bt, row, col) = match k { 4 => (0, 0, 0), 5 => (0, o, 0), 6 => (0, o / u[1], o % u[1]), _ => (o / (s[1] * u[2]), o / u[2] % s[1], o % u[2]) };
            let cols = match k { 4 | 5 => 1, 6 => u[1], _ => u[2] };
            let mut t = 0;
            while t < n {
                let i = (bt * if k == 7 { s[1] } else { 0 } + row) * n + t;
                let j = (bt * n + t) * cols + col;
                da[i] = da[i] + w[o] * y[j];
                db[j] = db[j] + w[o] * x[i];
                t += 1;
            }
        }
        o += 1;
    }
    if p { check_view(&a.gradient().unwrap(), s, &|k| da[k]); } else { check(a.gradient().is_none(), COUNT); }
    if q { check_view(&b.gradient().unwrap(), u, &|k| db[k]); } else { check(b.gradient().is_none(), COUNT); }
}
/// several passes, from several results that share leaves, with clearing and dropping in between
fn history<T: El + TensorDataType>() {
    let (s, u) = pick(if thorough() { &PAIRS[..4] } else { &PAIRS[..2] });
    let (o1, o2) = (choice(0, 6), choice(0, 6));
    let len = if thorough() { 3 } else { 2 };
    assume(thorough() || o1 > 1 || o2 > 1);
    let mut plan = [0; 3];
    let mut i = 0;
    while i < len { plan[i] = choice(0, 5); i += 1; }
    let dropped = flip();
    shard();
    let mut g: Graph<T> = Graph::new(true);
    g.leaf(s, syms(prod(s), -3, 3), true);
    g.leaf(u, pow2s(prod(u)), true);
    g.n[1].pow2 = true;
    let op = |k: usize| [Op::Bin(0, 0), Op::Bin(2, 0), Op::Bin(3, 0), Op::Scal(2, false), Op::Neg(false), Op::Re(VIEW, 0, 0, false), Op::Matmul][k];
    assume(g.apply(op(o1), 0, 1, T::of(2)).is_some());
    assume(g.apply(op(o2), 2, 1, T::of(-2)).is_some());
    if dropped && !g.borrowed(2) { g.drop(2); }
    let mut acc = start(&g);
    let mut i = 0;
    while i < len {
        match plan[i] {
            0 => pass(&g, 3, false, &mut acc),
            1 => pass(&g, 3, true, &mut acc),
            2 => { assume(g.live(2)); pass(&g, 2, false, &mut acc) }
            3 => { g.t(0).zero_gradient(); acc[0] = g.zeros(0); }
            4 => { g.t(1).zero_gradient(); acc[1] = g.zeros(1); }
            // a pass that starts at a leaf
            _ => pass(&g, 0, false, &mut acc),
        }
        i += 1;
    }
    verify(&g, &acc);
}
/// the upstream gradient is in an arbitrary layout; a wrong shape is rejected
fn upstream<T: El + TensorDataType>() {
    let s = pick_shape(0, 2, 3);
    let gs = if flip() { pick_shape(0, 2, 3) } else { s.clone() };
    let k = pick_layout_of(&gs, ALL);
    let op = choice(0, 5);
    shard();
    let mut g: Graph<T> = Graph::new(true);
    g.leaf(&s, syms(prod(&s), -3, 3), true);
    let r = match op { 0 => Some(0), 1 => g.apply(Op::Neg(false), 0, 0, T::of(1)), 2 => g.apply(Op::Bin(2, 0), 0, 0, T::of(1)), 3 => g.apply(Op::Re(VIEW, 0, 0, false), 0, 0, T::of(1)), 4 => g.apply(Op::Re(RESHAPE, 0, 0, false), 0, 0, T::of(1)), _ => g.apply(Op::Re(TT, 0, 0, false), 0, 0, T::of(1)) };
    assume(r.is_some());
    let r = r.unwrap();
    let up: A<T> = make_sym(&gs, k, -3, 3);
    panic_if(!same(&gs, &g.n[r].shape));
    g.t(r).backward_with(up.a());
    panic_end();
    let v: Vec<T> = (0..up.size()).map(|k| up.e(k)).collect();
    g.check_grad(0, &g.vjp(r, &v, 0, prod(&s)));
    check_written(&up, &|k| up.e(k));
}
harness! {
    h_c11_programs => programs::<f64>();
    h_c11_large => if thorough() && flip() { large::<f64>() } else { large::<f32>() };
    h_c11_elementwise => elementwise::<f32>(2, 3);
    h_c11_deep => { let k = choice(1, 3); let s = pick_dims(3, &[1, 2]); let u = pick_shape(2, 3, 2); assume(bshape(&s, &u).is_some()); if flip() { single::<f64>(s, u, Op::Bin(k, 0)) } else { single::<f64>(u, s, Op::Bin(k, 0)) } };
    h_c11_forms => if flip() { forms::<f32>() } else { forms::<f64>() };
    h_c11_products => products::<f32>(if thorough() { 3 } else { 2 });
    h_c11_products3 => { let (m, k, n) = pick(&[(3, 3, 3), (1, 4, 3), (4, 1, 2), (3, 2, 4), (2, 5, 1)]); single::<f64>(vec![m, k], vec![k, n], Op::Matmul) };
    h_c11_chain2 => chain::<f32>(2, 15, if thorough() { PAIRS } else { &PAIRS[..4] });
    h_c11_history => history::<f64>();
    h_c11_upstream => if flip() { upstream::<f32>() } else { upstream::<f64>() };
    ht_c11_chain3 => chain::<f64>(3, 9, &[(&[2], &[2]), (&[2, 2], &[2]), (&[], &[2])]);
    ht_c11_elementwise3 => elementwise::<f64>(3, 2);
}
