//! C12: tracking flags.
//! Bounds: two leaves in five combinations of shapes, every assignment of the tracking flag, every operation in every by-reference and
//! by-value form, and chains of two operations over all live tensors (thorough: three), with tracking switched on or off for any tensor
//! before either; then a backward pass from the result and a clearing, or a switching on or off, of every tensor. Symbolic element values in -3..=3.
use crate::common::*;
use crate::graph::*;
use crate::rt::*;
use redstone_ml::*;

fn any_op(few: bool) -> Op {
    match choice(0, if few { 9 } else { 13 }) {
        0 => Op::Bin(0, 0), 1 => Op::Bin(2, 0), 2 => Op::Scal(0, false), 3 => Op::Scal(2, false), 4 => Op::Neg(false), 5 => Op::Matmul,
        6 => Op::Re(VIEW, 0, 0, false), 7 => Op::Re(RESHAPE, 0, 0, false), 8 => Op::Re(TT, 0, 0, true), 9 => Op::Re(VIEW, 0, 0, true),
        10 => Op::Bin(choice(0, 3), choice(0, 3)), 11 => Op::Scal(choice(0, 3), flip()), 12 => Op::Re(choice(0, 4), 0, 1, flip()),
        _ => match choice(0, 2) { 0 => Op::Dot, 1 => Op::Bmm, _ => Op::Neg(true) },
    }
}
fn all<T: El + TensorDataType>(g: &Graph<T>) {
    let mut i = 0;
    while i < g.n.len() {
        if g.live(i) {
            g.check_flags(i);
            let grad = g.t(i).gradient();
            check(grad.is_some() == g.n[i].leaf.is_some(), COUNT);
            if g.n[i].leaf.is_some() { g.check_grad(i, &g.zeros(i)); }
        }
        i += 1;
    }
}
fn program<T: El + TensorDataType>(steps: usize, few: bool, toggle: bool) {
    let (s, u): (&[usize], &[usize]) = pick(&[(&[2][..], &[2][..]), (&[2, 2], &[2, 2]), (&[2, 2], &[2]), (&[1, 2, 2], &[1, 2, 2]), (&[], &[2])]);
    let (a, b) = (flip(), flip());
    let mut g: Graph<T> = Graph::new(true);
    g.leaf(s, syms(prod(s), -3, 3), a);
    g.leaf(u, (0..prod(u)).map(|i| T::of([2, -4][i % 2])).collect(), b);
    g.n[1].pow2 = true;
    let mut i = 0;
    while i < steps {
        if toggle && flip() {
            let k = choice(0, g.n.len() - 1);
            let on = flip();
            assume(g.live(k));
            g.track(k, on);
            all(&g);
        }
        let op = any_op(few);
        let x = choice(0, g.n.len() - 1);
        let unary = matches!(op, Op::Scal(..) | Op::Neg(_) | Op::Re(..));
        let y = if unary { x } else { choice(0, g.n.len() - 1) };
        assume(g.live(x) && g.live(y));
        if i == 0 { shard(); }
        let r = g.apply(op, x, y, T::of(2));
        assume(r.is_some());
        all(&g);
        i += 1;
    }
    // a pass changes gradients of leaves and no flag
    let last = g.n.len() - 1;
    let up: Vec<T> = syms(g.n[last].v.len(), -3, 3);
    g.t(last).backward_with(owned(&g.n[last].shape, &up));
    let mut i = 0;
    while i < g.n.len() {
        if g.live(i) {
            g.check_flags(i);
            check(g.t(i).gradient().is_some() == g.n[i].leaf.is_some(), COUNT);
            if let Some(l) = g.n[i].leaf { g.check_grad(i, &g.vjp(last, &up, l, g.n[i].v.len())); }
        }
        i += 1;
    }
    // clearing one tensor leaves the gradients of all others alone, and so does switching its tracking
    let z = choice(0, last);
    assume(g.live(z));
    let what = if toggle { choice(0, 2) } else { 0 };
    let mut want = vec![];
    let mut i = 0;
    while i < g.n.len() { want.push(match g.n[i].leaf { Some(l) => Some(g.vjp(last, &up, l, g.n[i].v.len())), None => None }); i += 1; }
    match what {
        0 => { g.t(z).zero_gradient(); if g.n[z].leaf.is_some() { want[z] = Some(g.zeros(z)); } }
        1 => { assume(!g.borrowed(z)); let was = g.n[z].req; g.track(z, true); if !was { want[z] = Some(g.zeros(z)); } }
        _ => { assume(!g.borrowed(z)); g.track(z, false); want[z] = None; }
    }
    let mut i = 0;
    while i < g.n.len() {
        if g.live(i) {
            g.check_flags(i);
            match &want[i] { Some(w) => g.check_grad(i, w), None => check(g.t(i).gradient().is_none(), COUNT) }
        }
        i += 1;
    }
}
fn detached<T: El + TensorDataType>() {
    let s = pick_shape(0, 2, 2);
    let (on, op) = (flip(), choice(0, 2));
    shard();
    let v: Vec<T> = syms(prod(&s), -9, 9);
    let mut t: Tensor<T> = unsafe { Tensor::from_contiguous_owned_buffer(s.clone(), v.clone()) };
    check(!t.requires_grad() && t.is_leaf() && t.gradient().is_none(), OTHER);
    t.set_requires_grad(on);
    let r = match op { 0 => -&t, 1 => &t + &t, _ => (&t).view() };
    check(r.requires_grad() == on && r.is_leaf() == !on, OTHER);
    let d = r.detach();
    check(!d.is_view(), OTHER);
    check_array(&d, &s, &|k| match op { 0 => -v[k], 1 => v[k] + v[k], _ => v[k] });
    check(t.is_leaf() && t.requires_grad() == on && t.gradient().is_some() == on, OTHER);
}
harness! {
    h_c12_one => program::<f32>(1, false, true);
    h_c12_two => program::<f64>(2, true, false);
    h_c12_toggle => program::<f32>(1, true, true);
    h_c12_detach => if flip() { detached::<f32>() } else { detached::<f64>() };
    ht_c12_two_all => program::<f64>(2, false, false);
    ht_c12_two_toggle => program::<f64>(2, true, true);
}
