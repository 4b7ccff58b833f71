//! Hash-consed symbolic terms with a normalising constructor.
//!
//! Integer arithmetic (add, sub, mul, neg, shl by a constant) is kept in a canonical
//! polynomial form modulo 2^w, so that ring identities become syntactic equalities.
//! Floats are either constants, "dyadic" terms `t * 2^e` (t a 64-bit integer term whose
//! interval guarantees that the value and every operation folded into it is exact in the
//! format), or generic IEEE-754 terms that are handed to the solver's FP theory.

use crate::ir::sext128;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    BV(u32),
    F32,
    F64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B2 {
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F2 {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Min,
    Max,
    CopySign,
    Pow,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F1 {
    Neg,
    Abs,
    Sqrt,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Exp,
    Log,
    Sin,
    Cos,
    Log2,
    Exp2,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FC {
    Eq,
    Lt,
    Le,
}

pub type Mono = (Vec<T>, u128);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Poly(Vec<Mono>),
    B2(B2, T, T),
    Not(T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Concat(T, T),
    Extract(T, u32, u32),
    ZExt(T),
    SExt(T),
    // floats
    FConst(u64),
    FDy(T, i16),
    FFromBits(T),
    FBits(T),
    FF2(F2, T, T),
    FF1(F1, T),
    Fma(T, T, T),
    FCmp(FC, T, T),
    FIsNan(T),
    FToI(T, bool), // saturating, signed?
    IToF(T, bool),
    FConv(T),
}

pub struct Node {
    pub op: Op,
    pub sort: Sort,
    pub smin: i128,
    pub smax: i128,
    pub umin: u128,
    pub umax: u128,
    /// for Poly: the interval above was computed without wrap-around (signed)
    pub nowrap: bool,
}

pub struct Var {
    pub name: String,
    pub w: u32,
    /// inclusive range, unsigned or signed interpretation
    pub lo: i128,
    pub hi: i128,
    pub signed: bool,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, Sort), T>,
    pub vars: Vec<Var>,
    pub raw: bool,
    varsets: HashMap<T, Rc<Vec<u32>>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn full_s(w: u32) -> (i128, i128) {
    if w >= 128 {
        (i128::MIN, i128::MAX)
    } else {
        (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
    }
}

const EXP_LIMIT: usize = 400;

impl Terms {
    pub fn new() -> Terms {
        Terms { nodes: vec![], map: HashMap::new(), vars: vec![], raw: false, varsets: HashMap::new() }
    }
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn sort(&self, t: T) -> Sort {
        self.nodes[t as usize].sort
    }
    pub fn w(&self, t: T) -> u32 {
        match self.nodes[t as usize].sort {
            Sort::BV(w) => w,
            Sort::F32 => 32,
            Sort::F64 => 64,
        }
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].op {
            Op::Const(c) => Some(c),
            _ => None,
        }
    }
    fn intern(&mut self, op: Op, sort: Sort) -> T {
        if let Some(&t) = self.map.get(&(op.clone(), sort)) {
            return t;
        }
        let (smin, smax, umin, umax, nowrap) = self.range_of(&op, sort);
        let id = self.nodes.len() as T;
        self.nodes.push(Node { op: op.clone(), sort, smin, smax, umin, umax, nowrap });
        self.map.insert((op, sort), id);
        id
    }
    fn range_of(&self, op: &Op, sort: Sort) -> (i128, i128, u128, u128, bool) {
        let w = match sort {
            Sort::BV(w) => w,
            _ => return (0, 0, 0, 0, false),
        };
        let (fs, fe) = full_s(w);
        let m = mask(w);
        let from_s = |lo: i128, hi: i128| -> (i128, i128, u128, u128, bool) {
            // signed range within [fs,fe]
            if lo >= 0 {
                (lo, hi, lo as u128, hi as u128, true)
            } else if hi < 0 {
                (lo, hi, (lo as u128) & m, (hi as u128) & m, true)
            } else {
                (lo, hi, 0, m, true)
            }
        };
        let from_u = |lo: u128, hi: u128| -> (i128, i128, u128, u128, bool) {
            if hi <= fe as u128 {
                (lo as i128, hi as i128, lo, hi, true)
            } else if lo > fe as u128 {
                (sext128(lo, w), sext128(hi, w), lo, hi, true)
            } else {
                (fs, fe, lo, hi, true)
            }
        };
        let full = (fs, fe, 0, m, false);
        match op {
            Op::Const(c) => {
                let s = sext128(*c, w);
                (s, s, *c, *c, true)
            }
            Op::Var(v) => {
                let v = &self.vars[*v as usize];
                if v.signed {
                    from_s(v.lo, v.hi)
                } else {
                    from_u(v.lo as u128, v.hi as u128)
                }
            }
            Op::Poly(ms) => {
                // signed interpretation
                let mut lo: i128 = 0;
                let mut hi: i128 = 0;
                let mut ok = true;
                for (vs, c) in ms {
                    let c = sext128(*c, w);
                    let mut l: i128 = c;
                    let mut h: i128 = c;
                    let mut i = 0;
                    while i < vs.len() {
                        let v = vs[i];
                        let mut k = 1;
                        while i + k < vs.len() && vs[i + k] == v {
                            k += 1;
                        }
                        let nn = self.n(v);
                        let (mut a, mut b) = (nn.smin, nn.smax);
                        if k > 1 {
                            let (a0, b0) = (a, b);
                            for _ in 1..k {
                                let c4 = [a.checked_mul(a0), a.checked_mul(b0), b.checked_mul(a0), b.checked_mul(b0)];
                                if c4.iter().any(|x| x.is_none()) {
                                    ok = false;
                                    break;
                                }
                                a = c4.iter().map(|x| x.unwrap()).min().unwrap();
                                b = c4.iter().map(|x| x.unwrap()).max().unwrap();
                            }
                            if k % 2 == 0 && a < 0 {
                                a = 0;
                            }
                        }
                        let c4 = [l.checked_mul(a), l.checked_mul(b), h.checked_mul(a), h.checked_mul(b)];
                        if !ok || c4.iter().any(|x| x.is_none()) {
                            ok = false;
                            break;
                        }
                        l = c4.iter().map(|x| x.unwrap()).min().unwrap();
                        h = c4.iter().map(|x| x.unwrap()).max().unwrap();
                        i += k;
                    }
                    if !ok {
                        break;
                    }
                    match (lo.checked_add(l), hi.checked_add(h)) {
                        (Some(a), Some(b)) => {
                            lo = a;
                            hi = b;
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok && lo >= fs && hi <= fe {
                    return from_s(lo, hi);
                }
                // unsigned interpretation
                let mut lo: u128 = 0;
                let mut hi: u128 = 0;
                for (vs, c) in ms {
                    let mut l = *c;
                    let mut h = *c;
                    for v in vs {
                        let nn = self.n(*v);
                        match (l.checked_mul(nn.umin), h.checked_mul(nn.umax)) {
                            (Some(a), Some(b)) => {
                                l = a;
                                h = b;
                            }
                            _ => return full,
                        }
                    }
                    match (lo.checked_add(l), hi.checked_add(h)) {
                        (Some(a), Some(b)) => {
                            lo = a;
                            hi = b;
                        }
                        _ => return full,
                    }
                }
                if hi <= m {
                    let mut r = from_u(lo, hi);
                    r.4 = hi <= fe as u128;
                    return r;
                }
                full
            }
            Op::B2(b, x, y) => {
                let (a, c) = (self.n(*x), self.n(*y));
                match b {
                    B2::And => from_u(0, a.umax.min(c.umax)),
                    B2::Or | B2::Xor => {
                        let hi = a.umax | c.umax;
                        let bits = 128 - hi.leading_zeros();
                        from_u(0, if bits == 0 { 0 } else { mask(bits) & m })
                    }
                    B2::UDiv => {
                        if c.umin > 0 {
                            from_u(a.umin / c.umax, a.umax / c.umin)
                        } else {
                            full
                        }
                    }
                    B2::URem => {
                        if c.umin > 0 {
                            from_u(0, a.umax.min(c.umax - 1))
                        } else {
                            full
                        }
                    }
                    B2::LShr => match self.as_const(*y) {
                        Some(k) if k < w as u128 => from_u(a.umin >> k, a.umax >> k),
                        _ => from_u(0, a.umax),
                    },
                    B2::AShr => match self.as_const(*y) {
                        Some(k) if k < w as u128 => from_s(a.smin >> k, a.smax >> k),
                        _ => full,
                    },
                    B2::SDiv => {
                        if c.smin > 0 && w <= 64 {
                            from_s(a.smin.min(0).max(a.smin), a.smax.max(0).min(a.smax))
                                .clone_with(|_| {
                                    let q = [a.smin / c.smin, a.smin / c.smax, a.smax / c.smin, a.smax / c.smax];
                                    (*q.iter().min().unwrap(), *q.iter().max().unwrap())
                                }, &from_s)
                        } else {
                            full
                        }
                    }
                    B2::SRem => {
                        if c.smin > 0 && w <= 64 {
                            let k = c.smax - 1;
                            let lo = if a.smin >= 0 { 0 } else { -k };
                            let hi = if a.smax <= 0 { 0 } else { k.min(a.smax) };
                            from_s(lo, hi)
                        } else {
                            full
                        }
                    }
                    B2::Shl => full,
                }
            }
            Op::Ite(_, x, y) => {
                let (a, c) = (self.n(*x), self.n(*y));
                (
                    a.smin.min(c.smin),
                    a.smax.max(c.smax),
                    a.umin.min(c.umin),
                    a.umax.max(c.umax),
                    true,
                )
            }
            Op::ZExt(x) => {
                let a = self.n(*x);
                (a.umin as i128, a.umax as i128, a.umin, a.umax, true)
            }
            Op::SExt(x) => {
                let a = self.n(*x);
                from_s(a.smin, a.smax)
            }
            Op::Extract(x, hi, lo) => {
                let a = self.n(*x);
                let k = hi - lo + 1;
                if *lo == 0 && k <= 127 && a.umax <= mask(k) {
                    from_u(a.umin, a.umax)
                } else if *lo == 0 && k <= 127 && a.smin >= full_s(k).0 && a.smax <= full_s(k).1 {
                    from_s(a.smin, a.smax)
                } else if *lo > 0 && a.umax >> lo <= m {
                    from_u(a.umin >> lo, a.umax >> lo)
                } else {
                    full
                }
            }
            Op::Concat(x, y) => {
                let (a, c) = (self.n(*x), self.n(*y));
                let wy = self.w(*y);
                if w <= 127 {
                    from_u((a.umin << wy) + c.umin, (a.umax << wy) + c.umax)
                } else {
                    full
                }
            }
            _ => full,
        }
    }

    // ---------------------------------------------------------------- constructors
    pub fn konst(&mut self, c: u128, w: u32) -> T {
        self.intern(Op::Const(c & mask(w)), Sort::BV(w))
    }
    pub fn boolc(&mut self, b: bool) -> T {
        self.konst(b as u128, 1)
    }
    pub fn var(&mut self, name: String, w: u32, lo: i128, hi: i128, signed: bool) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(Var { name, w, lo, hi, signed });
        if lo == hi {
            return self.konst(lo as u128, w);
        }
        self.intern(Op::Var(id), Sort::BV(w))
    }
    fn poly_of(&self, t: T) -> Vec<Mono> {
        match &self.n(t).op {
            Op::Const(0) => vec![],
            Op::Const(c) => vec![(vec![], *c)],
            Op::Poly(p) if !self.raw => p.clone(),
            _ => vec![(vec![t], 1)],
        }
    }
    fn mk_poly(&mut self, mut p: Vec<Mono>, w: u32) -> T {
        let m = mask(w);
        p.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<Mono> = Vec::with_capacity(p.len());
        for (v, c) in p {
            if let Some(l) = out.last_mut() {
                if l.0 == v {
                    l.1 = l.1.wrapping_add(c) & m;
                    continue;
                }
            }
            out.push((v, c & m));
        }
        out.retain(|x| x.1 != 0);
        if out.is_empty() {
            return self.konst(0, w);
        }
        if out.len() == 1 {
            if out[0].0.is_empty() {
                return self.konst(out[0].1, w);
            }
            if out[0].0.len() == 1 && out[0].1 == 1 {
                return out[0].0[0];
            }
        }
        self.intern(Op::Poly(out), Sort::BV(w))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.b2(B2::Xor, a, b);
        }
        let mut p = self.poly_of(a);
        p.extend(self.poly_of(b));
        self.mk_poly(p, w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return a;
        }
        let p = self.poly_of(a).into_iter().map(|(v, c)| (v, c.wrapping_neg())).collect();
        self.mk_poly(p, w)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.b2(B2::And, a, b);
        }
        let pa = self.poly_of(a);
        let pb = self.poly_of(b);
        let (pa, pb) = if pa.len() * pb.len() > EXP_LIMIT {
            (vec![(vec![a], 1)], vec![(vec![b], 1)])
        } else {
            (pa, pb)
        };
        let mut p = vec![];
        for (va, ca) in &pa {
            for (vb, cb) in &pb {
                let mut v = va.clone();
                v.extend_from_slice(vb);
                v.sort();
                p.push((v, ca.wrapping_mul(*cb)));
            }
        }
        self.mk_poly(p, w)
    }
    /// Exact division of a non-wrapping polynomial by a positive constant.
    fn exact_div(&mut self, a: T, c: i128) -> Option<T> {
        let w = self.w(a);
        if let Some(x) = self.as_const(a) {
            let s = sext128(x, w);
            if s % c == 0 {
                return Some(self.konst((s / c) as u128, w));
            }
            return None;
        }
        if !self.n(a).nowrap {
            return None;
        }
        if let Op::Poly(p) = &self.n(a).op {
            let mut q = vec![];
            for (v, k) in p {
                let k = sext128(*k, w);
                if k % c != 0 {
                    return None;
                }
                q.push((v.clone(), (k / c) as u128));
            }
            return Some(self.mk_poly(q, w));
        }
        None
    }
    pub fn b2(&mut self, op: B2, a: T, b: T) -> T {
        let w = self.w(a);
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = eval_b2(op, x, y, w);
            return self.konst(r, w);
        }
        let m = mask(w);
        match op {
            B2::And => {
                if a == b {
                    return a;
                }
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if ca == Some(m) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if w > 1 {
                    let (x, k) = if let Some(k) = cb { (a, Some(k)) } else { (b, ca) };
                    if let Some(k) = k {
                        if (k + 1).is_power_of_two() {
                            let bits = (k + 1).trailing_zeros();
                            if self.n(x).umax <= k {
                                return x;
                            }
                            if let Op::Poly(p) = &self.n(x).op {
                                let q: Vec<Mono> =
                                    p.iter().map(|(v, c)| (v.clone(), c & k)).filter(|(_, c)| *c != 0).collect();
                                if q.is_empty() {
                                    return self.konst(0, w);
                                }
                                if q.len() == 1 && q[0].0.is_empty() {
                                    let c = q[0].1;
                                    return self.konst(c, w);
                                }
                            }
                            let e = self.extract(x, bits - 1, 0);
                            return self.zext(e, w);
                        }
                    }
                } else {
                    if self.is_not_of(a, b) {
                        return self.konst(0, 1);
                    }
                }
            }
            B2::Or => {
                if a == b {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(m) || cb == Some(m) {
                    return self.konst(m, w);
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
            }
            B2::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    if ca == Some(1) {
                        return self.not(b);
                    }
                    if cb == Some(1) {
                        return self.not(a);
                    }
                } else if cb == Some(m) || ca == Some(m) {
                    // ~x = -x - 1
                    let x = if cb == Some(m) { a } else { b };
                    let n = self.neg(x);
                    let o = self.konst(m, w);
                    return self.add(n, o);
                }
            }
            B2::Shl => {
                if let Some(k) = cb {
                    if k < w as u128 {
                        let c = self.konst(1u128 << k, w);
                        return self.mul(a, c);
                    }
                }
            }
            B2::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k < w as u128 {
                        if self.n(a).umax >> k == 0 {
                            return self.konst(0, w);
                        }
                        if self.n(a).smin >= 0 {
                            if let Some(q) = self.exact_div(a, 1i128 << k.min(120)) {
                                return q;
                            }
                        }
                        let e = self.extract(a, w - 1, k as u32);
                        return self.zext(e, w);
                    }
                }
            }
            B2::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k < w as u128 {
                        if let Some(q) = self.exact_div(a, 1i128 << k.min(120)) {
                            return q;
                        }
                    }
                }
            }
            B2::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if self.n(b).umin > self.n(a).umax {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if self.n(a).smin >= 0 && k > 0 && k < (1u128 << 100) {
                        if let Some(q) = self.exact_div(a, k as i128) {
                            return q;
                        }
                    }
                }
            }
            B2::URem => {
                if cb == Some(1) {
                    return self.konst(0, w);
                }
                if self.n(b).umin > self.n(a).umax {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let c = self.konst(k - 1, w);
                        return self.b2(B2::And, a, c);
                    }
                    if self.n(a).smin >= 0 && k > 0 && k < (1u128 << 100) && self.exact_div(a, k as i128).is_some() {
                        return self.konst(0, w);
                    }
                }
            }
            B2::SDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = sext128(k, w);
                    if k > 0 {
                        if let Some(q) = self.exact_div(a, k) {
                            return q;
                        }
                    }
                }
                if self.n(a).smin >= 0 && self.n(b).smin > 0 {
                    return self.b2(B2::UDiv, a, b);
                }
            }
            B2::SRem => {
                if cb == Some(1) {
                    return self.konst(0, w);
                }
                if self.n(a).smin >= 0 && self.n(b).smin > 0 {
                    return self.b2(B2::URem, a, b);
                }
            }
        }
        let (a, b) = match op {
            B2::And | B2::Or | B2::Xor if a > b => (b, a),
            _ => (a, b),
        };
        self.intern(Op::B2(op, a, b), Sort::BV(w))
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        matches!(self.n(a).op, Op::Not(x) if x == b) || matches!(self.n(b).op, Op::Not(x) if x == a)
    }
    pub fn not(&mut self, a: T) -> T {
        match self.n(a).op {
            Op::Const(c) => self.konst(c ^ 1, 1),
            Op::Not(x) => x,
            _ => self.intern(Op::Not(a), Sort::BV(1)),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.b2(B2::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.b2(B2::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            if self.raw && !matches!(self.n(a).op, Op::Const(_) | Op::FConst(_)) && self.w(a) > 1 {
                return self.intern(Op::Eq(a, b), Sort::BV(1));
            }
            return self.boolc(true);
        }
        debug_assert_eq!(self.sort(a), self.sort(b));
        let w = self.w(a);
        if w == 1 {
            if let Some(c) = self.as_const(a) {
                return if c == 1 { b } else { self.not(b) };
            }
            if let Some(c) = self.as_const(b) {
                return if c == 1 { a } else { self.not(a) };
            }
            let x = self.b2(B2::Xor, a, b);
            return self.not(x);
        }
        {
            let (x, y) = (self.n(a), self.n(b));
            if x.umax < y.umin || y.umax < x.umin || x.smax < y.smin || y.smax < x.smin {
                return self.boolc(false);
            }
            if x.umin == x.umax && y.umin == y.umax {
                return self.boolc(x.umin == y.umin);
            }
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        // bit patterns of dyadic floats: compare the values (a dyadic zero is +0)
        if let Op::FBits(x) = self.n(a).op {
            if let (Op::FF2(F2::Div, n, d), Some(0)) = (self.n(x).op.clone(), self.as_const(b)) {
                if let (true, Some(v)) = (matches!(self.n(n).op, Op::FDy(..)), self.fconst_val(d)) {
                    if v > 0.0 && v < 1e17 {
                        let z = self.fconst(0, self.sort(n));
                        return self.fcmp(FC::Eq, n, z);
                    }
                }
            }
            if matches!(self.n(x).op, Op::FDy(..)) {
                let s = self.sort(x);
                if let Some(c) = self.as_const(b) {
                    let f = self.fconst(c as u64, s);
                    let v = self.fconst_val(f).unwrap();
                    if !v.is_finite() || (v == 0.0 && v.is_sign_negative()) {
                        return self.boolc(false);
                    }
                    return self.fcmp(FC::Eq, x, f);
                }
                if let Op::FBits(y) = self.n(b).op {
                    if matches!(self.n(y).op, Op::FDy(..)) && self.sort(y) == s {
                        return self.fcmp(FC::Eq, x, y);
                    }
                }
            }
        }
        if let Some(c) = self.as_const(b) {
            match self.n(a).op.clone() {
                Op::ZExt(x) => {
                    let wx = self.w(x);
                    if c <= mask(wx) {
                        let k = self.konst(c, wx);
                        return self.eq(x, k);
                    }
                    return self.boolc(false);
                }
                Op::SExt(x) => {
                    let wx = self.w(x);
                    if sext128(c & mask(wx), wx) as u128 & mask(w) == c {
                        let k = self.konst(c, wx);
                        return self.eq(x, k);
                    }
                    return self.boolc(false);
                }
                Op::Ite(cc, x, y) => {
                    if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                        return match (kx == c, ky == c) {
                            (true, true) => self.boolc(true),
                            (false, false) => self.boolc(false),
                            (true, false) => cc,
                            (false, true) => self.not(cc),
                        };
                    }
                }
                _ => {}
            }
        } else if let (Op::ZExt(x), Op::ZExt(y)) = (self.n(a).op.clone(), self.n(b).op.clone()) {
            if self.w(x) == self.w(y) {
                return self.eq(x, y);
            }
        } else if let (Op::SExt(x), Op::SExt(y)) = (self.n(a).op.clone(), self.n(b).op.clone()) {
            if self.w(x) == self.w(y) {
                return self.eq(x, y);
            }
        }
        if !self.raw && (matches!(self.n(a).op, Op::Poly(_)) || matches!(self.n(b).op, Op::Poly(_))) {
            let d = self.sub(a, b);
            if let Some(c) = self.as_const(d) {
                return self.boolc(c == 0);
            }
            let nd = self.n(d);
            if nd.umin > 0 || nd.smin > 0 || nd.smax < 0 {
                return self.boolc(false);
            }
        }
        let (a, b) = if a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        self.intern(Op::Eq(a, b), Sort::BV(1))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.boolc(false);
        }
        {
            let (x, y) = (self.n(a), self.n(b));
            if x.umax < y.umin {
                return self.boolc(true);
            }
            if x.umin >= y.umax {
                return self.boolc(false);
            }
            // same sign region: compare through the difference
            if x.smin >= 0 && y.smin >= 0 {
                return self.slt(a, b);
            }
        }
        self.intern(Op::Ult(a, b), Sort::BV(1))
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.boolc(false);
        }
        {
            let (x, y) = (self.n(a), self.n(b));
            if x.smax < y.smin {
                return self.boolc(true);
            }
            if x.smin >= y.smax {
                return self.boolc(false);
            }
        }
        let isp = |s: &Terms, t: T| matches!(s.n(t).op, Op::Poly(_));
        if (isp(self, a) || isp(self, b))
            && self.n(a).nowrap
            && self.n(b).nowrap
            && self.w(a) <= 64
        {
            let d = self.sub(b, a);
            if self.n(d).nowrap {
                // mathematically d = b - a
                let nd = self.n(d);
                if nd.smin > 0 {
                    return self.boolc(true);
                }
                if nd.smax <= 0 {
                    return self.boolc(false);
                }
            }
        }
        self.intern(Op::Slt(a, b), Sort::BV(1))
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Op::Not(x) = self.n(c).op {
            return self.ite(x, b, a);
        }
        let s = self.sort(a);
        match s {
            Sort::BV(1) => {
                if self.as_const(a) == Some(1) {
                    return self.or(c, b);
                }
                if self.as_const(a) == Some(0) {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                if self.as_const(b) == Some(0) {
                    return self.and(c, a);
                }
                if self.as_const(b) == Some(1) {
                    let n = self.not(c);
                    return self.or(n, a);
                }
            }
            Sort::F32 | Sort::F64 => {
                if let (Some((x, e)), Some((y, f))) = (self.dy(a), self.dy(b)) {
                    if let Some((x, y, e)) = self.align_dy(x, e, y, f) {
                        let t = self.ite(c, x, y);
                        if let Some(r) = self.mk_dy(t, e, s) {
                            return r;
                        }
                    }
                }
            }
            _ => {}
        }
        self.intern(Op::Ite(c, a, b), s)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        match self.n(a).op.clone() {
            Op::Const(c) => return self.konst(c, w),
            Op::ZExt(x) => return self.zext(x, w),
            Op::Poly(p) if self.n(a).smin >= 0 && self.n(a).nowrap && w <= 64 && wa > 1 => {
                return self.ext_poly(p, wa, w);
            }
            _ => {}
        }
        if wa > 1 && self.n(a).smin >= 0 {
            return self.sext(a, w);
        }
        self.intern(Op::ZExt(a), Sort::BV(w))
    }
    fn ext_poly(&mut self, p: Vec<Mono>, wa: u32, w: u32) -> T {
        let mut q = vec![];
        for (vs, c) in p {
            let c = sext128(c, wa) as u128;
            let mut acc: Vec<T> = vec![];
            for v in vs {
                acc.push(self.sext(v, w));
            }
            let mut t = self.konst(c, w);
            for v in acc {
                t = self.mul(t, v);
            }
            q.extend(self.poly_of(t));
        }
        self.mk_poly(q, w)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        match self.n(a).op.clone() {
            Op::Const(c) => return self.konst(sext128(c, wa) as u128, w),
            Op::SExt(x) => return self.sext(x, w),
            Op::ZExt(x) => return self.zext(x, w),
            Op::Poly(p) if self.n(a).nowrap && w <= 64 => {
                return self.ext_poly(p, wa, w);
            }
            Op::Extract(x, hi, 0) => {
                // value fits: sext(trunc(x)) = x
                let wx = self.w(x);
                let (lo, h) = full_s(hi + 1);
                if self.n(x).smin >= lo && self.n(x).smax <= h {
                    return if wx == w {
                        x
                    } else if wx < w {
                        self.sext(x, w)
                    } else {
                        self.extract(x, w - 1, 0)
                    };
                }
            }
            _ => {}
        }
        if wa == 1 {
            let o = self.konst(u128::MAX, w);
            let z = self.konst(0, w);
            return self.ite(a, o, z);
        }
        self.intern(Op::SExt(a), Sort::BV(w))
    }
    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let wa = self.w(a);
        let k = hi - lo + 1;
        if k == wa {
            return a;
        }
        match self.n(a).op.clone() {
            Op::Const(c) => return self.konst(c >> lo, k),
            Op::Extract(x, _, l2) => return self.extract(x, hi + l2, lo + l2),
            Op::Concat(h, l) => {
                let wl = self.w(l);
                if hi < wl {
                    return self.extract(l, hi, lo);
                }
                if lo >= wl {
                    return self.extract(h, hi - wl, lo - wl);
                }
                let x = self.extract(h, hi - wl, 0);
                let y = self.extract(l, wl - 1, lo);
                return self.concat(x, y);
            }
            Op::ZExt(x) | Op::SExt(x) if lo == 0 && k <= self.w(x) => {
                return self.extract(x, hi, 0);
            }
            Op::SExt(x) if lo == 0 => return self.sext(x, k),
            Op::ZExt(x) if lo == 0 => return self.zext(x, k),
            Op::ZExt(x) if lo >= self.w(x) => return self.konst(0, k),
            Op::Poly(p) if lo == 0 && k > 1 => {
                // truncation is a ring homomorphism
                let mut q = vec![];
                for (vs, c) in p {
                    let mut t = self.konst(c, k);
                    for v in vs {
                        let e = self.extract(v, k - 1, 0);
                        t = self.mul(t, e);
                    }
                    q.extend(self.poly_of(t));
                }
                return self.mk_poly(q, k);
            }
            Op::Ite(c, x, y) => {
                let ex = self.extract(x, hi, lo);
                let ey = self.extract(y, hi, lo);
                return self.ite(c, ex, ey);
            }
            _ => {}
        }
        self.intern(Op::Extract(a, hi, lo), Sort::BV(k))
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.konst((x << wl) | y, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Op::Extract(x, h1, l1), Op::Extract(y, h2, l2)) = (self.n(h).op.clone(), self.n(l).op.clone()) {
            if x == y && l1 == h2 + 1 {
                return self.extract(x, h1, l2);
            }
        }
        if let (Op::SExt(x), _) = (self.n(h).op.clone(), 0) {
            let _ = x;
        }
        self.intern(Op::Concat(h, l), Sort::BV(w))
    }

    // ---------------------------------------------------------------- floats
    pub fn fconst(&mut self, bits: u64, s: Sort) -> T {
        self.intern(Op::FConst(bits), s)
    }
    fn frange(s: Sort) -> i128 {
        match s {
            Sort::F32 => 1 << 24,
            _ => 1 << 53,
        }
    }
    /// Dyadic view (t, e) of a float term: value = t * 2^e exactly.
    pub fn dy(&mut self, t: T) -> Option<(T, i16)> {
        match self.n(t).op {
            Op::FDy(x, e) => Some((x, e)),
            Op::FConst(bits) => {
                let v = match self.sort(t) {
                    Sort::F32 => f32::from_bits(bits as u32) as f64,
                    _ => f64::from_bits(bits),
                };
                let (m, e) = dyadic_of(v)?;
                Some((self.konst(m as u128, 64), e))
            }
            _ => None,
        }
    }
    pub fn mk_dy(&mut self, t: T, e: i16, s: Sort) -> Option<T> {
        if let Some(c) = self.as_const(t) {
            let v = (sext128(c, 64) as f64) * 2f64.powi(e as i32);
            if sext128(c, 64).abs() > Self::frange(s) {
                return None;
            }
            return match s {
                Sort::F32 => {
                    if (v as f32) as f64 != v {
                        return None;
                    }
                    Some(self.fconst((v as f32).to_bits() as u64, s))
                }
                _ => Some(self.fconst(v.to_bits(), s)),
            };
        }
        if !(-60..=60).contains(&e) {
            return None;
        }
        let mut t = t;
        let mut e = e;
        // normalise common powers of two
        loop {
            if let Op::Poly(p) = &self.n(t).op {
                if self.n(t).nowrap && p.iter().all(|(_, c)| sext128(*c, 64) % 2 == 0) {
                    t = self.exact_div(t, 2).unwrap();
                    e += 1;
                    continue;
                }
            }
            break;
        }
        let r = Self::frange(s);
        let n = self.n(t);
        if n.smin < -r || n.smax > r {
            return None;
        }
        if !matches!(n.op, Op::Poly(_)) || n.nowrap {
            return Some(self.intern(Op::FDy(t, e), s));
        }
        None
    }
    fn align_dy(&mut self, x: T, e: i16, y: T, f: i16) -> Option<(T, T, i16)> {
        let zero_x = self.as_const(x) == Some(0);
        let zero_y = self.as_const(y) == Some(0);
        if zero_x {
            return Some((x, y, f));
        }
        if zero_y {
            return Some((x, y, e));
        }
        let g = e.min(f);
        if e - g > 55 || f - g > 55 {
            return None;
        }
        for (t, k) in [(x, e - g), (y, f - g)] {
            if let Some(c) = self.as_const(t) {
                if i64::try_from(sext128(c, 64) << k).is_err() {
                    return None;
                }
            }
        }
        let kx = self.konst(1u128 << (e - g), 64);
        let ky = self.konst(1u128 << (f - g), 64);
        let x2 = self.mul(x, kx);
        let y2 = self.mul(y, ky);
        if !self.n(x2).nowrap || !self.n(y2).nowrap {
            return None;
        }
        Some((x2, y2, g))
    }
    fn fconst_val(&self, t: T) -> Option<f64> {
        match self.n(t).op {
            Op::FConst(b) => Some(match self.sort(t) {
                Sort::F32 => f32::from_bits(b as u32) as f64,
                _ => f64::from_bits(b),
            }),
            _ => None,
        }
    }
    pub fn f2(&mut self, op: F2, a: T, b: T) -> T {
        let s = self.sort(a);
        if let (Op::FConst(x), Op::FConst(y)) = (&self.n(a).op, &self.n(b).op) {
            let r = eval_f2(op, *x, *y, s);
            return self.fconst(r, s);
        }
        // x + (-0.0) = x and x - (+0.0) = x hold for every x
        if op == F2::Add {
            for (x, c) in [(a, b), (b, a)] {
                if let Some(v) = self.fconst_val(c) {
                    if v == 0.0 && v.is_sign_negative() {
                        return x;
                    }
                }
            }
        }
        if op == F2::Sub {
            if let Some(v) = self.fconst_val(b) {
                if v == 0.0 && v.is_sign_positive() {
                    return a;
                }
            }
        }
        if matches!(op, F2::Mul | F2::Div) {
            if self.fconst_val(b) == Some(1.0) {
                return a;
            }
            if op == F2::Mul && self.fconst_val(a) == Some(1.0) {
                return b;
            }
        }
        if let (Some((x, e)), Some((y, f))) = (self.dy(a), self.dy(b)) {
            match op {
                F2::Add | F2::Sub => {
                    if let Some((x, y, g)) = self.align_dy(x, e, y, f) {
                        let t = if op == F2::Add { self.add(x, y) } else { self.sub(x, y) };
                        if let Some(r) = self.mk_dy(t, g, s) {
                            return r;
                        }
                    }
                }
                F2::Mul => {
                    let t = self.mul(x, y);
                    if let Some(r) = self.mk_dy(t, e + f, s) {
                        return r;
                    }
                }
                F2::Div => {
                    if let Some(c) = self.as_const(y) {
                        let c = sext128(c, 64);
                        if c != 0 {
                            let (xx, cc) = if c < 0 { (self.neg(x), -c) } else { (x, c) };
                            let k = cc.trailing_zeros();
                            let (cc, f) = (cc >> k, f + k as i16);
                            if cc == 1 {
                                if let Some(r) = self.mk_dy(xx, e - f, s) {
                                    return r;
                                }
                            }
                            if let Some(q) = self.exact_div(xx, cc) {
                                if let Some(r) = self.mk_dy(q, e - f, s) {
                                    return r;
                                }
                            }
                        }
                    }
                }
                F2::Rem => {
                    if let Some((x, y, g)) = self.align_dy(x, e, y, f) {
                        let ny = self.n(y);
                        if ny.smin > 0 || ny.smax < 0 {
                            let t = self.b2(B2::SRem, x, y);
                            if let Some(r) = self.mk_dy(t, g, s) {
                                return r;
                            }
                        }
                    }
                }
                F2::Min | F2::Max => {
                    if let Some((x, y, g)) = self.align_dy(x, e, y, f) {
                        let c = self.slt(x, y);
                        let t = if op == F2::Min { self.ite(c, x, y) } else { self.ite(c, y, x) };
                        if let Some(r) = self.mk_dy(t, g, s) {
                            return r;
                        }
                    }
                }
                F2::CopySign => {
                    let ny = self.n(y);
                    if ny.smin > 0 {
                        return self.f1(F1::Abs, a);
                    }
                    if ny.smax < 0 {
                        let t = self.f1(F1::Abs, a);
                        return self.f1(F1::Neg, t);
                    }
                }
                F2::Pow => {}
            }
        }
        // min/max against +-inf or huge constants of a dyadic term
        if matches!(op, F2::Min | F2::Max) {
            for (x, c) in [(a, b), (b, a)] {
                if let (Some(_), Some(v)) = (self.dy(x), self.fconst_val(c)) {
                    if v.abs() > 1e20 {
                        let pick_const = (v > 0.0) == (op == F2::Max);
                        return if pick_const { c } else { x };
                    }
                }
            }
        }
        let (a, b) = match op {
            F2::Add | F2::Mul if a > b => (b, a),
            _ => (a, b),
        };
        self.intern(Op::FF2(op, a, b), s)
    }
    pub fn f1(&mut self, op: F1, a: T) -> T {
        let s = self.sort(a);
        if let Op::FConst(x) = self.n(a).op {
            let r = eval_f1(op, x, s);
            return self.fconst(r, s);
        }
        if let Some((x, e)) = self.dy(a) {
            match op {
                F1::Neg => {
                    let t = self.neg(x);
                    if let Some(r) = self.mk_dy(t, e, s) {
                        return r;
                    }
                }
                F1::Abs => {
                    let z = self.konst(0, 64);
                    let c = self.slt(x, z);
                    let n = self.neg(x);
                    let t = self.ite(c, n, x);
                    if let Some(r) = self.mk_dy(t, e, s) {
                        return r;
                    }
                }
                F1::Floor | F1::Ceil | F1::Trunc | F1::Round | F1::RoundEven => {
                    if e >= 0 {
                        return a;
                    }
                    let k = -(e as i32) as u32;
                    if k < 60 {
                        let one = self.konst(1u128 << k, 64);
                        let t = match op {
                            F1::Floor => {
                                let kk = self.konst(k as u128, 64);
                                Some(self.b2(B2::AShr, x, kk))
                            }
                            F1::Ceil => {
                                let n = self.neg(x);
                                let kk = self.konst(k as u128, 64);
                                let q = self.b2(B2::AShr, n, kk);
                                Some(self.neg(q))
                            }
                            F1::Trunc => Some(self.b2(B2::SDiv, x, one)),
                            F1::Round => {
                                // half away from zero
                                let h = self.konst(1u128 << (k - 1), 64);
                                let kk = self.konst(k as u128, 64);
                                let z = self.konst(0, 64);
                                let neg = self.slt(x, z);
                                let p = self.add(x, h);
                                let pq = self.b2(B2::AShr, p, kk);
                                let nx = self.neg(x);
                                let np = self.add(nx, h);
                                let nq = self.b2(B2::AShr, np, kk);
                                let nn = self.neg(nq);
                                Some(self.ite(neg, nn, pq))
                            }
                            _ => None,
                        };
                        if let Some(t) = t {
                            if let Some(r) = self.mk_dy(t, 0, s) {
                                return r;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if op == F1::Neg {
            if let Op::FF1(F1::Neg, x) = self.n(a).op {
                return x;
            }
        }
        self.intern(Op::FF1(op, a), s)
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        let s = self.sort(a);
        if let (Some((x, e)), Some((y, f)), Some((z, g))) = (self.dy(a), self.dy(b), self.dy(c)) {
            let m = self.mul(x, y);
            if self.n(m).nowrap || self.as_const(m).is_some() {
                if let Some((m, z, h)) = self.align_dy(m, e + f, z, g) {
                    let t = self.add(m, z);
                    if let Some(r) = self.mk_dy(t, h, s) {
                        return r;
                    }
                }
            }
        }
        if let (Op::FConst(x), Op::FConst(y), Op::FConst(z)) = (&self.n(a).op, &self.n(b).op, &self.n(c).op) {
            let r = match s {
                Sort::F32 => f32::from_bits(*x as u32)
                    .mul_add(f32::from_bits(*y as u32), f32::from_bits(*z as u32))
                    .to_bits() as u64,
                _ => f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z)).to_bits(),
            };
            return self.fconst(r, s);
        }
        self.intern(Op::Fma(a, b, c), s)
    }
    /// An upper bound on |a| when `a` is certainly finite.
    fn fbound(&mut self, a: T, depth: u32) -> Option<f64> {
        if depth > 64 {
            return None;
        }
        let lim = match self.sort(a) {
            Sort::F32 => 1e38,
            _ => 1e300,
        };
        let r = match self.n(a).op.clone() {
            Op::FConst(_) => {
                let v = self.fconst_val(a)?.abs();
                if v.is_nan() {
                    return None;
                }
                v
            }
            Op::FDy(t, e) => {
                let n = self.n(t);
                (n.smin.unsigned_abs().max(n.smax.unsigned_abs()) as f64) * 2f64.powi(e as i32)
            }
            Op::IToF(t, _) => {
                let n = self.n(t);
                (n.smin.unsigned_abs().max(n.smax.unsigned_abs()).max(n.umax) as f64) * 1.01
            }
            Op::FF2(F2::Add, x, y) | Op::FF2(F2::Sub, x, y) => {
                (self.fbound(x, depth + 1)? + self.fbound(y, depth + 1)?) * 1.001
            }
            Op::FF2(F2::Mul, x, y) => self.fbound(x, depth + 1)? * self.fbound(y, depth + 1)? * 1.001,
            Op::FF2(F2::Div, x, y) => {
                let b = self.fbound(x, depth + 1)?;
                let low = if let Some(v) = self.fconst_val(y) {
                    v.abs()
                } else if let Op::FDy(t, e) = self.n(y).op {
                    let n = self.n(t);
                    if n.smin > 0 || n.smax < 0 {
                        2f64.powi(e as i32)
                    } else {
                        return None;
                    }
                } else {
                    return None;
                };
                if low == 0.0 {
                    return None;
                }
                b / low * 1.001
            }
            Op::FF2(F2::Min, x, y) | Op::FF2(F2::Max, x, y) | Op::Ite(_, x, y) => {
                self.fbound(x, depth + 1)?.max(self.fbound(y, depth + 1)?)
            }
            Op::FF1(F1::Neg, x) | Op::FF1(F1::Abs, x) => self.fbound(x, depth + 1)?,
            Op::FF1(F1::Floor | F1::Ceil | F1::Trunc | F1::Round | F1::RoundEven, x) => self.fbound(x, depth + 1)? + 1.0,
            Op::FConv(x) => self.fbound(x, depth + 1)? * 1.001,
            _ => return None,
        };
        if r.is_finite() && r < lim {
            Some(r)
        } else {
            None
        }
    }
    pub fn fisnan(&mut self, a: T) -> T {
        if let Some(v) = self.fconst_val(a) {
            return self.boolc(v.is_nan());
        }
        if self.dy(a).is_some() {
            return self.boolc(false);
        }
        if let Op::IToF(..) = self.n(a).op {
            return self.boolc(false);
        }
        if self.fbound(a, 0).is_some() {
            return self.boolc(false);
        }
        self.intern(Op::FIsNan(a), Sort::BV(1))
    }
    /// a dyadic term that is known not to be zero
    fn dy_nonzero(&mut self, t: T) -> bool {
        match self.dy(t) {
            Some((x, e)) => (-60..=60).contains(&e) && { let n = self.n(x); n.smin > 0 || n.smax < 0 },
            None => false,
        }
    }
    /// ordered comparison
    pub fn fcmp(&mut self, op: FC, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.fconst_val(a), self.fconst_val(b)) {
            return self.boolc(match op {
                FC::Eq => x == y,
                FC::Lt => x < y,
                FC::Le => x <= y,
            });
        }
        if let (Some((x, e)), Some((y, f))) = (self.dy(a), self.dy(b)) {
            if let Some((x, y, _)) = self.align_dy(x, e, y, f) {
                return match op {
                    FC::Eq => self.eq(x, y),
                    FC::Lt => self.slt(x, y),
                    FC::Le => self.sle(x, y),
                };
            }
        }
        // dyadic against inf / nan / huge
        for (x, c, flip) in [(a, b, false), (b, a, true)] {
            if let (Some((_, e)), Some(v)) = (self.dy(x), self.fconst_val(c)) {
                if v.is_nan() {
                    return self.boolc(false);
                }
                if e <= 0 && v.abs() > 1e17 {
                    // x < c iff v > 0
                    let r = match op {
                        FC::Eq => false,
                        _ => (v > 0.0) != flip,
                    };
                    return self.boolc(r);
                }
            }
        }
        // a quotient of dyadic terms is zero exactly if the numerator is (no underflow in this range)
        if op == FC::Eq {
            for (x, c) in [(a, b), (b, a)] {
                if self.fconst_val(c) == Some(0.0) {
                    if let Op::FF2(F2::Div, n, d) = self.n(x).op {
                        if self.dy(n).is_some() && self.dy_nonzero(d) {
                            let z = self.fconst(0, self.sort(n));
                            return self.fcmp(FC::Eq, n, z);
                        }
                    }
                }
            }
        }
        if a == b {
            let n = self.fisnan(a);
            return match op {
                FC::Lt => self.boolc(false),
                _ => self.not(n),
            };
        }
        let (a, b) = if op == FC::Eq && a > b { (b, a) } else { (a, b) };
        self.intern(Op::FCmp(op, a, b), Sort::BV(1))
    }
    pub fn ffrombits(&mut self, a: T, s: Sort) -> T {
        match self.n(a).op {
            Op::Const(c) => self.fconst(c as u64, s),
            Op::FBits(x) if self.sort(x) == s => x,
            _ => {
                // ite distributes
                if let Op::Ite(c, x, y) = self.n(a).op {
                    let fx = self.ffrombits(x, s);
                    let fy = self.ffrombits(y, s);
                    return self.ite(c, fx, fy);
                }
                self.intern(Op::FFromBits(a), s)
            }
        }
    }
    pub fn fbits(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.n(a).op {
            Op::FConst(c) => self.konst(c as u128, w),
            Op::FFromBits(x) => x,
            Op::FF1(F1::Neg, x) => {
                if let Op::FFromBits(b) = self.n(x).op {
                    let k = self.konst(1u128 << (w - 1), w);
                    return self.b2(B2::Xor, b, k);
                }
                self.intern(Op::FBits(a), Sort::BV(w))
            }
            _ => self.intern(Op::FBits(a), Sort::BV(w)),
        }
    }
    pub fn itof(&mut self, a: T, signed: bool, s: Sort) -> T {
        let w = self.w(a);
        if let Some(c) = self.as_const(a) {
            let bits = itof_bits(c, w, signed, s);
            return self.fconst(bits, s);
        }
        let r = Self::frange(s);
        if w == 1 {
            let z = self.zext(a, 64);
            let z = if signed { self.neg(z) } else { z };
            return self.mk_dy(z, 0, s).unwrap();
        }
        let n = self.n(a);
        let fits = if signed {
            n.smin >= -r && n.smax <= r
        } else {
            n.umax <= r as u128
        };
        if fits {
            let x = if w < 64 {
                if signed {
                    self.sext(a, 64)
                } else {
                    self.zext(a, 64)
                }
            } else if w > 64 {
                self.extract(a, 63, 0)
            } else {
                a
            };
            if let Some(r) = self.mk_dy(x, 0, s) {
                return r;
            }
        }
        self.intern(Op::IToF(a, signed), s)
    }
    /// saturating float -> int
    pub fn ftoi(&mut self, a: T, signed: bool, w: u32) -> T {
        if let Op::FConst(b) = self.n(a).op {
            let r = ftoi_sat(b, self.sort(a), signed, w);
            return self.konst(r, w);
        }
        if let Some((x, e)) = self.dy(a) {
            let x = if e == 0 {
                Some(x)
            } else if e > 0 && e < 60 {
                let k = self.konst(1u128 << e, 64);
                let y = self.mul(x, k);
                if self.n(y).nowrap {
                    Some(y)
                } else {
                    None
                }
            } else if e > -60 {
                let k = self.konst(1u128 << (-e), 64);
                Some(self.b2(B2::SDiv, x, k))
            } else {
                None
            };
            if let Some(x) = x {
                let (lo, hi) = if signed {
                    full_s(w)
                } else {
                    (0, if w >= 127 { i128::MAX } else { mask(w) as i128 })
                };
                let n = self.n(x);
                if n.smin >= lo && n.smax <= hi {
                    return if w < 64 {
                        self.extract(x, w - 1, 0)
                    } else if w == 64 {
                        x
                    } else {
                        self.sext(x, w)
                    };
                }
                // clamp
                if w <= 64 {
                    let mut y = x;
                    if n.smin < lo {
                        let l = self.konst(lo as u128, 64);
                        let c = self.slt(y, l);
                        y = self.ite(c, l, y);
                    }
                    if self.n(y).smax > hi {
                        let h = self.konst(hi as u128, 64);
                        let c = self.slt(h, y);
                        y = self.ite(c, h, y);
                    }
                    return if w < 64 { self.extract(y, w - 1, 0) } else { y };
                }
            }
        }
        self.intern(Op::FToI(a, signed), Sort::BV(w))
    }
    pub fn fconv(&mut self, a: T, s: Sort) -> T {
        if self.sort(a) == s {
            return a;
        }
        if let Op::FConst(b) = self.n(a).op {
            let r = match s {
                Sort::F32 => (f64::from_bits(b) as f32).to_bits() as u64,
                _ => (f32::from_bits(b as u32) as f64).to_bits(),
            };
            return self.fconst(r, s);
        }
        if let Some((x, e)) = self.dy(a) {
            if let Some(r) = self.mk_dy(x, e, s) {
                return r;
            }
        }
        self.intern(Op::FConv(a), s)
    }

    // ---------------------------------------------------------------- traversal
    /// Rebuild a term through the normalising constructors.
    pub fn renorm(&mut self, t: T, memo: &mut HashMap<T, T>) -> T {
        let was = self.raw;
        self.raw = false;
        let mut stack = vec![(t, false)];
        while let Some((x, ready)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            if !ready {
                stack.push((x, true));
                for c in self.children(x) {
                    if !memo.contains_key(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            let s = self.sort(x);
            let w = self.w(x);
            let g = |y: &T| memo[y];
            let r = match self.n(x).op.clone() {
                Op::Const(_) | Op::Var(_) | Op::FConst(_) => x,
                Op::Poly(p) => {
                    let mut acc = self.konst(0, w);
                    for (vs, c) in p {
                        let mut m = self.konst(c, w);
                        for v in vs.iter().map(g) {
                            m = self.mul(m, v);
                        }
                        acc = self.add(acc, m);
                    }
                    acc
                }
                Op::B2(o, a, b) => { let (a, b) = (g(&a), g(&b)); self.b2(o, a, b) }
                Op::Not(a) => { let a = g(&a); self.not(a) }
                Op::Eq(a, b) => { let (a, b) = (g(&a), g(&b)); self.eq(a, b) }
                Op::Ult(a, b) => { let (a, b) = (g(&a), g(&b)); self.ult(a, b) }
                Op::Slt(a, b) => { let (a, b) = (g(&a), g(&b)); self.slt(a, b) }
                Op::Ite(c, a, b) => { let (c, a, b) = (g(&c), g(&a), g(&b)); self.ite(c, a, b) }
                Op::Concat(a, b) => { let (a, b) = (g(&a), g(&b)); self.concat(a, b) }
                Op::Extract(a, h, l) => { let a = g(&a); self.extract(a, h, l) }
                Op::ZExt(a) => { let a = g(&a); self.zext(a, w) }
                Op::SExt(a) => { let a = g(&a); self.sext(a, w) }
                Op::FDy(a, e) => {
                    let n = g(&a);
                    match self.mk_dy(n, e, s) {
                        Some(r) => r,
                        None => x,
                    }
                }
                Op::FFromBits(a) => { let a = g(&a); self.ffrombits(a, s) }
                Op::FBits(a) => { let a = g(&a); self.fbits(a) }
                Op::FF2(o, a, b) => { let (a, b) = (g(&a), g(&b)); self.f2(o, a, b) }
                Op::FF1(o, a) => { let a = g(&a); self.f1(o, a) }
                Op::Fma(a, b, c) => { let (a, b, c) = (g(&a), g(&b), g(&c)); self.fma(a, b, c) }
                Op::FCmp(o, a, b) => { let (a, b) = (g(&a), g(&b)); self.fcmp(o, a, b) }
                Op::FIsNan(a) => { let a = g(&a); self.fisnan(a) }
                Op::FToI(a, sg) => { let a = g(&a); self.ftoi(a, sg, w) }
                Op::IToF(a, sg) => { let a = g(&a); self.itof(a, sg, s) }
                Op::FConv(a) => { let a = g(&a); self.fconv(a, s) }
            };
            memo.insert(x, r);
        }
        self.raw = was;
        memo[&t]
    }
    pub fn children(&self, t: T) -> Vec<T> {
        match &self.n(t).op {
            Op::Const(_) | Op::Var(_) | Op::FConst(_) => vec![],
            Op::Poly(p) => {
                let mut v: Vec<T> = p.iter().flat_map(|(m, _)| m.iter().copied()).collect();
                v.sort();
                v.dedup();
                v
            }
            Op::B2(_, a, b)
            | Op::Eq(a, b)
            | Op::Ult(a, b)
            | Op::Slt(a, b)
            | Op::Concat(a, b)
            | Op::FF2(_, a, b)
            | Op::FCmp(_, a, b) => vec![*a, *b],
            Op::Ite(a, b, c) | Op::Fma(a, b, c) => vec![*a, *b, *c],
            Op::Not(a)
            | Op::Extract(a, _, _)
            | Op::ZExt(a)
            | Op::SExt(a)
            | Op::FDy(a, _)
            | Op::FFromBits(a)
            | Op::FBits(a)
            | Op::FF1(_, a)
            | Op::FIsNan(a)
            | Op::FToI(a, _)
            | Op::IToF(a, _)
            | Op::FConv(a) => vec![*a],
        }
    }
    pub fn vars_of(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&t) {
            return v.clone();
        }
        let mut out: Vec<u32> = vec![];
        if let Op::Var(v) = self.n(t).op {
            out.push(v);
        } else {
            for c in self.children(t) {
                let vs = self.vars_of(c);
                out.extend(vs.iter());
            }
            out.sort();
            out.dedup();
        }
        let r = Rc::new(out);
        self.varsets.insert(t, r.clone());
        r
    }

    /// Evaluate under an assignment (missing variables take their lower bound).
    pub fn eval(&self, t: T, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<T, u128>) -> u128 {
        if let Op::Const(c) = self.n(t).op {
            return c;
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let s = self.sort(t);
        let w = self.w(t);
        let m = mask(w);
        let mut ev = |x: T| self.eval(x, model, memo);
        let r = match &self.n(t).op {
            Op::Const(c) => *c,
            Op::Var(v) => model(*v) & m,
            Op::Poly(p) => {
                let mut acc: u128 = 0;
                for (vs, c) in p {
                    let mut x = *c;
                    for v in vs {
                        x = x.wrapping_mul(ev(*v));
                    }
                    acc = acc.wrapping_add(x);
                }
                acc & m
            }
            Op::B2(o, a, b) => {
                let (x, y) = (ev(*a), ev(*b));
                eval_b2(*o, x, y, w)
            }
            Op::Not(a) => ev(*a) ^ 1,
            Op::Eq(a, b) => (ev(*a) == ev(*b)) as u128,
            Op::Ult(a, b) => (ev(*a) < ev(*b)) as u128,
            Op::Slt(a, b) => {
                let wa = self.w(*a);
                (sext128(ev(*a), wa) < sext128(ev(*b), wa)) as u128
            }
            Op::Ite(c, a, b) => {
                if ev(*c) == 1 {
                    ev(*a)
                } else {
                    ev(*b)
                }
            }
            Op::Concat(a, b) => {
                let wb = self.w(*b);
                (ev(*a) << wb) | ev(*b)
            }
            Op::Extract(a, _, lo) => (ev(*a) >> lo) & m,
            Op::ZExt(a) => ev(*a),
            Op::SExt(a) => {
                let wa = self.w(*a);
                (sext128(ev(*a), wa) as u128) & m
            }
            Op::FConst(b) => *b as u128,
            Op::FDy(a, e) => {
                let v = sext128(ev(*a), 64) as f64 * 2f64.powi(*e as i32);
                match s {
                    Sort::F32 => (v as f32).to_bits() as u128,
                    _ => v.to_bits() as u128,
                }
            }
            Op::FFromBits(a) | Op::FBits(a) => ev(*a),
            Op::FF2(o, a, b) => {
                let (x, y) = (ev(*a), ev(*b));
                eval_f2(*o, x as u64, y as u64, s) as u128
            }
            Op::FF1(o, a) => eval_f1(*o, ev(*a) as u64, s) as u128,
            Op::Fma(a, b, c) => {
                let (x, y, z) = (ev(*a) as u64, ev(*b) as u64, ev(*c) as u64);
                match s {
                    Sort::F32 => f32::from_bits(x as u32)
                        .mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32))
                        .to_bits() as u128,
                    _ => f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits() as u128,
                }
            }
            Op::FCmp(o, a, b) => {
                let sa = self.sort(*a);
                let (x, y) = (fval(ev(*a) as u64, sa), fval(ev(*b) as u64, sa));
                (match o {
                    FC::Eq => x == y,
                    FC::Lt => x < y,
                    FC::Le => x <= y,
                }) as u128
            }
            Op::FIsNan(a) => {
                let sa = self.sort(*a);
                fval(ev(*a) as u64, sa).is_nan() as u128
            }
            Op::FToI(a, sg) => {
                let sa = self.sort(*a);
                ftoi_sat(ev(*a) as u64, sa, *sg, w)
            }
            Op::IToF(a, sg) => {
                let wa = self.w(*a);
                itof_bits(ev(*a), wa, *sg, s) as u128
            }
            Op::FConv(a) => {
                let x = ev(*a) as u64;
                match s {
                    Sort::F32 => (f64::from_bits(x) as f32).to_bits() as u128,
                    _ => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                }
            }
        };
        memo.insert(t, r);
        r
    }
}

trait CloneWith {
    fn clone_with(
        self,
        f: impl Fn(()) -> (i128, i128),
        g: &dyn Fn(i128, i128) -> (i128, i128, u128, u128, bool),
    ) -> Self;
}
impl CloneWith for (i128, i128, u128, u128, bool) {
    fn clone_with(
        self,
        f: impl Fn(()) -> (i128, i128),
        g: &dyn Fn(i128, i128) -> (i128, i128, u128, u128, bool),
    ) -> Self {
        let (a, b) = f(());
        g(a, b)
    }
}

pub fn dyadic_of(v: f64) -> Option<(i64, i16)> {
    if !v.is_finite() {
        return None;
    }
    if v == 0.0 {
        if v.is_sign_negative() {
            return None;
        }
        return Some((0, 0));
    }
    let bits = v.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let man = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if exp == 0 { (man, -1074) } else { (man | (1 << 52), exp - 1075) };
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    // prefer small positive exponents folded into the integer
    while e > 0 && m < (1 << 52) {
        m <<= 1;
        e -= 1;
    }
    if !(-60..=60).contains(&e) {
        return None;
    }
    let m = if v < 0.0 { -(m as i64) } else { m as i64 };
    Some((m, e as i16))
}

pub fn fval(b: u64, s: Sort) -> f64 {
    match s {
        Sort::F32 => f32::from_bits(b as u32) as f64,
        _ => f64::from_bits(b),
    }
}

pub fn itof_bits(c: u128, w: u32, signed: bool, s: Sort) -> u64 {
    if signed {
        let v = sext128(c, w);
        match s {
            Sort::F32 => (v as f32).to_bits() as u64,
            _ => (v as f64).to_bits(),
        }
    } else {
        match s {
            Sort::F32 => (c as f32).to_bits() as u64,
            _ => (c as f64).to_bits(),
        }
    }
}

pub fn ftoi_sat(b: u64, s: Sort, signed: bool, w: u32) -> u128 {
    let v = fval(b, s);
    if signed {
        let x = v as i128;
        let (lo, hi) = full_s(w);
        (x.max(lo).min(hi) as u128) & mask(w)
    } else {
        let x = v as u128;
        x.min(mask(w))
    }
}

pub fn eval_b2(op: B2, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    let sx = sext128(x, w);
    let sy = sext128(y, w);
    (match op {
        B2::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        B2::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        B2::SDiv => {
            if y == 0 {
                if sx < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx.wrapping_div(sy) as u128
            }
        }
        B2::SRem => {
            if y == 0 {
                x
            } else {
                sx.wrapping_rem(sy) as u128
            }
        }
        B2::And => x & y,
        B2::Or => x | y,
        B2::Xor => x ^ y,
        B2::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        B2::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        B2::AShr => {
            if y >= w as u128 {
                if sx < 0 {
                    m
                } else {
                    0
                }
            } else {
                (sx >> y) as u128
            }
        }
    }) & m
}

pub fn eval_f2(op: F2, x: u64, y: u64, s: Sort) -> u64 {
    match s {
        Sort::F32 => {
            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            (match op {
                F2::Add => a + b,
                F2::Sub => a - b,
                F2::Mul => a * b,
                F2::Div => a / b,
                F2::Rem => a % b,
                F2::Min => a.min(b),
                F2::Max => a.max(b),
                F2::CopySign => a.copysign(b),
                F2::Pow => a.powf(b),
            })
            .to_bits() as u64
        }
        _ => {
            let (a, b) = (f64::from_bits(x), f64::from_bits(y));
            (match op {
                F2::Add => a + b,
                F2::Sub => a - b,
                F2::Mul => a * b,
                F2::Div => a / b,
                F2::Rem => a % b,
                F2::Min => a.min(b),
                F2::Max => a.max(b),
                F2::CopySign => a.copysign(b),
                F2::Pow => a.powf(b),
            })
            .to_bits()
        }
    }
}

pub fn eval_f1(op: F1, x: u64, s: Sort) -> u64 {
    macro_rules! go {
        ($a:expr) => {
            match op {
                F1::Neg => -$a,
                F1::Abs => $a.abs(),
                F1::Sqrt => $a.sqrt(),
                F1::Floor => $a.floor(),
                F1::Ceil => $a.ceil(),
                F1::Trunc => $a.trunc(),
                F1::Round => $a.round(),
                F1::RoundEven => $a.round_ties_even(),
                F1::Exp => $a.exp(),
                F1::Log => $a.ln(),
                F1::Sin => $a.sin(),
                F1::Cos => $a.cos(),
                F1::Log2 => $a.log2(),
                F1::Exp2 => $a.exp2(),
            }
        };
    }
    match s {
        Sort::F32 => {
            let a = f32::from_bits(x as u32);
            (go!(a)).to_bits() as u64
        }
        _ => {
            let a = f64::from_bits(x);
            (go!(a)).to_bits()
        }
    }
}
