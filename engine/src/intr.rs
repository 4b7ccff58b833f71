//! LLVM intrinsics, harness intrinsics (`rs_*`) and the few libc/libm externals.

use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

fn cmp_terms(e: &mut Engine, signed: bool, a: T, b: T) -> T {
    if signed {
        e.tm.slt(a, b)
    } else {
        e.tm.ult(a, b)
    }
}

impl Engine {
    fn elt<'a>(v: &'a V, i: usize) -> V {
        match v {
            V::A(xs) => xs.get(i).cloned().unwrap_or(V::U),
            _ => V::U,
        }
    }

    fn overflow(&mut self, name: &str, ty: &Ty, x: &V, y: &V) -> R<V> {
        let w = ty.bits();
        let signed = name.as_bytes()[5] == b's';
        let op = &name[6..9];
        if matches!(x, V::U) || matches!(y, V::U) {
            return Ok(V::A(Rc::new(vec![V::U, V::U])));
        }
        let (a, b) = (self.term(x, ty)?, self.term(y, ty)?);
        let r = match op {
            "add" => self.tm.add(a, b),
            "sub" => self.tm.sub(a, b),
            _ => self.tm.mul(a, b),
        };
        let (na, nb) = (self.tm.n(a), self.tm.n(b));
        // interval test first
        let safe = if signed {
            let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
            let f = |p: i128, q: i128| match op {
                "add" => p.checked_add(q),
                "sub" => p.checked_sub(q),
                _ => p.checked_mul(q),
            };
            [(na.smin, nb.smin), (na.smin, nb.smax), (na.smax, nb.smin), (na.smax, nb.smax)]
                .iter()
                .all(|(p, q)| f(*p, *q).map_or(false, |v| v >= lo && v <= hi))
        } else {
            match op {
                "add" => na.umax.checked_add(nb.umax).map_or(false, |v| v <= mask(w)),
                "sub" => na.umin >= nb.umax,
                _ => na.umax.checked_mul(nb.umax).map_or(false, |v| v <= mask(w)),
            }
        };
        let o = if safe {
            self.tm.boolc(false)
        } else {
            match (op, signed) {
                ("add", false) => self.tm.ult(r, a),
                ("sub", false) => self.tm.ult(a, b),
                ("add", true) | ("sub", true) => {
                    if w < 128 {
                        let (ea, eb, er) = (self.tm.sext(a, w + 1), self.tm.sext(b, w + 1), self.tm.sext(r, w + 1));
                        let s = if op == "add" { self.tm.add(ea, eb) } else { self.tm.sub(ea, eb) };
                        let q = self.tm.eq(s, er);
                        self.tm.not(q)
                    } else {
                        let z = self.tm.konst(0, w);
                        let (sa, sb, sr) = (self.tm.slt(a, z), self.tm.slt(b, z), self.tm.slt(r, z));
                        let d1 = self.tm.eq(sa, sb);
                        let d1 = if op == "add" { d1 } else { self.tm.not(d1) };
                        let d2 = self.tm.eq(sa, sr);
                        let d2 = self.tm.not(d2);
                        self.tm.and(d1, d2)
                    }
                }
                (_, s) => {
                    if w > 64 {
                        return unsup(format!("overflow check of a symbolic {}-bit multiplication", w));
                    }
                    let ext = |e: &mut Engine, t: T| if s { e.tm.sext(t, 2 * w) } else { e.tm.zext(t, 2 * w) };
                    let (ea, eb, er) = (ext(self, a), ext(self, b), ext(self, r));
                    let p = self.tm.mul(ea, eb);
                    let q = self.tm.eq(p, er);
                    self.tm.not(q)
                }
            }
        };
        Ok(V::A(Rc::new(vec![self.norm(r), self.norm(o)])))
    }

    fn minmax(&mut self, ty: &Ty, x: V, y: V, signed: bool, max: bool) -> R<V> {
        if matches!(x, V::U) || matches!(y, V::U) {
            return Ok(V::U);
        }
        let (a, b) = (self.term(&x, ty)?, self.term(&y, ty)?);
        let c = cmp_terms(self, signed, a, b);
        let r = if max { self.tm.ite(c, b, a) } else { self.tm.ite(c, a, b) };
        Ok(self.norm(r))
    }

    fn sat_arith(&mut self, name: &str, ty: &Ty, x: V, y: V) -> R<V> {
        // {u,s}{add,sub}.sat
        let w = ty.bits();
        let signed = name.as_bytes()[5] == b's';
        let sub = &name[6..9] == "sub";
        let full = format!("llvm.{}{}.with.overflow", if signed { "s" } else { "u" }, if sub { "sub" } else { "add" });
        let p = self.overflow(&full, ty, &x, &y)?;
        let (r, o) = (Self::elt(&p, 0), Self::elt(&p, 1));
        let lim = if !signed {
            V::C(if sub { 0 } else { mask(w) })
        } else {
            let a = self.term(&x, ty)?;
            let z = self.tm.konst(0, w);
            let neg = self.tm.slt(a, z);
            let mn = self.tm.konst(1u128 << (w - 1), w);
            let mx = self.tm.konst(mask(w) >> 1, w);
            let t = self.tm.ite(neg, mn, mx);
            self.norm(t)
        };
        self.select(ty, &o, &lim, &r)
    }

    pub(crate) fn intrinsic(&mut self, st: &mut State, name: &str, rty: &Ty, args: &[(Ty, Opnd)], av: Vec<V>) -> R<Option<V>> {
        if name.starts_with("rs_") {
            return self.harness(st, name, &av);
        }
        let b = name.strip_prefix("llvm.").unwrap_or(name);
        let root = |p: &str| b.starts_with(p);
        if root("dbg.") || root("lifetime.") || root("experimental.noalias") || root("donothing") || root("prefetch") || root("invariant.") {
            return Ok(if *rty == Ty::Void { None } else { Some(V::C(0)) });
        }
        if root("memcpy.") || root("memmove.") || root("memset.") {
            let n = self.concretize(st, &av[2], 64)? as u64;
            let d = self.addr(st, &av[0])?;
            if root("memset.") {
                let v = av[1].clone();
                self.memset(st, d, &v, n)?;
            } else {
                let s = self.addr(st, &av[1])?;
                if root("memcpy.") && n > 0 && d != s && (d >> 32) == (s >> 32) && d.abs_diff(s) < n {
                    return viol("undefined-behaviour", "memcpy between overlapping regions");
                }
                self.memcpy(st, d, s, n)?;
            }
            return Ok(None);
        }
        if root("threadlocal.address") || root("expect") || root("ptrmask_id") || root("launder.") || root("strip.invariant") {
            return Ok(Some(av[0].clone()));
        }
        if root("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if root("objectsize") {
            return Ok(Some(V::C(u64::MAX as u128)));
        }
        if root("trap") || root("ubsantrap") || root("debugtrap") {
            return viol("abort", "trap");
        }
        if root("assume") {
            match &av[0] {
                V::C(1) => {}
                V::C(_) => return viol("undefined-behaviour", "assume(false)"),
                V::S(t) => {
                    let nt = self.tm.not(*t);
                    if let Some(m) = self.feasible(st, nt)? {
                        st.model = m;
                        return viol("undefined-behaviour", "compiler assumption can be false");
                    }
                }
                _ => return viol("undefined-behaviour", "assume(undef)"),
            }
            return Ok(None);
        }
        if b.contains(".with.overflow") {
            let ty = &args[0].0;
            if let Ty::Vector(..) = ty {
                return unsup("vector overflow intrinsic");
            }
            return Ok(Some(self.overflow(name, ty, &av[0], &av[1])?));
        }
        if root("umax.") || root("umin.") || root("smax.") || root("smin.") {
            let (s, mx) = (root("s"), &b[1..4] == "max");
            let r = self.map2(&args[0].0, av[0].clone(), av[1].clone(), &mut |e, t, x, y| e.minmax(t, x, y, s, mx))?;
            return Ok(Some(r));
        }
        if root("uadd.sat") || root("usub.sat") || root("sadd.sat") || root("ssub.sat") {
            let n = name.to_string();
            let r = self.map2(&args[0].0, av[0].clone(), av[1].clone(), &mut |e, t, x, y| e.sat_arith(&n, t, x, y))?;
            return Ok(Some(r));
        }
        if root("ucmp.") || root("scmp.") {
            if matches!(av[0], V::U) || matches!(av[1], V::U) {
                return Ok(Some(V::U));
            }
            let ty = args[0].0.clone();
            let (x, y) = (self.term(&av[0], &ty)?, self.term(&av[1], &ty)?);
            let lt = cmp_terms(self, root("s"), x, y);
            let gt = cmp_terms(self, root("s"), y, x);
            let w = rty.bits();
            let (m1, z, p1) = (self.tm.konst(mask(w), w), self.tm.konst(0, w), self.tm.konst(1, w));
            let t = self.tm.ite(gt, p1, z);
            let t = self.tm.ite(lt, m1, t);
            return Ok(Some(self.norm(t)));
        }
        if root("abs.") {
            if let V::U = av[0] {
                return Ok(Some(V::U));
            }
            let ty = args[0].0.clone();
            if let Ty::Vector(..) = ty {
                return unsup("vector abs");
            }
            let x = self.term(&av[0], &ty)?;
            let z = self.tm.konst(0, ty.bits());
            let c = self.tm.slt(x, z);
            let n = self.tm.neg(x);
            let t = self.tm.ite(c, n, x);
            return Ok(Some(self.norm(t)));
        }
        if root("ctpop.") || root("ctlz.") || root("cttz.") || root("bswap.") || root("bitreverse.") {
            let ty = args[0].0.clone();
            if let Ty::Vector(..) = ty {
                return unsup(name);
            }
            let w = ty.bits();
            if let V::U = av[0] {
                return Ok(Some(V::U));
            }
            let x = self.concretize(st, &av[0], w)?;
            let r = if root("ctpop") {
                x.count_ones() as u128
            } else if root("ctlz") {
                (x.leading_zeros() - (128 - w)) as u128
            } else if root("cttz") {
                (x.trailing_zeros().min(w)) as u128
            } else if root("bswap") {
                x.swap_bytes() >> (128 - w)
            } else {
                x.reverse_bits() >> (128 - w)
            };
            return Ok(Some(V::C(r)));
        }
        if root("fshl.") || root("fshr.") {
            let w = args[0].0.bits();
            if let Ty::Vector(..) = args[0].0 {
                return unsup(name);
            }
            let sh = (self.concretize(st, &av[2], w)? % w as u128) as u32;
            let ty = Ty::Int(w);
            if matches!(av[0], V::U) || matches!(av[1], V::U) {
                return Ok(Some(V::U));
            }
            let (h, l) = (self.term(&av[0], &ty)?, self.term(&av[1], &ty)?);
            if sh == 0 {
                return Ok(Some(if root("fshl") { av[0].clone() } else { av[1].clone() }));
            }
            let k = if root("fshl") { sh } else { w - sh };
            // (h << k) | (l >> (w-k))
            let (kk, kr) = (self.tm.konst(k as u128, w), self.tm.konst((w - k) as u128, w));
            let a = self.tm.b2(B2::Shl, h, kk);
            let c = self.tm.b2(B2::LShr, l, kr);
            let t = self.tm.b2(B2::Or, a, c);
            return Ok(Some(self.norm(t)));
        }
        if root("fptosi.sat") || root("fptoui.sat") {
            if let V::U = av[0] {
                return Ok(Some(V::U));
            }
            if let Ty::Vector(..) = args[0].0 {
                return unsup(name);
            }
            let x = self.term(&av[0], &args[0].0.clone())?;
            let t = self.tm.ftoi(x, root("fptosi"), rty.bits());
            return Ok(Some(self.norm(t)));
        }
        let f1 = [
            ("fabs.", F1::Abs),
            ("floor.", F1::Floor),
            ("ceil.", F1::Ceil),
            ("trunc.", F1::Trunc),
            ("round.", F1::Round),
            ("roundeven.", F1::RoundEven),
            ("rint.", F1::RoundEven),
            ("nearbyint.", F1::RoundEven),
            ("sqrt.", F1::Sqrt),
            ("exp.", F1::Exp),
            ("exp2.", F1::Exp2),
            ("log.", F1::Log),
            ("log2.", F1::Log2),
            ("sin.", F1::Sin),
            ("cos.", F1::Cos),
        ];
        for (p, o) in f1 {
            if root(p) {
                let r = self.map1(&args[0].0, av[0].clone(), &mut |e, t, x| e.f1v(o, t, x))?;
                return Ok(Some(r));
            }
        }
        let f2 = [
            ("minnum.", F2::Min),
            ("maxnum.", F2::Max),
            ("copysign.", F2::CopySign),
            ("pow.", F2::Pow),
        ];
        for (p, o) in f2 {
            if root(p) {
                let r = self.map2(&args[0].0, av[0].clone(), av[1].clone(), &mut |e, t, x, y| e.fbin(o, t, x, y))?;
                return Ok(Some(r));
            }
        }
        if root("fma.") || root("fmuladd.") {
            if av.iter().any(|v| matches!(v, V::U)) {
                return Ok(Some(V::U));
            }
            let ty = args[0].0.clone();
            if let Ty::Vector(..) = ty {
                return unsup(name);
            }
            let (x, y, z) = (self.term(&av[0], &ty)?, self.term(&av[1], &ty)?, self.term(&av[2], &ty)?);
            let t = if root("fma.") {
                self.tm.fma(x, y, z)
            } else {
                let p = self.tm.f2(F2::Mul, x, y);
                self.tm.f2(F2::Add, p, z)
            };
            return Ok(Some(self.norm(t)));
        }
        if root("powi.") {
            let n = sext128(self.concretize(st, &av[1], 32)?, 32);
            let ty = args[0].0.clone();
            if let V::U = av[0] {
                return Ok(Some(V::U));
            }
            let one = if ty == Ty::F32 { V::C(1f32.to_bits() as u128) } else { V::C(1f64.to_bits() as u128) };
            // compiler-rt's square-and-multiply
            let mut bexp = n.unsigned_abs();
            let mut a = av[0].clone();
            let mut r = one.clone();
            if bexp > 64 {
                return unsup("powi with a large exponent");
            }
            loop {
                if bexp & 1 == 1 {
                    r = self.fbin(F2::Mul, &ty, r, a.clone())?;
                }
                bexp >>= 1;
                if bexp == 0 {
                    break;
                }
                a = self.fbin(F2::Mul, &ty, a.clone(), a)?;
            }
            if n < 0 {
                r = self.fbin(F2::Div, &ty, one, r)?;
            }
            return Ok(Some(r));
        }
        if root("vector.reduce.") {
            let what = b["vector.reduce.".len()..].split('.').next().unwrap_or("").to_string();
            let vi = args.len() - 1;
            let n = args[vi].0.count();
            let et = args[vi].0.elem(0);
            let mut acc = if vi == 1 { Some(av[0].clone()) } else { None };
            for i in 0..n {
                let x = Self::elt(&av[vi], i);
                acc = Some(match acc {
                    None => x,
                    Some(a) => match what.as_str() {
                        "add" => self.bin(Bin::Add, &et, a, x)?,
                        "mul" => self.bin(Bin::Mul, &et, a, x)?,
                        "and" => self.bin(Bin::And, &et, a, x)?,
                        "or" => self.bin(Bin::Or, &et, a, x)?,
                        "xor" => self.bin(Bin::Xor, &et, a, x)?,
                        "fadd" => self.fbin(F2::Add, &et, a, x)?,
                        "fmul" => self.fbin(F2::Mul, &et, a, x)?,
                        "smax" => self.minmax(&et, a, x, true, true)?,
                        "smin" => self.minmax(&et, a, x, true, false)?,
                        "umax" => self.minmax(&et, a, x, false, true)?,
                        "umin" => self.minmax(&et, a, x, false, false)?,
                        _ => return unsup(name),
                    },
                });
            }
            return Ok(Some(acc.unwrap_or(V::U)));
        }
        unsup(format!("intrinsic {}", name))
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let b = match v {
            V::C(c) => B::C(*c as u8),
            V::S(t) => B::S(*t, 0),
            _ => B::U,
        };
        self.with_mut(st, d, n, |_, o, off| {
            for k in 0..n as usize {
                o.bytes[off + k] = b;
            }
            Ok(())
        })
    }

    fn konst_arg(&mut self, v: &V) -> R<i128> {
        match v {
            V::C(c) => Ok(*c as i128),
            _ => unsup("harness intrinsic with a symbolic parameter"),
        }
    }

    fn harness(&mut self, st: &mut State, name: &str, av: &[V]) -> R<Option<V>> {
        match name {
            "rs_int" => {
                let w = self.konst_arg(&av[0])? as u32;
                let lo = self.konst_arg(&av[1])? as u64 as i64 as i128;
                let hi = self.konst_arg(&av[2])? as u64 as i64 as i128;
                let t = self.fresh(st, w, lo, hi, true);
                st.inputs.push(t);
                let t = if w < 64 { self.tm.sext(t, 64) } else { t };
                Ok(Some(self.norm(t)))
            }
            "rs_any" => {
                let w = self.konst_arg(&av[0])? as u32;
                let t = self.fresh(st, w, 0, mask(w) as i128, false);
                st.inputs.push(t);
                let t = if w < 64 { self.tm.zext(t, 64) } else { t };
                Ok(Some(self.norm(t)))
            }
            "rs_choice" => {
                let lo = self.konst_arg(&av[0])?;
                let hi = self.konst_arg(&av[1])?;
                let t = self.fresh(st, 32, lo, hi, false);
                let x = if lo == hi { lo as u128 } else { self.concretize(st, &V::S(t), 32)? };
                st.inputs.push(t);
                st.choices.push(x as u64);
                Ok(Some(V::C(x)))
            }
            "rs_shard" => {
                let mut h: u64 = 0xcbf29ce484222325;
                for c in &st.choices {
                    h = (h ^ c).wrapping_mul(0x100000001b3);
                    h ^= h >> 29;
                }
                // only the first call on a path distributes work
                let first = !std::mem::replace(&mut st.sharded, true);
                if first && self.cfg.nshards > 1 && h % self.cfg.nshards != self.cfg.shard {
                    return Err(Stop::Drop);
                }
                Ok(None)
            }
            "rs_assume" => {
                match &av[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Drop);
                        }
                    }
                    V::S(t) => {
                        let t = *t;
                        if self.eval_in(&st.model, t) == 0 {
                            match self.feasible(st, t)? {
                                Some(m) => st.model = m,
                                None => return Err(Stop::Drop),
                            }
                        }
                        st.pc.push(t);
                    }
                    _ => return viol("uninit", "assumption over an uninitialised value"),
                }
                Ok(None)
            }
            "rs_assert" => {
                let id = self.konst_arg(&av[1])? as u32;
                st.asserts += 1;
                match &av[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            let m = st.model.clone();
                            self.report(st, &m, "assert", format!("assertion {} fails", id), Some(id));
                            return Err(Stop::Drop);
                        }
                        self.rep.asserts_normalised += 1;
                    }
                    V::S(t) => st.pending.push((*t, id)),
                    _ => return viol("uninit", format!("assertion {} over an uninitialised value", id)),
                }
                Ok(None)
            }
            "rs_panic_if" => {
                st.panic_mode = match &av[0] {
                    V::C(c) => {
                        if c & 1 == 1 {
                            let t = self.tm.boolc(true);
                            PanicMode::If(t)
                        } else {
                            PanicMode::Never
                        }
                    }
                    V::S(t) => PanicMode::If(*t),
                    _ => return viol("uninit", "panic condition"),
                };
                Ok(None)
            }
            "rs_panic_ok" => {
                st.panic_mode = PanicMode::Ok;
                Ok(None)
            }
            "rs_panic_end" => {
                let pm = st.panic_mode;
                st.panic_mode = PanicMode::Never;
                if let PanicMode::If(p) = pm {
                    let m = self.feasible(st, p)?;
                    if let Some(m) = m {
                        self.report(st, &m, "no-rejection", "invalid input was accepted (no panic)".into(), None);
                        return Err(Stop::Drop);
                    }
                    st.asserts += 1;
                }
                Ok(None)
            }
            "rs_observe" => {
                st.observes.push(av[0].clone());
                Ok(None)
            }
            "rs_cover" => {
                let id = self.konst_arg(&av[0])? as u32;
                st.covers.push(id);
                Ok(None)
            }
            // "may this branch be taken": concretise a boolean early, so that an oracle can branch on it
            "rs_tier" => Ok(Some(V::C(self.cfg.tier as u128))),
            "rs_native" => Ok(Some(V::C(0))),
            "rs_ptr_id" => Ok(Some(av[0].clone())),
            _ => unsup(format!("harness intrinsic {}", name)),
        }
    }

    fn bytes_eq(&mut self, st: &mut State, a: u64, b: u64, n: u64, order: bool) -> R<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let (oa, fa) = self.read_obj(st, a, n, "read")?;
        let (ob, fb) = self.read_obj(st, b, n, "read")?;
        let sa: Vec<B> = oa.bytes[fa..fa + n as usize].to_vec();
        let sb: Vec<B> = ob.bytes[fb..fb + n as usize].to_vec();
        if sa.iter().chain(sb.iter()).any(|x| matches!(x, B::U)) {
            return viol("uninit", "comparison of uninitialised memory");
        }
        if sa.iter().chain(sb.iter()).all(|x| matches!(x, B::C(_))) {
            for (x, y) in sa.iter().zip(&sb) {
                if let (B::C(x), B::C(y)) = (x, y) {
                    if x != y {
                        return Ok(V::C(if x < y { mask(32) } else { 1 }));
                    }
                }
            }
            return Ok(V::C(0));
        }
        if order {
            // bytewise lexicographic, forking
            for k in 0..n as usize {
                let (x, y) = (self.bytes_term(&sa[k..k + 1]), self.bytes_term(&sb[k..k + 1]));
                let e = self.tm.eq(x, y);
                let v = self.norm(e);
                if !self.decide(st, v)? {
                    let l = self.tm.ult(x, y);
                    let v = self.norm(l);
                    let lt = self.decide(st, v)?;
                    return Ok(V::C(if lt { mask(32) } else { 1 }));
                }
            }
            return Ok(V::C(0));
        }
        let mut all = self.tm.boolc(true);
        let mut k = 0usize;
        while k < n as usize {
            // compare in the largest aligned pieces that share a term
            let mut l = 1;
            if let B::S(t, 0) = sa[k] {
                let nb = (self.tm.w(t) as usize + 7) / 8;
                if k + nb <= n as usize {
                    l = nb;
                }
            } else if let B::S(t, 0) = sb[k] {
                let nb = (self.tm.w(t) as usize + 7) / 8;
                if k + nb <= n as usize {
                    l = nb;
                }
            }
            let (mut x, mut y) = (self.bytes_term(&sa[k..k + l]), self.bytes_term(&sb[k..k + l]));
            if !matches!(self.tm.sort(x), Sort::BV(_)) {
                x = self.tm.fbits(x);
            }
            if !matches!(self.tm.sort(y), Sort::BV(_)) {
                y = self.tm.fbits(y);
            }
            let e = self.tm.eq(x, y);
            all = self.tm.and(all, e);
            k += l;
        }
        let (z, o) = (self.tm.konst(0, 32), self.tm.konst(1, 32));
        let t = self.tm.ite(all, z, o);
        Ok(self.norm(t))
    }

    pub(crate) fn external(&mut self, st: &mut State, name: &str, rty: &Ty, args: &[(Ty, Opnd)], av: Vec<V>) -> R<Option<V>> {
        match name {
            "memcmp" | "bcmp" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let a = self.addr(st, &av[0])?;
                let b = self.addr(st, &av[1])?;
                Ok(Some(self.bytes_eq(st, a, b, n, name == "memcmp")?))
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let d = self.addr(st, &av[0])?;
                let s = self.addr(st, &av[1])?;
                self.memcpy(st, d, s, n)?;
                Ok(Some(av[0].clone()))
            }
            "memset" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let d = self.addr(st, &av[0])?;
                let v = av[1].clone();
                self.memset(st, d, &v, n)?;
                Ok(Some(av[0].clone()))
            }
            "strlen" => {
                let a = self.addr(st, &av[0])?;
                let mut n = 0u64;
                loop {
                    let (o, off) = self.read_obj(st, a.wrapping_add(n), 1, "read")?;
                    match o.bytes[off] {
                        B::C(0) => return Ok(Some(V::C(n as u128))),
                        B::C(_) => n += 1,
                        _ => return unsup("strlen"),
                    }
                }
            }
            "fmod" | "fmodf" => Ok(Some(self.fbin(F2::Rem, rty, av[0].clone(), av[1].clone())?)),
            "pow" | "powf" => Ok(Some(self.fbin(F2::Pow, rty, av[0].clone(), av[1].clone())?)),
            "fmin" | "fminf" => Ok(Some(self.fbin(F2::Min, rty, av[0].clone(), av[1].clone())?)),
            "fmax" | "fmaxf" => Ok(Some(self.fbin(F2::Max, rty, av[0].clone(), av[1].clone())?)),
            "exp" | "expf" => Ok(Some(self.f1v(F1::Exp, rty, av[0].clone())?)),
            "exp2" | "exp2f" => Ok(Some(self.f1v(F1::Exp2, rty, av[0].clone())?)),
            "log" | "logf" => Ok(Some(self.f1v(F1::Log, rty, av[0].clone())?)),
            "log2" | "log2f" => Ok(Some(self.f1v(F1::Log2, rty, av[0].clone())?)),
            "sin" | "sinf" => Ok(Some(self.f1v(F1::Sin, rty, av[0].clone())?)),
            "cos" | "cosf" => Ok(Some(self.f1v(F1::Cos, rty, av[0].clone())?)),
            "floor" | "floorf" => Ok(Some(self.f1v(F1::Floor, rty, av[0].clone())?)),
            "ceil" | "ceilf" => Ok(Some(self.f1v(F1::Ceil, rty, av[0].clone())?)),
            "abort" => viol("abort", "abort called"),
            _ => {
                let _ = args;
                unsup(format!("external function {}", name))
            }
        }
    }
}
