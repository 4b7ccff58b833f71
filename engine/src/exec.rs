//! Path-forking symbolic interpreter.

use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    C(u8),
    U,
    S(T, u8),
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<B>,
    pub align: u64,
    pub writable: bool,
    pub leak_ok: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub stack_base: usize,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PanicMode {
    Never,
    If(T),
    Ok,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub freed: Rc<HashMap<u64, String>>,
    pub stack: Vec<Rc<Obj>>,
    pub globals: Rc<HashMap<usize, Rc<Obj>>>,
    pub pc: Vec<T>,
    pub model: Rc<HashMap<u32, u128>>,
    pub inputs: Vec<T>,
    pub pending: Vec<(T, u32)>,
    pub observes: Vec<V>,
    pub panic_mode: PanicMode,
    pub steps: u64,
    pub asserts: u64,
    pub covers: Vec<u32>,
    pub sharded: bool,
    pub choices: Vec<u64>,
    pub live_limit: usize,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Drop,
    Panic(String, String),
    Violation(String, String),
    Unsupported(String),
}

pub(crate) type R<X> = Result<X, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<u128>,
    pub assert_id: Option<u32>,
}

pub struct Sample {
    pub inputs: Vec<u128>,
    pub observes: Vec<u128>,
    pub outcome: String,
}

#[derive(Default)]
pub struct Report {
    pub paths_done: u64,
    pub paths_panic: u64,
    pub paths_dropped: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_normalised: u64,
    pub asserts_solver: u64,
    pub decided_by_normalisation: u64,
    pub violations: Vec<Violation>,
    pub unsupported: Vec<String>,
    pub samples: Vec<Sample>,
    pub functions: BTreeMap<String, u64>,
    pub covers: BTreeMap<u32, u64>,
    pub complete: bool,
    pub wall: f64,
    pub queries: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cache: u64,
    pub q_time: f64,
    pub cross_checked: u64,
    pub max_steps_path: u64,
    pub stubs: BTreeMap<String, u64>,
}

/// The time by which the exploration ends; shared by all threads. A violation brings it forward.
#[derive(Clone)]
pub struct Deadline {
    start: Instant,
    millis: std::sync::Arc<std::sync::atomic::AtomicU64>,
}

const GRACE_AFTER_VIOLATION: u64 = 90_000;

impl Deadline {
    pub fn new(secs: u64) -> Deadline {
        Deadline { start: Instant::now(), millis: std::sync::Arc::new((secs * 1000).into()) }
    }

    pub fn passed(&self) -> bool {
        self.start.elapsed().as_millis() as u64 > self.millis.load(std::sync::atomic::Ordering::Relaxed)
    }

    fn shorten(&self, millis: u64) {
        let t = self.start.elapsed().as_millis() as u64 + millis;
        self.millis.fetch_min(t, std::sync::atomic::Ordering::Relaxed);
    }
}

pub struct Cfg {
    pub shard: u64,
    pub nshards: u64,
    pub max_steps: u64,
    pub deadline: Deadline,
    pub max_violations: usize,
    pub nsamples: usize,
    pub trace: bool,
    pub tier: u64,
}

pub struct Engine {
    pub m: Arc<Module>,
    pub tm: Terms,
    pub smt: Smt,
    funcs: HashMap<String, Rc<Func>>,
    stubs: HashMap<String, Stub>,
    gimg: HashMap<usize, Rc<Obj>>,
    pub work: Vec<State>,
    pub rep: Report,
    pub cfg: Cfg,
    executed: HashSet<*const Func>,
    varidx: HashMap<String, T>,
    seen: u64,
    rng: u64,
    /// terms proved true / false for all values of the variables
    valid: HashSet<T>,
    invalid: HashSet<T>,
    renormed: HashMap<T, T>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stub {
    None,
    Panic,
    UbPanic,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Noop,
    FormatInner,
    HashKeys,
    Intrinsic,
    External,
}

fn classify(name: &str, defined: bool) -> Stub {
    if name.starts_with("llvm.") || name.starts_with("rs_") {
        return Stub::Intrinsic;
    }
    if name.contains("___rust_alloc_zeroed") {
        return Stub::AllocZeroed;
    }
    if name.contains("___rust_alloc_error_handler") || name.contains("5alloc5alloc18handle_alloc_error") {
        return Stub::Panic;
    }
    if name.contains("___rust_no_alloc_shim") {
        return Stub::Noop;
    }
    if name.contains("___rust_alloc") {
        return Stub::Alloc;
    }
    if name.contains("___rust_dealloc") {
        return Stub::Dealloc;
    }
    if name.contains("___rust_realloc") {
        return Stub::Realloc;
    }
    if name.starts_with("_ZN4core9panicking") {
        if name.contains("panic_nounwind")
            || name.contains("misaligned_pointer")
            || name.contains("null_pointer_deref")
            || name.contains("panic_invalid_enum")
            || name.contains("panic_cannot_unwind")
        {
            return Stub::UbPanic;
        }
        if name.contains("assert_failed") || name.contains("panic") || name.contains("unreachable") {
            return Stub::Panic;
        }
        return if defined { Stub::None } else { Stub::Panic };
    }
    if name.starts_with("_ZN3std9panicking") || name.contains("rust_begin_unwind") {
        return Stub::Panic;
    }
    if name.starts_with("_ZN3std2io5stdio7_eprint") || name.starts_with("_ZN3std2io5stdio6_print") {
        return Stub::Noop;
    }
    if name.starts_with("_ZN5alloc3fmt6format12format_inner") {
        return Stub::FormatInner;
    }
    if name.contains("hashmap_random_keys") {
        return Stub::HashKeys;
    }
    if defined {
        Stub::None
    } else {
        Stub::External
    }
}

pub fn demangle(n: &str) -> String {
    // legacy mangling
    let inner = if let Some(r) = n.strip_prefix("_ZN") { r } else { return n.to_string() };
    let b = inner.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut l = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            l = l * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + l > b.len() {
            break;
        }
        parts.push(inner[i..i + l].to_string());
        i += l;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let mut s = parts.join("::");
    for (a, b) in [
        ("$LT$", "<"),
        ("$GT$", ">"),
        ("$u20$", " "),
        ("$u27$", "'"),
        ("$u5b$", "["),
        ("$u5d$", "]"),
        ("$u7b$", "{"),
        ("$u7d$", "}"),
        ("$C$", ","),
        ("$RF$", "&"),
        ("$BP$", "*"),
        ("$LP$", "("),
        ("$RP$", ")"),
        ("..", "::"),
    ] {
        s = s.replace(a, b);
    }
    s
}

pub(crate) fn viol<X>(kind: &str, msg: impl Into<String>) -> R<X> {
    Err(Stop::Violation(kind.to_string(), msg.into()))
}
pub(crate) fn unsup<X>(msg: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(msg.into()))
}

impl Engine {
    pub fn new(m: Arc<Module>, solver: Vec<String>, timeout_ms: u64, cfg: Cfg) -> Engine {
        Engine {
            m,
            tm: Terms::new(),
            smt: Smt::new(solver, timeout_ms),
            funcs: HashMap::new(),
            stubs: HashMap::new(),
            gimg: HashMap::new(),
            work: vec![],
            rep: Report::default(),
            cfg,
            executed: HashSet::new(),
            varidx: HashMap::new(),
            seen: 0,
            rng: 0x9E3779B97F4A7C15,
            valid: HashSet::new(),
            invalid: HashSet::new(),
            renormed: HashMap::new(),
        }
    }

    pub fn reseed(&mut self, seed: u64) {
        self.rng ^= seed.wrapping_mul(0xD1342543DE82EF95);
        self.rng |= 1;
    }

    fn func(&mut self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Some(f.clone());
        }
        let f = Rc::new(self.m.parse_func(name)?);
        self.funcs.insert(name.to_string(), f.clone());
        Some(f)
    }

    // ------------------------------------------------------------ solver helpers
    pub(crate) fn eval_in(&self, model: &HashMap<u32, u128>, t: T) -> u128 {
        let tm = &self.tm;
        let f = |v: u32| -> u128 {
            match model.get(&v) {
                Some(x) => *x,
                None => tm.vars[v as usize].lo as u128,
            }
        };
        let mut memo = HashMap::new();
        tm.eval(t, &f, &mut memo)
    }

    /// Constraints of `pc` connected (through shared variables) to `t`.
    fn slice(&mut self, pc: &[T], t: T) -> Vec<T> {
        let mut vars: HashSet<u32> = self.tm.vars_of(t).iter().copied().collect();
        let mut out = vec![t];
        let mut rest: Vec<T> = pc.to_vec();
        loop {
            let mut changed = false;
            let mut next = vec![];
            for c in rest {
                let vs = self.tm.vars_of(c);
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter().copied());
                    out.push(c);
                    changed = true;
                } else {
                    next.push(c);
                }
            }
            rest = next;
            if !changed {
                break;
            }
        }
        out
    }

    /// Is pc && t satisfiable?  Returns a full model for the state when it is.
    pub(crate) fn feasible(&mut self, st: &State, t: T) -> R<Option<Rc<HashMap<u32, u128>>>> {
        if let Some(c) = self.tm.as_const(t) {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        if self.invalid.contains(&t) {
            return Ok(None);
        }
        if self.cfg.deadline.passed() {
            return unsup("time budget exhausted");
        }
        let cs = self.slice(&st.pc, t);
        let mut r = self.smt.check(&self.tm, &cs);
        if matches!(r, Res::Unknown(_)) && self.tm.raw {
            // second attempt on the normalised terms
            let cs: Vec<T> = cs.iter().map(|c| self.tm.renorm(*c, &mut self.renormed)).collect();
            if cs.iter().any(|c| self.tm.as_const(*c) == Some(0)) {
                self.rep.decided_by_normalisation += 1;
            }
            r = self.smt.check(&self.tm, &cs);
        }
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut full = (*st.model).clone();
                for (k, v) in m {
                    full.insert(k, v);
                }
                Ok(Some(Rc::new(full)))
            }
            Res::Unknown(s) => unsup(format!("solver: unknown ({})", s)),
        }
    }

    /// Decide a boolean value, forking when both sides are feasible.
    pub(crate) fn decide(&mut self, st: &mut State, v: V) -> R<bool> {
        match v {
            V::C(c) => Ok(c & 1 == 1),
            V::U | V::P(_) => viol("uninit", "branch on an uninitialised value"),
            V::A(_) => unsup("branch on aggregate"),
            V::S(t) => {
                let cur = self.eval_in(&st.model, t) == 1;
                let nt = self.tm.not(t);
                let (taken, other) = if cur { (t, nt) } else { (nt, t) };
                if st.pc.contains(&taken) {
                    return Ok(cur);
                }
                if self.valid.contains(&taken) {
                    return Ok(cur);
                }
                if let Some(m) = self.feasible(st, other)? {
                    let mut o = st.clone();
                    o.pc.push(other);
                    o.model = m;
                    self.rep.forks += 1;
                    self.work.push(o);
                    st.pc.push(taken);
                }
                Ok(cur)
            }
        }
    }

    /// Concretise by exhaustive forking over all feasible values.
    pub(crate) fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::U | V::P(_) => viol("uninit", "uninitialised value used as an address, length or selector"),
            V::A(_) => unsup("concretise aggregate"),
            V::S(t) => {
                let x = self.eval_in(&st.model, *t);
                let k = self.tm.konst(x, w);
                let e = self.tm.eq(*t, k);
                let ne = self.tm.not(e);
                if let Some(m) = self.feasible(st, ne)? {
                    let mut o = st.clone();
                    o.pc.push(ne);
                    o.model = m;
                    self.rep.forks += 1;
                    self.work.push(o);
                    st.pc.push(e);
                }
                Ok(x)
            }
        }
    }

    pub fn term(&mut self, v: &V, ty: &Ty) -> R<T> {
        match v {
            V::S(t) => Ok(*t),
            V::C(c) => Ok(match ty {
                Ty::F32 => self.tm.fconst(*c as u64, Sort::F32),
                Ty::F64 => self.tm.fconst(*c as u64, Sort::F64),
                _ => self.tm.konst(*c, ty.bits()),
            }),
            V::U | V::P(_) => viol("uninit", "operation on an uninitialised value"),
            V::A(_) => unsup("aggregate as scalar term"),
        }
    }
    pub(crate) fn norm(&self, t: T) -> V {
        match self.tm.n(t).op {
            Op::Const(c) => V::C(c),
            Op::FConst(b) => V::C(b as u128),
            _ => V::S(t),
        }
    }

    // ------------------------------------------------------------ memory
    fn global_obj(&mut self, idx: usize) -> R<Rc<Obj>> {
        if let Some(o) = self.gimg.get(&idx) {
            return Ok(o.clone());
        }
        let m = self.m.clone();
        let (ty, c) = m.parse_global(idx);
        let v = match m.value(&ty, &c) {
            Ok(v) => v,
            Err(e) => return unsup(format!("global initialiser: {}", e)),
        };
        let mut o = Obj {
            bytes: vec![B::C(0); ty.size() as usize],
            align: 16,
            writable: !m.global_list[idx].1.constant,
            leak_ok: true,
        };
        self.put(&mut o, 0, &ty, &v)?;
        let o = Rc::new(o);
        self.gimg.insert(idx, o.clone());
        Ok(o)
    }

    fn describe(&self, st: &State, addr: u64) -> String {
        let kind = addr >> 60;
        let id = (addr >> 32) & 0x0fff_ffff;
        let off = addr as u32;
        match kind {
            K_HEAP => match st.heap.get(id as usize) {
                Some(Some(o)) => format!("heap block #{} of {} bytes, offset {}", id, o.bytes.len(), off as i32),
                Some(None) => format!("freed heap block #{}, offset {}", id, off as i32),
                None => format!("address {:#x}", addr),
            },
            K_STACK => format!("stack slot #{}, offset {}", id, off as i32),
            K_GLOBAL => format!("global #{}, offset {}", id, off as i32),
            _ => format!("address {:#x}", addr),
        }
    }

    pub(crate) fn read_obj(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(Rc<Obj>, usize)> {
        let kind = addr >> 60;
        let id = ((addr >> 32) & 0x0fff_ffff) as usize;
        let off = addr & 0xffff_ffff;
        let o = match kind {
            K_HEAP => match st.heap.get(id) {
                Some(Some(o)) => o.clone(),
                Some(None) => {
                    return viol("use-after-free", format!("{} of {} bytes in {}", what, n, self.describe(st, addr)))
                }
                None => {
                    return viol("out-of-bounds", format!("{} of {} bytes at {}", what, n, self.describe(st, addr)))
                }
            },
            K_STACK => match st.stack.get(id) {
                Some(o) => o.clone(),
                None => return viol("use-after-free", format!("{} through dangling stack pointer", what)),
            },
            K_GLOBAL => {
                if let Some(o) = st.globals.get(&id) {
                    o.clone()
                } else if id < self.m.global_list.len() {
                    self.global_obj(id)?
                } else {
                    return viol("out-of-bounds", format!("{} at {:#x}", what, addr));
                }
            }
            _ => {
                return viol(
                    "out-of-bounds",
                    format!("{} of {} bytes at invalid address {:#x}", what, n, addr),
                )
            }
        };
        if off + n > o.bytes.len() as u64 {
            return viol("out-of-bounds", format!("{} of {} bytes at {}", what, n, self.describe(st, addr)));
        }
        Ok((o, off as usize))
    }

    pub(crate) fn with_mut<X>(
        &mut self,
        st: &mut State,
        addr: u64,
        n: u64,
        f: impl FnOnce(&mut Engine, &mut Obj, usize) -> R<X>,
    ) -> R<X> {
        let (probe, off) = self.read_obj(st, addr, n, "write")?;
        if !probe.writable {
            return viol("write-to-constant", format!("write at {}", self.describe(st, addr)));
        }
        drop(probe);
        let kind = addr >> 60;
        let id = ((addr >> 32) & 0x0fff_ffff) as usize;
        match kind {
            K_HEAP => {
                let o = st.heap[id].as_mut().unwrap();
                f(self, Rc::make_mut(o), off)
            }
            K_STACK => f(self, Rc::make_mut(&mut st.stack[id]), off),
            _ => {
                let mut o = match st.globals.get(&id) {
                    Some(o) => (**o).clone(),
                    None => (*self.global_obj(id)?).clone(),
                };
                let r = f(self, &mut o, off)?;
                Rc::make_mut(&mut st.globals).insert(id, Rc::new(o));
                Ok(r)
            }
        }
    }

    fn put(&mut self, o: &mut Obj, off: usize, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..) => {
                match v {
                    V::A(xs) => {
                        for i in 0..ty.count() {
                            self.put(o, off + ty.field_offset(i) as usize, &ty.elem(i), &xs[i])?;
                        }
                    }
                    _ => {
                        for k in 0..ty.size() as usize {
                            o.bytes[off + k] = B::U;
                        }
                    }
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size() as usize;
                match v {
                    V::C(c) => {
                        for k in 0..n {
                            o.bytes[off + k] = B::C((c >> (8 * k)) as u8);
                        }
                    }
                    V::U => {
                        for k in 0..n {
                            o.bytes[off + k] = B::U;
                        }
                    }
                    V::S(t) => {
                        let mut t = *t;
                        let w = self.tm.w(t);
                        if (w as usize) < n * 8 {
                            t = self.tm.zext(t, n as u32 * 8);
                        }
                        for k in 0..n {
                            o.bytes[off + k] = B::S(t, k as u8);
                        }
                    }
                    V::P(bs) => {
                        for k in 0..n {
                            o.bytes[off + k] = bs.get(k).copied().unwrap_or(B::C(0));
                        }
                    }
                    V::A(_) => return unsup("aggregate stored as scalar"),
                }
                Ok(())
            }
        }
    }

    fn get(&mut self, o: &Obj, off: usize, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..) => {
                let mut xs = vec![];
                for i in 0..ty.count() {
                    xs.push(self.get(o, off + ty.field_offset(i) as usize, &ty.elem(i))?);
                }
                Ok(V::A(Rc::new(xs)))
            }
            _ => {
                let n = ty.store_size() as usize;
                let w = ty.bits();
                let bs = &o.bytes[off..off + n];
                let mut acc: u128 = 0;
                let mut allc = true;
                let mut anyu = false;
                for (k, b) in bs.iter().enumerate() {
                    match b {
                        B::C(x) => acc |= (*x as u128) << (8 * k),
                        B::U => {
                            anyu = true;
                            allc = false;
                        }
                        B::S(..) => allc = false,
                    }
                }
                if allc {
                    return Ok(V::C(acc & mask(w)));
                }
                if anyu {
                    if bs.iter().all(|b| *b == B::U) || w as usize != 8 * n {
                        return Ok(V::U);
                    }
                    return Ok(V::P(Rc::new(bs.to_vec())));
                }
                let t = self.bytes_term(bs);
                let fl = matches!(ty, Ty::F32 | Ty::F64);
                let srt = if *ty == Ty::F32 { Sort::F32 } else { Sort::F64 };
                let r = match (self.tm.sort(t), fl) {
                    (Sort::BV(_), true) => self.tm.ffrombits(t, srt),
                    (Sort::BV(wt), false) => {
                        if wt > w {
                            self.tm.extract(t, w - 1, 0)
                        } else {
                            t
                        }
                    }
                    (_, true) => t,
                    (_, false) => self.tm.fbits(t),
                };
                Ok(self.norm(r))
            }
        }
    }

    fn from_bytes(&mut self, bs: &[B], ty: &Ty) -> R<V> {
        let o = Obj { bytes: bs.to_vec(), align: 1, writable: false, leak_ok: true };
        self.get(&o, 0, ty)
    }

    /// Term for a run of bytes (no undefined byte among them).
    pub(crate) fn bytes_term(&mut self, bs: &[B]) -> T {
        if let B::S(t, 0) = bs[0] {
            let nb = (self.tm.w(t) as usize + 7) / 8;
            if nb == bs.len() && bs.iter().enumerate().all(|(k, b)| *b == B::S(t, k as u8)) {
                return t;
            }
        }
        let mut acc: Option<T> = None;
        let mut k = 0;
        while k < bs.len() {
            let (piece, len) = match bs[k] {
                B::C(x) => (self.tm.konst(x as u128, 8), 1),
                B::S(t, i) => {
                    let mut l = 1;
                    while k + l < bs.len() && bs[k + l] == B::S(t, i + l as u8) {
                        l += 1;
                    }
                    let bt = match self.tm.sort(t) {
                        Sort::BV(_) => t,
                        _ => self.tm.fbits(t),
                    };
                    let lo = i as u32 * 8;
                    let hi = ((i as u32 + l as u32) * 8 - 1).min(self.tm.w(bt) - 1);
                    (self.tm.extract(bt, hi, lo), l)
                }
                B::U => (self.tm.konst(0, 8), 1),
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => self.tm.concat(piece, a),
            });
            k += len;
        }
        acc.unwrap()
    }

    pub(crate) fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        Ok(self.concretize(st, v, 64)? as u64)
    }

    fn alloc_heap(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > 1 << 24 {
            return unsup(format!("allocation of {} bytes", size));
        }
        let id = st.heap.len() as u64;
        st.heap.push(Some(Rc::new(Obj {
            bytes: vec![if zero { B::C(0) } else { B::U }; size as usize],
            align,
            writable: true,
            leak_ok: false,
        })));
        Ok(mkaddr(K_HEAP, id))
    }

    fn dealloc_heap(&mut self, st: &mut State, a: u64, size: Option<u64>, align: Option<u64>) -> R<()> {
        let kind = a >> 60;
        let id = ((a >> 32) & 0x0fff_ffff) as usize;
        if kind != K_HEAP || (a & 0xffff_ffff) != 0 || id >= st.heap.len() {
            return viol("invalid-free", format!("dealloc of {}", self.describe(st, a)));
        }
        match &st.heap[id] {
            None => viol("double-free", format!("dealloc of {}", self.describe(st, a))),
            Some(o) => {
                if let Some(s) = size {
                    if s != o.bytes.len() as u64 {
                        return viol(
                            "dealloc-size",
                            format!("block of {} bytes deallocated with size {}", o.bytes.len(), s),
                        );
                    }
                }
                if let Some(al) = align {
                    if al != o.align {
                        return viol(
                            "dealloc-align",
                            format!("block of alignment {} deallocated with alignment {}", o.align, al),
                        );
                    }
                }
                st.heap[id] = None;
                Ok(())
            }
        }
    }

    pub(crate) fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.read_obj(st, s, n, "read")?;
        let bs: Vec<B> = o.bytes[off..off + n as usize].to_vec();
        drop(o);
        self.with_mut(st, d, n, |_, o, off| {
            o.bytes[off..off + n as usize].copy_from_slice(&bs);
            Ok(())
        })
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, entry: &str) {
        let t0 = Instant::now();
        let f = match self.func(entry) {
            Some(f) => f,
            None => {
                self.rep.unsupported.push(format!("entry {} not found", entry));
                return;
            }
        };
        let mut st = State {
            frames: vec![],
            heap: vec![None],
            freed: Rc::new(HashMap::new()),
            stack: vec![],
            globals: Rc::new(HashMap::new()),
            pc: vec![],
            model: Rc::new(HashMap::new()),
            inputs: vec![],
            pending: vec![],
            observes: vec![],
            panic_mode: PanicMode::Never,
            steps: 0,
            asserts: 0,
            covers: vec![],
            sharded: false,
            choices: vec![],
            live_limit: 0,
        };
        self.push_frame(&mut st, f, vec![], None, None);
        self.work.push(st);
        self.rep.complete = true;
        while let Some(mut st) = self.work.pop() {
            if self.cfg.deadline.passed() {
                self.rep.complete = false;
                self.rep.unsupported.push("time budget exhausted".into());
                break;
            }
            let stop = self.run_path(&mut st);
            self.finish(&mut st, stop);
            if self.rep.violations.len() >= self.cfg.max_violations {
                self.rep.complete = false;
                break;
            }
            if self.rep.unsupported.len() > 5 {
                self.rep.complete = false;
                break;
            }
        }
        self.work.clear();
        self.rep.wall = t0.elapsed().as_secs_f64();
        self.rep.queries = self.smt.queries;
        self.rep.q_sat = self.smt.sat;
        self.rep.q_unsat = self.smt.unsat;
        self.rep.q_unknown = self.smt.unknown;
        self.rep.q_cache = self.smt.cache_hits;
        self.rep.q_time = self.smt.time;
        self.rep.cross_checked = self.smt.cross_checked;
        let _ = Duration::from_secs(0);
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            tick += 1;
            if tick & 0xffff == 0 {
                if self.cfg.deadline.passed() {
                    return Stop::Unsupported("time budget exhausted".into());
                }
            }
            if st.steps > self.cfg.max_steps {
                return Stop::Violation("hang".into(), format!("no termination within {} steps", st.steps));
            }
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| demangle(&f.f.name)).collect()
    }

    fn inputs_of(&self, st: &State, model: &HashMap<u32, u128>) -> Vec<u128> {
        st.inputs.iter().map(|t| self.eval_in(model, *t)).collect()
    }

    pub(crate) fn report(&mut self, st: &State, model: &HashMap<u32, u128>, kind: &str, msg: String, id: Option<u32>) {
        let inputs = self.inputs_of(st, model);
        let trace = self.trace(st);
        self.rep.violations.push(Violation { kind: kind.into(), msg, trace, inputs, assert_id: id });
        self.cfg.deadline.shorten(GRACE_AFTER_VIOLATION);
    }

    /// Check the deferred assertions; true when one of them can fail.
    fn check_pending(&mut self, st: &mut State) -> bool {
        if st.pending.is_empty() {
            return false;
        }
        let mut pend = std::mem::take(&mut st.pending);
        self.rep.asserts_solver += pend.len() as u64;
        // assertions that hold without the path condition are decided once and for all
        pend.retain(|(t, _)| !self.valid.contains(t));
        pend.sort();
        pend.dedup_by_key(|x| x.0);
        if pend.is_empty() {
            return false;
        }
        for group in pend.chunks(64) {
            let mut bad = self.tm.boolc(false);
            for (t, _) in group {
                let n = self.tm.not(*t);
                bad = self.tm.or(bad, n);
            }
            let mut r = self.smt.check(&self.tm, &[bad]);
            if matches!(r, Res::Unknown(_)) && self.tm.raw {
                let b = self.tm.renorm(bad, &mut self.renormed);
                if self.tm.as_const(b) == Some(0) {
                    self.rep.decided_by_normalisation += group.len() as u64;
                }
                r = self.smt.check(&self.tm, &[b]);
            }
            if matches!(r, Res::Unsat) {
                for (t, _) in group {
                    self.valid.insert(*t);
                    let n = self.tm.not(*t);
                    self.invalid.insert(n);
                }
            }
        }
        pend.retain(|(t, _)| !self.valid.contains(t));
        if pend.is_empty() {
            return false;
        }
        let mut bad = self.tm.boolc(false);
        for (t, _) in &pend {
            let n = self.tm.not(*t);
            bad = self.tm.or(bad, n);
        }
        match self.feasible(st, bad) {
            Ok(None) => false,
            Ok(Some(m)) => {
                let mut id = 0;
                for (t, i) in &pend {
                    if self.eval_in(&m, *t) == 0 {
                        id = *i;
                        break;
                    }
                }
                self.report(st, &m, "assert", format!("assertion {} can fail", id), Some(id));
                true
            }
            Err(_) => {
                // one by one
                for (t, i) in &pend {
                    let n = self.tm.not(*t);
                    match self.feasible(st, n) {
                        Ok(None) => {}
                        Ok(Some(m)) => {
                            self.report(st, &m, "assert", format!("assertion {} can fail", i), Some(*i));
                            return true;
                        }
                        Err(e) => {
                            self.rep.unsupported.push(format!("assertion {}: {:?}", i, e));
                            self.rep.complete = false;
                            return true;
                        }
                    }
                }
                false
            }
        }
    }

    fn finish(&mut self, st: &mut State, stop: Stop) {
        self.rep.steps += st.steps;
        self.rep.max_steps_path = self.rep.max_steps_path.max(st.steps);
        self.rep.asserts += st.asserts;
        for c in &st.covers {
            *self.rep.covers.entry(*c).or_insert(0) += 1;
        }
        if !matches!(stop, Stop::Drop) && self.check_pending(st) {
            return;
        }
        let m = st.model.clone();
        let outcome = match stop {
            Stop::Done => {
                // leak check
                let mut live = 0;
                let mut bytes = 0;
                for o in st.heap.iter().flatten() {
                    if !o.leak_ok {
                        live += 1;
                        bytes += o.bytes.len();
                    }
                }
                if live > 0 {
                    self.report(st, &m, "leak", format!("{} block(s), {} bytes still allocated", live, bytes), None);
                    return;
                }
                self.rep.paths_done += 1;
                "ok"
            }
            Stop::Drop => {
                self.rep.paths_dropped += 1;
                return;
            }
            Stop::Panic(loc, msg) => match st.panic_mode {
                PanicMode::Ok => {
                    self.rep.paths_panic += 1;
                    "panic"
                }
                PanicMode::Never => {
                    self.report(st, &m, "panic", format!("unexpected panic at {}: {}", loc, msg), None);
                    return;
                }
                PanicMode::If(p) => {
                    let np = self.tm.not(p);
                    match self.feasible(st, np) {
                        Ok(None) => {
                            self.rep.paths_panic += 1;
                            "panic"
                        }
                        Ok(Some(m)) => {
                            self.report(st, &m, "panic", format!("unexpected panic at {}: {}", loc, msg), None);
                            return;
                        }
                        Err(e) => {
                            self.rep.unsupported.push(format!("{:?}", e));
                            self.rep.complete = false;
                            return;
                        }
                    }
                }
            },
            Stop::Violation(k, msg) => {
                self.report(st, &m, &k, msg, None);
                return;
            }
            Stop::Unsupported(s) => {
                let tr = self.trace(st).into_iter().take(3).collect::<Vec<_>>().join(" < ");
                self.rep.unsupported.push(format!("{} in {}", s, tr));
                self.rep.complete = false;
                return;
            }
        };
        // sample for the native cross-validation
        self.seen += 1;
        let slot = if self.rep.samples.len() < self.cfg.nsamples {
            self.rep.samples.len()
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            (self.rng % self.seen) as usize
        };
        if slot < self.cfg.nsamples {
            let inputs = self.inputs_of(st, &m);
            let mut observes = vec![];
            for v in &st.observes {
                observes.push(match v {
                    V::C(c) => *c,
                    V::S(t) => self.eval_in(&m, *t),
                    _ => u128::MAX,
                });
            }
            let s = Sample { inputs, observes, outcome: outcome.into() };
            if slot < self.rep.samples.len() {
                self.rep.samples[slot] = s;
            } else {
                self.rep.samples.push(s);
            }
        }
    }

    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, ret: Option<u32>, normal: Option<u32>) {
        let mut regs = vec![V::U; f.nregs];
        for ((r, _), a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        if self.executed.insert(Rc::as_ptr(&f)) {
            *self.rep.functions.entry(demangle(&f.name)).or_insert(0) += 1;
        }
        st.frames.push(Frame { f, block: 0, ip: 0, regs, stack_base: st.stack.len(), ret, normal });
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                let mut got = None;
                for (l, o) in inc {
                    if *l == from {
                        got = Some(match o {
                            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                            Opnd::Val(v) => v.clone(),
                            Opnd::Bad(e) => return unsup(e.clone()),
                        });
                        break;
                    }
                }
                match got {
                    Some(v) => vals.push((*d, v)),
                    None => return unsup("phi without incoming edge"),
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }

    fn op(&self, st: &State, o: &Opnd) -> R<V> {
        match o {
            Opnd::Reg(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Opnd::Val(v) => Ok(v.clone()),
            Opnd::Bad(e) => unsup(e.clone()),
        }
    }

    fn set(&self, st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    fn next(&self, st: &mut State) {
        st.frames.last_mut().unwrap().ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip];
        match inst {
            Inst::Alloca(d, size, cnt) => {
                let mut n = *size;
                if let Some((o, each)) = cnt {
                    let v = self.op(st, o)?;
                    n = self.concretize(st, &v, 64)? as u64 * each;
                }
                let id = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj {
                    bytes: vec![B::U; n as usize],
                    align: 16,
                    writable: true,
                    leak_ok: true,
                }));
                self.set(st, *d, V::C(mkaddr(K_STACK, id) as u128));
                self.next(st);
            }
            Inst::Load(d, ty, p) => {
                let pv = self.op(st, p)?;
                let a = self.addr(st, &pv)?;
                let n = ty.store_size();
                let v = if n == 0 {
                    match self.m.value(ty, &Cst::Zero) {
                        Ok(v) => v,
                        Err(e) => return unsup(e),
                    }
                } else {
                    let (o, off) = self.read_obj(st, a, n, "read")?;
                    self.get(&o, off, ty)?
                };
                self.set(st, *d, v);
                self.next(st);
            }
            Inst::Store(ty, v, p) => {
                let pv = self.op(st, p)?;
                let a = self.addr(st, &pv)?;
                let v = self.op(st, v)?;
                let n = ty.store_size();
                if n > 0 {
                    self.with_mut(st, a, n, |e, o, off| e.put(o, off, ty, &v))?;
                }
                self.next(st);
            }
            Inst::Gep(d, base, off, dynv) => {
                let b = self.op(st, base)?;
                let r = self.gep(st, b, *off, dynv)?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Bin(d, op, ty, a, b) => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let r = self.map2(ty, x, y, &mut |e, t, x, y| e.bin(*op, t, x, y))?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::FBin(d, op, ty, a, b) => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let fop = match op {
                    FBin::Add => F2::Add,
                    FBin::Sub => F2::Sub,
                    FBin::Mul => F2::Mul,
                    FBin::Div => F2::Div,
                    FBin::Rem => F2::Rem,
                };
                let r = self.map2(ty, x, y, &mut |e, t, x, y| e.fbin(fop, t, x, y))?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::FNeg(d, ty, a) => {
                let x = self.op(st, a)?;
                let r = self.map1(ty, x, &mut |e, t, x| e.f1v(F1::Neg, t, x))?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::ICmp(d, pr, ty, a, b) => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let r = self.map2(ty, x, y, &mut |e, t, x, y| e.icmp(*pr, t, x, y))?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::FCmp(d, pr, ty, a, b) => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let r = self.map2(ty, x, y, &mut |e, t, x, y| e.fcmpv(pr, t, x, y))?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Cast(d, c, ty, a, to) => {
                let x = self.op(st, a)?;
                let r = self.cast(*c, ty, x, to)?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Select(d, cty, c, ty, a, b) => {
                let cv = self.op(st, c)?;
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let r = if let Ty::Vector(..) = cty {
                    match (&cv, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let et = ty.elem(0);
                            let mut out = vec![];
                            for i in 0..c.len() {
                                out.push(self.select(&et, &c[i], &x[i], &y[i])?);
                            }
                            V::A(Rc::new(out))
                        }
                        _ => V::U,
                    }
                } else {
                    self.select(ty, &cv, &x, &y)?
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Freeze(d, ty, a) => {
                let x = self.op(st, a)?;
                let r = match x {
                    V::U => V::C(0),
                    V::P(bs) => {
                        let ds: Vec<B> = bs.iter().map(|b| if *b == B::U { B::C(0) } else { *b }).collect();
                        self.from_bytes(&ds, ty)?
                    }
                    o => o,
                };
                let _ = ty;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::ExtractValue(d, a, _, idx) => {
                let mut x = self.op(st, a)?;
                for i in idx {
                    x = match x {
                        V::A(v) => v[*i].clone(),
                        V::U => V::U,
                        _ => return unsup("extractvalue of scalar"),
                    };
                }
                self.set(st, *d, x);
                self.next(st);
            }
            Inst::InsertValue(d, ty, a, v, idx) => {
                let x = self.op(st, a)?;
                let v = self.op(st, v)?;
                let r = insert(ty, x, v, idx);
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::ExtractElement(d, _, a, i) => {
                let x = self.op(st, a)?;
                let iv = self.op(st, i)?;
                let k = self.concretize(st, &iv, 64)? as usize;
                let r = match x {
                    V::A(v) => v.get(k).cloned().unwrap_or(V::U),
                    _ => V::U,
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::InsertElement(d, ty, a, v, i) => {
                let x = self.op(st, a)?;
                let v = self.op(st, v)?;
                let iv = self.op(st, i)?;
                let k = self.concretize(st, &iv, 64)? as usize;
                let r = insert(ty, x, v, &[k]);
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Shuffle(d, ty, a, b, mask) => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let n = ty.count();
                let at = |k: usize| -> V {
                    let (v, k) = if k < n { (&x, k) } else { (&y, k - n) };
                    match v {
                        V::A(xs) => xs.get(k).cloned().unwrap_or(V::U),
                        _ => V::U,
                    }
                };
                let r = V::A(Rc::new(
                    mask.iter().map(|m| m.map(|k| at(k as usize)).unwrap_or(V::U)).collect(),
                ));
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Fence => self.next(st),
            Inst::AtomicRmw(d, op, p, ty, v) => {
                let pv = self.op(st, p)?;
                let a = self.addr(st, &pv)?;
                let v = self.op(st, v)?;
                let (o, off) = self.read_obj(st, a, ty.store_size(), "read")?;
                let old = self.get(&o, off, ty)?;
                drop(o);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, ty, old.clone(), v)?,
                    "sub" => self.bin(Bin::Sub, ty, old.clone(), v)?,
                    "and" => self.bin(Bin::And, ty, old.clone(), v)?,
                    "or" => self.bin(Bin::Or, ty, old.clone(), v)?,
                    "xor" => self.bin(Bin::Xor, ty, old.clone(), v)?,
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                self.with_mut(st, a, ty.store_size(), |e, o, off| e.put(o, off, ty, &new))?;
                self.set(st, *d, old);
                self.next(st);
            }
            Inst::CmpXchg(d, p, ty, c, n) => {
                let pv = self.op(st, p)?;
                let a = self.addr(st, &pv)?;
                let (c, n) = (self.op(st, c)?, self.op(st, n)?);
                let (o, off) = self.read_obj(st, a, ty.store_size(), "read")?;
                let old = self.get(&o, off, ty)?;
                drop(o);
                let e = self.icmp(IPred::Eq, ty, old.clone(), c)?;
                let ok = self.decide(st, e)?;
                if ok {
                    self.with_mut(st, a, ty.store_size(), |e, o, off| e.put(o, off, ty, &n))?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
                self.next(st);
            }
            Inst::Br(l) => self.jump(st, *l)?,
            Inst::CondBr(c, a, b) => {
                let c = self.op(st, c)?;
                let t = self.decide(st, c)?;
                self.jump(st, if t { *a } else { *b })?;
            }
            Inst::Switch(w, v, def, cases) => {
                let v = self.op(st, v)?;
                match v {
                    V::C(c) => {
                        let t = cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, t)?;
                    }
                    V::U | V::P(_) => return viol("uninit", "switch on an uninitialised value"),
                    V::A(_) => return unsup("switch on aggregate"),
                    V::S(t) => {
                        let cur = self.eval_in(&st.model, t);
                        let mut default_c = self.tm.boolc(true);
                        let mut taken = None;
                        let mut conds = vec![];
                        for (k, l) in cases {
                            let kc = self.tm.konst(*k, *w);
                            let e = self.tm.eq(t, kc);
                            let ne = self.tm.not(e);
                            default_c = self.tm.and(default_c, ne);
                            if *k == cur {
                                taken = Some((e, *l));
                            } else {
                                conds.push((e, *l));
                            }
                        }
                        let taken = match taken {
                            Some(x) => {
                                conds.push((default_c, *def));
                                x
                            }
                            None => (default_c, *def),
                        };
                        let mut forked = false;
                        for (c, l) in conds {
                            if let Some(m) = self.feasible(st, c)? {
                                let mut o = st.clone();
                                o.pc.push(c);
                                o.model = m;
                                self.jump(&mut o, l)?;
                                self.rep.forks += 1;
                                self.work.push(o);
                                forked = true;
                            }
                        }
                        if forked {
                            st.pc.push(taken.0);
                        }
                        self.jump(st, taken.1)?;
                    }
                }
            }
            Inst::Ret(v) => {
                let val = match v {
                    Some((_, o)) => Some(self.op(st, o)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, val) {
                    self.set(st, d, v);
                }
                match fr.normal {
                    Some(l) => self.jump(st, l)?,
                    None => self.next(st),
                }
            }
            Inst::Unreachable => return viol("unreachable", "unreachable code reached"),
            Inst::Unsupported(s) => return unsup(format!("instruction {}", s)),
            Inst::Call(dst, callee, rty, args, normal) => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.op(st, o)?);
                }
                match callee {
                    Callee::Direct(n) => self.call(st, n, *dst, rty, args, av, *normal)?,
                    Callee::Asm(s) => {
                        if rty == &Ty::Void {
                            self.next(st)
                        } else {
                            return unsup(format!("inline asm {}", s));
                        }
                    }
                    Callee::Indirect(o) => {
                        let p = self.op(st, o)?;
                        let a = self.addr(st, &p)?;
                        if a >> 60 != K_FUNC {
                            return viol("bad-call", format!("call through invalid pointer {:#x}", a));
                        }
                        let id = ((a >> 32) & 0x0fff_ffff) as usize;
                        let n = match self.m.func_list.get(id) {
                            Some(n) => n.clone(),
                            None => return viol("bad-call", "call through invalid pointer"),
                        };
                        self.call(st, &n, *dst, rty, args, av, *normal)?
                    }
                }
            }
        }
        Ok(())
    }

    fn gep(&mut self, st: &mut State, b: V, off: i64, dynv: &[GepIdx]) -> R<V> {
        let mut conc: Option<u64> = match b {
            V::C(c) => Some((c as u64).wrapping_add(off as u64)),
            _ => None,
        };
        let mut idx = vec![];
        for GepIdx::Dyn(o, w, scale) in dynv {
            let v = self.op(st, o)?;
            if let V::C(c) = v {
                if let Some(x) = conc {
                    conc = Some(x.wrapping_add((sext128(c, *w) as i64 as u64).wrapping_mul(*scale)));
                    idx.push((v, *w, *scale, true));
                    continue;
                }
            } else {
                conc = None;
            }
            idx.push((v, *w, *scale, false));
        }
        if let Some(x) = conc {
            return Ok(V::C(x as u128));
        }
        if let V::U = b {
            return Ok(V::U);
        }
        let mut t = self.term(&b, &Ty::Ptr)?;
        let k = self.tm.konst(off as u64 as u128, 64);
        t = self.tm.add(t, k);
        for (v, w, scale, _) in idx {
            if let V::U = v {
                return Ok(V::U);
            }
            let x = self.term(&v, &Ty::Int(w))?;
            let x = if w < 64 { self.tm.sext(x, 64) } else { x };
            let k = self.tm.konst(scale as u128, 64);
            let x = self.tm.mul(x, k);
            t = self.tm.add(t, x);
        }
        Ok(self.norm(t))
    }

    // ------------------------------------------------------------ operations
    pub(crate) fn map2(
        &mut self,
        ty: &Ty,
        x: V,
        y: V,
        f: &mut dyn FnMut(&mut Engine, &Ty, V, V) -> R<V>,
    ) -> R<V> {
        if let Ty::Vector(n, et) = ty {
            let mut out = vec![];
            for i in 0..*n as usize {
                let g = |v: &V| match v {
                    V::A(xs) => xs[i].clone(),
                    _ => V::U,
                };
                out.push(f(self, et, g(&x), g(&y))?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        f(self, ty, x, y)
    }
    pub(crate) fn map1(&mut self, ty: &Ty, x: V, f: &mut dyn FnMut(&mut Engine, &Ty, V) -> R<V>) -> R<V> {
        if let Ty::Vector(n, et) = ty {
            let mut out = vec![];
            for i in 0..*n as usize {
                let g = match &x {
                    V::A(xs) => xs[i].clone(),
                    _ => V::U,
                };
                out.push(f(self, et, g)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        f(self, ty, x)
    }

    pub(crate) fn bin(&mut self, op: Bin, ty: &Ty, x: V, y: V) -> R<V> {
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (&x, &y) {
            let (a, b) = (*a, *b);
            let m = mask(w);
            let r = match op {
                Bin::Add => a.wrapping_add(b),
                Bin::Sub => a.wrapping_sub(b),
                Bin::Mul => a.wrapping_mul(b),
                Bin::And => a & b,
                Bin::Or => a | b,
                Bin::Xor => a ^ b,
                _ => {
                    if b == 0 && matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                        return viol("division-by-zero", "division by zero");
                    }
                    eval_b2(to_b2(op), a, b, w)
                }
            };
            return Ok(V::C(r & m));
        }
        if let (V::P(bs), V::C(k)) = (&x, &y) {
            let (k, n) = (*k as usize, bs.len());
            if k % 8 == 0 && k < 8 * n {
                let mut ds = vec![B::C(0); n];
                for i in 0..n {
                    match op {
                        Bin::LShr if i + k / 8 < n => ds[i] = bs[i + k / 8],
                        Bin::Shl if i >= k / 8 => ds[i] = bs[i - k / 8],
                        _ => {}
                    }
                }
                if matches!(op, Bin::LShr | Bin::Shl) {
                    return self.from_bytes(&ds, ty);
                }
            }
            if op == Bin::And {
                let mut ds = vec![];
                for i in 0..n {
                    ds.push(match ((k_of(&y) >> (8 * i)) as u8, bs[i]) {
                        (0, _) => B::C(0),
                        (255, b) => b,
                        _ => B::U,
                    });
                }
                return self.from_bytes(&ds, ty);
            }
        }
        if op == Bin::Or && w % 8 == 0 && (matches!(x, V::P(_)) || matches!(y, V::P(_))) {
            let n = w as usize / 8;
            let bytes = |v: &V| -> Vec<B> {
                match v {
                    V::C(k) => (0..n).map(|i| B::C((k >> (8 * i)) as u8)).collect(),
                    V::S(t) => (0..n).map(|i| B::S(*t, i as u8)).collect(),
                    V::P(bs) => bs.to_vec(),
                    _ => vec![B::U; n],
                }
            };
            let (xs, ys) = (bytes(&x), bytes(&y));
            let ds: Vec<B> = (0..n)
                .map(|i| match (xs[i], ys[i]) {
                    (B::C(0), b) | (b, B::C(0)) => b,
                    (B::C(a), B::C(b)) => B::C(a | b),
                    _ => B::U,
                })
                .collect();
            return self.from_bytes(&ds, ty);
        }
        if let (V::U | V::P(_), _) | (_, V::U | V::P(_)) = (&x, &y) {
            // and/or with absorbing constants keep their value
            return Ok(match (op, &x, &y) {
                (Bin::And, V::C(0), _) | (Bin::And, _, V::C(0)) => V::C(0),
                (Bin::Mul, V::C(0), _) | (Bin::Mul, _, V::C(0)) => V::C(0),
                _ => V::U,
            });
        }
        let (a, b) = (self.term(&x, ty)?, self.term(&y, ty)?);
        let r = match op {
            Bin::Add => self.tm.add(a, b),
            Bin::Sub => self.tm.sub(a, b),
            Bin::Mul => self.tm.mul(a, b),
            _ => self.tm.b2(to_b2(op), a, b),
        };
        Ok(self.norm(r))
    }

    pub(crate) fn fbin(&mut self, op: F2, ty: &Ty, x: V, y: V) -> R<V> {
        let s = if *ty == Ty::F32 { Sort::F32 } else { Sort::F64 };
        if *ty == Ty::Other {
            return unsup("float type");
        }
        if let (V::C(a), V::C(b)) = (&x, &y) {
            return Ok(V::C(eval_f2(op, *a as u64, *b as u64, s) as u128));
        }
        if let (V::U | V::P(_), _) | (_, V::U | V::P(_)) = (&x, &y) {
            return Ok(V::U);
        }
        let (a, b) = (self.term(&x, ty)?, self.term(&y, ty)?);
        let r = self.tm.f2(op, a, b);
        Ok(self.norm(r))
    }

    pub(crate) fn f1v(&mut self, op: F1, ty: &Ty, x: V) -> R<V> {
        if let V::U | V::P(_) = x {
            return Ok(V::U);
        }
        let a = self.term(&x, ty)?;
        let r = self.tm.f1(op, a);
        Ok(self.norm(r))
    }

    fn icmp(&mut self, pr: IPred, ty: &Ty, x: V, y: V) -> R<V> {
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (&x, &y) {
            let (a, b) = (*a, *b);
            let r = match pr {
                IPred::Eq => a == b,
                IPred::Ne => a != b,
                IPred::Ugt => a > b,
                IPred::Uge => a >= b,
                IPred::Ult => a < b,
                IPred::Ule => a <= b,
                IPred::Sgt => sext128(a, w) > sext128(b, w),
                IPred::Sge => sext128(a, w) >= sext128(b, w),
                IPred::Slt => sext128(a, w) < sext128(b, w),
                IPred::Sle => sext128(a, w) <= sext128(b, w),
            };
            return Ok(V::C(r as u128));
        }
        if let (V::U | V::P(_), _) | (_, V::U | V::P(_)) = (&x, &y) {
            return Ok(V::U);
        }
        let (a, b) = (self.term(&x, ty)?, self.term(&y, ty)?);
        let r = match pr {
            IPred::Eq => self.tm.eq(a, b),
            IPred::Ne => {
                let e = self.tm.eq(a, b);
                self.tm.not(e)
            }
            IPred::Ugt => self.tm.ult(b, a),
            IPred::Uge => self.tm.ule(b, a),
            IPred::Ult => self.tm.ult(a, b),
            IPred::Ule => self.tm.ule(a, b),
            IPred::Sgt => self.tm.slt(b, a),
            IPred::Sge => self.tm.sle(b, a),
            IPred::Slt => self.tm.slt(a, b),
            IPred::Sle => self.tm.sle(a, b),
        };
        Ok(self.norm(r))
    }

    fn fcmpv(&mut self, pr: &str, ty: &Ty, x: V, y: V) -> R<V> {
        if let (V::U | V::P(_), _) | (_, V::U | V::P(_)) = (&x, &y) {
            return Ok(V::U);
        }
        let (a, b) = (self.term(&x, ty)?, self.term(&y, ty)?);
        let base = |e: &mut Engine, p: &str| -> T {
            match p {
                "eq" => e.tm.fcmp(FC::Eq, a, b),
                "lt" => e.tm.fcmp(FC::Lt, a, b),
                "le" => e.tm.fcmp(FC::Le, a, b),
                "gt" => e.tm.fcmp(FC::Lt, b, a),
                "ge" => e.tm.fcmp(FC::Le, b, a),
                _ => {
                    // one: ordered and not equal
                    let l = e.tm.fcmp(FC::Lt, a, b);
                    let g = e.tm.fcmp(FC::Lt, b, a);
                    e.tm.or(l, g)
                }
            }
        };
        let r = match pr {
            "true" => self.tm.boolc(true),
            "false" => self.tm.boolc(false),
            "uno" | "ord" => {
                let x = self.tm.fisnan(a);
                let y = self.tm.fisnan(b);
                let u = self.tm.or(x, y);
                if pr == "uno" {
                    u
                } else {
                    self.tm.not(u)
                }
            }
            _ => {
                let (k, p) = pr.split_at(1);
                if k == "o" {
                    base(self, p)
                } else {
                    // unordered-or-p = not (ordered negation)
                    let np = match p {
                        "eq" => "ne",
                        "ne" => "eq",
                        "lt" => "ge",
                        "le" => "gt",
                        "gt" => "le",
                        _ => "lt",
                    };
                    let t = base(self, np);
                    self.tm.not(t)
                }
            }
        };
        Ok(self.norm(r))
    }

    pub(crate) fn select(&mut self, ty: &Ty, c: &V, x: &V, y: &V) -> R<V> {
        match c {
            V::C(k) => Ok(if k & 1 == 1 { x.clone() } else { y.clone() }),
            V::U | V::P(_) => Ok(V::U),
            V::A(_) => unsup("select on aggregate"),
            V::S(t) => match (x, y) {
                (V::A(a), V::A(b)) => {
                    let mut out = vec![];
                    for i in 0..a.len() {
                        out.push(self.select(&ty.elem(i), c, &a[i], &b[i])?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                (V::U | V::P(_), _) | (_, V::U | V::P(_)) => Ok(V::U),
                _ => {
                    let (a, b) = (self.term(x, ty)?, self.term(y, ty)?);
                    let r = self.tm.ite(*t, a, b);
                    Ok(self.norm(r))
                }
            },
        }
    }

    fn cast(&mut self, c: Cast, from: &Ty, x: V, to: &Ty) -> R<V> {
        if c == Cast::BitCast {
            return self.bitcast(from, x, to);
        }
        if let (Ty::Vector(n, fe), Ty::Vector(_, te)) = (from, to) {
            let mut out = vec![];
            for i in 0..*n as usize {
                let g = match &x {
                    V::A(xs) => xs[i].clone(),
                    _ => V::U,
                };
                out.push(self.cast(c, fe, g, te)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if let V::P(bs) = &x {
            let (wt, n) = (to.bits() as usize, (to.bits() as usize + 7) / 8);
            match c {
                Cast::Trunc if bs[..n].iter().all(|b| *b != B::U) => {
                    let v = self.from_bytes(&bs[..n], &Ty::Int(8 * n as u32))?;
                    return if wt == 8 * n { Ok(v) } else { self.cast(Cast::Trunc, &Ty::Int(8 * n as u32), v, to) };
                }
                Cast::Trunc if wt == 8 * n => return self.from_bytes(&bs[..n], to),
                Cast::ZExt if wt == 8 * n => {
                    let mut ds = bs.to_vec();
                    ds.resize(n, B::C(0));
                    return self.from_bytes(&ds, to);
                }
                Cast::PtrToInt | Cast::IntToPtr => return Ok(x),
                _ => return Ok(V::U),
            }
        }
        if let V::U = x {
            return Ok(V::U);
        }
        if let V::A(_) = x {
            return unsup("cast of aggregate");
        }
        let (wf, wt) = (from.bits(), to.bits());
        if let V::C(k) = x {
            match c {
                Cast::Trunc => return Ok(V::C(k & mask(wt))),
                Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => return Ok(V::C(k & mask(wt))),
                Cast::SExt => return Ok(V::C(sext128(k, wf) as u128 & mask(wt))),
                _ => {}
            }
        }
        let srt = if *to == Ty::F32 { Sort::F32 } else { Sort::F64 };
        let t = self.term(&x, from)?;
        let r = match c {
            Cast::Trunc => self.tm.extract(t, wt - 1, 0),
            Cast::ZExt => self.tm.zext(t, wt),
            Cast::SExt => self.tm.sext(t, wt),
            Cast::PtrToInt | Cast::IntToPtr => {
                if wf == wt {
                    t
                } else if wf < wt {
                    self.tm.zext(t, wt)
                } else {
                    self.tm.extract(t, wt - 1, 0)
                }
            }
            Cast::FpTrunc | Cast::FpExt => self.tm.fconv(t, srt),
            Cast::FpToUi => self.tm.ftoi(t, false, wt),
            Cast::FpToSi => self.tm.ftoi(t, true, wt),
            Cast::UiToFp => self.tm.itof(t, false, srt),
            Cast::SiToFp => self.tm.itof(t, true, srt),
            Cast::BitCast => unreachable!(),
        };
        Ok(self.norm(r))
    }

    fn bitcast(&mut self, from: &Ty, x: V, to: &Ty) -> R<V> {
        if let (Ty::Vector(n, e), Ty::Int(_)) = (from, to) {
            if **e == Ty::Int(1) {
                let mut acc: u128 = 0;
                if let V::A(xs) = &x {
                    for i in 0..*n as usize {
                        match &xs[i] {
                            V::C(c) => acc |= (c & 1) << i,
                            V::U => return Ok(V::U),
                            _ => return unsup("symbolic vector mask"),
                        }
                    }
                    return Ok(V::C(acc));
                }
                return Ok(V::U);
            }
        }
        let n = from.size().max(to.size()) as usize;
        let mut o = Obj { bytes: vec![B::U; n], align: 1, writable: true, leak_ok: true };
        self.put(&mut o, 0, from, &x)?;
        self.get(&o, 0, to)
    }

    // ------------------------------------------------------------ calls
    fn call(
        &mut self,
        st: &mut State,
        name: &str,
        dst: Option<u32>,
        rty: &Ty,
        args: &[(Ty, Opnd)],
        av: Vec<V>,
        normal: Option<u32>,
    ) -> R<()> {
        let name: &str = &match self.m.aliases.get(name) {
            Some(n) => n.clone(),
            None => name.to_string(),
        };
        let stub = match self.stubs.get(name) {
            Some(s) => *s,
            None => {
                let s = classify(name, self.m.funcs.contains_key(name));
                self.stubs.insert(name.to_string(), s);
                s
            }
        };
        if stub != Stub::None && stub != Stub::Intrinsic {
            *self.rep.stubs.entry(demangle(name)).or_insert(0) += 1;
        }
        let ret: Option<V> = match stub {
            Stub::None => {
                let f = self.func(name).unwrap();
                if st.frames.len() > 400 {
                    return viol("hang", "recursion deeper than 400 frames");
                }
                self.push_frame(st, f, av, dst, normal);
                return Ok(());
            }
            Stub::Panic | Stub::UbPanic => {
                let (loc, msg) = self.panic_info(st, name, args, &av);
                if stub == Stub::UbPanic {
                    return viol("undefined-behaviour", format!("{} at {}", msg, loc));
                }
                return Err(Stop::Panic(loc, msg));
            }
            Stub::Alloc | Stub::AllocZeroed => {
                let size = self.concretize(st, &av[0], 64)? as u64;
                let al = self.concretize(st, &av[1], 64)? as u64;
                Some(V::C(self.alloc_heap(st, size, al, stub == Stub::AllocZeroed)? as u128))
            }
            Stub::Dealloc => {
                let a = self.addr(st, &av[0])?;
                let size = self.concretize(st, &av[1], 64)? as u64;
                let al = self.concretize(st, &av[2], 64)? as u64;
                self.dealloc_heap(st, a, Some(size), Some(al))?;
                None
            }
            Stub::Realloc => {
                let a = self.addr(st, &av[0])?;
                let old = self.concretize(st, &av[1], 64)? as u64;
                let al = self.concretize(st, &av[2], 64)? as u64;
                let new = self.concretize(st, &av[3], 64)? as u64;
                let n = self.alloc_heap(st, new, al, false)?;
                if let Err(e) = self.read_obj(st, a, 0, "realloc") {
                    return Err(e);
                }
                self.memcpy(st, n, a, old.min(new))?;
                self.dealloc_heap(st, a, Some(old), Some(al))?;
                Some(V::C(n as u128))
            }
            Stub::Noop => {
                if *rty == Ty::Void {
                    None
                } else {
                    Some(V::C(0))
                }
            }
            Stub::FormatInner => {
                let a = self.addr(st, &av[0])?;
                self.with_mut(st, a, 24, |_, o, off| {
                    for k in 0..24 {
                        o.bytes[off + k] = B::C(if k == 8 { 1 } else { 0 });
                    }
                    Ok(())
                })?;
                None
            }
            Stub::HashKeys => Some(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]))),
            Stub::Intrinsic => self.intrinsic(st, name, rty, args, av)?,
            Stub::External => self.external(st, name, rty, args, av)?,
        };
        if let (Some(d), Some(v)) = (dst, ret) {
            self.set(st, d, v);
        }
        match normal {
            Some(l) => self.jump(st, l)?,
            None => self.next(st),
        }
        Ok(())
    }

    fn cstr(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        if n > 400 {
            return None;
        }
        if n == 0 {
            return Some(String::new());
        }
        let (o, off) = self.read_obj(st, p, n, "read").ok()?;
        let mut v = vec![];
        for b in &o.bytes[off..off + n as usize] {
            match b {
                B::C(x) => v.push(*x),
                _ => return None,
            }
        }
        Some(String::from_utf8_lossy(&v).into_owned())
    }
    fn rd64(&mut self, st: &State, p: u64) -> Option<u64> {
        let (o, off) = self.read_obj(st, p, 8, "read").ok()?;
        match self.get(&o, off, &Ty::Int(64)).ok()? {
            V::C(c) => Some(c as u64),
            _ => None,
        }
    }

    fn panic_info(&mut self, st: &State, name: &str, args: &[(Ty, Opnd)], av: &[V]) -> (String, String) {
        let short = demangle(name);
        let mut loc = String::new();
        if let Some((Ty::Ptr, V::C(a))) = args.last().map(|x| x.0.clone()).zip(av.last().cloned()) {
            let a = a as u64;
            let f = self.rd64(st, a);
            let l = self.rd64(st, a.wrapping_add(8));
            let lc = self.rd64(st, a.wrapping_add(16));
            if let (Some(f), Some(l), Some(lc)) = (f, l, lc) {
                if let Some(s) = self.cstr(st, f, l) {
                    loc = format!("{}:{}", s, lc as u32);
                }
            }
        }
        let mut msg = String::new();
        if short.contains("panic_fmt") || short.contains("panic_nounwind_fmt") {
            if let V::C(a) = &av[0] {
                if let (Some(p), Some(n)) = (self.rd64(st, *a as u64), self.rd64(st, *a as u64 + 8)) {
                    if n > 0 {
                        if let (Some(s), Some(l)) = (self.rd64(st, p), self.rd64(st, p.wrapping_add(8))) {
                            msg = self.cstr(st, s, l).unwrap_or_default();
                        }
                    }
                }
            }
        } else if av.len() >= 2 {
            if let (V::C(p), V::C(n)) = (&av[0], &av[1]) {
                if matches!(args[0].0, Ty::Ptr) && matches!(args[1].0, Ty::Int(64)) {
                    msg = self.cstr(st, *p as u64, *n as u64).unwrap_or_default();
                }
            }
        }
        let tail = short.rsplit("::").next().unwrap_or("").to_string();
        if msg.is_empty() {
            msg = tail;
        }
        if loc.is_empty() || loc.contains("/rustc/") || loc.starts_with("library/") {
            if let Some(f) = st
                .frames
                .iter()
                .rev()
                .map(|f| demangle(&f.f.name))
                .find(|n| n.contains("redstone_ml") || n.starts_with("h_"))
            {
                loc = format!("{} (in {})", loc, f);
            }
        }
        (loc, msg.lines().next().unwrap_or("").to_string())
    }

    pub(crate) fn fresh(&mut self, st: &mut State, w: u32, lo: i128, hi: i128, signed: bool) -> T {
        let k = st.inputs.len();
        // reuse the same variable for the same input position, width and range: paths share terms
        let name = format!("in{}_{}_{}_{}_{}", k, w, lo, hi, signed);
        let t = match self.varidx.get(&name) {
            Some(t) => *t,
            None => {
                let t = self.tm.var(name.clone(), w, lo, hi, signed);
                self.varidx.insert(name, t);
                t
            }
        };
        t
    }
}

fn to_b2(op: Bin) -> B2 {
    match op {
        Bin::UDiv => B2::UDiv,
        Bin::SDiv => B2::SDiv,
        Bin::URem => B2::URem,
        Bin::SRem => B2::SRem,
        Bin::And => B2::And,
        Bin::Or => B2::Or,
        Bin::Xor => B2::Xor,
        Bin::Shl => B2::Shl,
        Bin::LShr => B2::LShr,
        Bin::AShr => B2::AShr,
        _ => unreachable!(),
    }
}

fn insert(ty: &Ty, x: V, v: V, idx: &[usize]) -> V {
    if idx.is_empty() {
        return v;
    }
    let mut xs: Vec<V> = match x {
        V::A(xs) => (*xs).clone(),
        _ => vec![V::U; ty.count()],
    };
    let cur = std::mem::replace(&mut xs[idx[0]], V::U);
    xs[idx[0]] = insert(&ty.elem(idx[0]), cur, v, &idx[1..]);
    V::A(Rc::new(xs))
}

fn k_of(v: &V) -> u128 {
    match v {
        V::C(k) => *k,
        _ => 0,
    }
}
