//! SMT-LIB2 back end: one long-lived solver process per worker.

use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Res {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown(String),
}

pub struct Smt {
    cmd: Vec<String>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub timeout_ms: u64,
    cache: HashMap<Vec<T>, Option<Rc<HashMap<u32, u128>>>>,
    pub cross: Option<Vec<String>>,
    pub cross_checked: u64,
    pub dump: Option<String>,
}

pub fn sort_str(s: Sort) -> String {
    match s {
        Sort::BV(1) => "Bool".into(),
        Sort::BV(w) => format!("(_ BitVec {})", w),
        Sort::F32 => "(_ FloatingPoint 8 24)".into(),
        Sort::F64 => "(_ FloatingPoint 11 53)".into(),
    }
}
fn fdim(s: Sort) -> &'static str {
    match s {
        Sort::F32 => "8 24",
        _ => "11 53",
    }
}
fn fsuf(s: Sort) -> &'static str {
    match s {
        Sort::F32 => "f32",
        _ => "f64",
    }
}

fn bvc(c: u128, w: u32) -> String {
    format!("(_ bv{} {})", c, w)
}

fn fconst_str(b: u64, s: Sort) -> String {
    let w = if s == Sort::F32 { 32 } else { 64 };
    format!("((_ to_fp {}) {})", fdim(s), bvc(b as u128, w))
}

struct Printer<'a> {
    tm: &'a Terms,
    done: HashSet<T>,
    out: String,
    vars: Vec<u32>,
    asserts: Vec<String>,
    ufs: HashSet<String>,
}

impl<'a> Printer<'a> {
    fn r(&self, t: T) -> String {
        match &self.tm.n(t).op {
            Op::Const(c) => {
                let w = self.tm.w(t);
                if w == 1 {
                    (if *c == 1 { "true" } else { "false" }).into()
                } else {
                    bvc(*c, w)
                }
            }
            Op::FConst(b) => fconst_str(*b, self.tm.sort(t)),
            Op::Var(v) => {
                // boolean variables are declared as BV1-like Bool
                format!("v{}", v)
            }
            _ => format!("t{}", t),
        }
    }
    /// as a bit-vector even when width 1
    fn bv(&self, t: T) -> String {
        if self.tm.sort(t) == Sort::BV(1) {
            format!("(ite {} #b1 #b0)", self.r(t))
        } else {
            self.r(t)
        }
    }
    fn uf(&mut self, name: &str, s: Sort, arity: usize) {
        let full = format!("{}_{}", name, fsuf(s));
        if self.ufs.insert(full.clone()) {
            let ss = sort_str(s);
            let args = vec![ss.clone(); arity].join(" ");
            let line = format!("(declare-fun {} ({}) {})\n", full, args, ss);
            self.out.push_str(&line);
        }
    }
    fn visit(&mut self, t: T) {
        if self.done.contains(&t) {
            return;
        }
        // iterative DFS
        let mut stack = vec![(t, false)];
        while let Some((x, exp)) = stack.pop() {
            if self.done.contains(&x) {
                continue;
            }
            if exp {
                self.done.insert(x);
                self.define(x);
            } else {
                stack.push((x, true));
                for c in self.tm.children(x) {
                    if !self.done.contains(&c) {
                        stack.push((c, false));
                    }
                }
            }
        }
    }
    fn define(&mut self, t: T) {
        let s = self.tm.sort(t);
        let w = self.tm.w(t);
        let op = self.tm.n(t).op.clone();
        let e: String = match op {
            Op::Const(_) | Op::FConst(_) => return,
            Op::Var(v) => {
                let _ = writeln!(self.out, "(declare-const v{} {})", v, sort_str(s));
                self.vars.push(v);
                let vv = &self.tm.vars[v as usize];
                if w > 1 {
                    if vv.signed {
                        let full = w < 128
                            && vv.lo == -(1i128 << (w - 1))
                            && vv.hi == (1i128 << (w - 1)) - 1;
                        if !full {
                            self.asserts.push(format!(
                                "(and (bvsle {} v{}) (bvsle v{} {}))",
                                bvc(vv.lo as u128 & mask(w), w),
                                v,
                                v,
                                bvc(vv.hi as u128 & mask(w), w)
                            ));
                        }
                    } else {
                        let full = vv.lo == 0 && vv.hi as u128 == mask(w);
                        if !full {
                            self.asserts.push(format!(
                                "(and (bvule {} v{}) (bvule v{} {}))",
                                bvc(vv.lo as u128, w),
                                v,
                                v,
                                bvc(vv.hi as u128, w)
                            ));
                        }
                    }
                }
                return;
            }
            Op::Poly(p) => {
                let mut terms = vec![];
                for (vs, c) in &p {
                    let mut f: Vec<String> = vec![];
                    if *c != 1 || vs.is_empty() {
                        f.push(bvc(*c, w));
                    }
                    for v in vs {
                        f.push(self.r(*v));
                    }
                    let mut acc = f[0].clone();
                    for x in &f[1..] {
                        acc = format!("(bvmul {} {})", acc, x);
                    }
                    terms.push(acc);
                }
                let mut acc = terms[0].clone();
                for x in &terms[1..] {
                    acc = format!("(bvadd {} {})", acc, x);
                }
                acc
            }
            Op::B2(o, a, b) => {
                let (x, y) = (self.r(a), self.r(b));
                if w == 1 {
                    match o {
                        B2::And => format!("(and {} {})", x, y),
                        B2::Or => format!("(or {} {})", x, y),
                        B2::Xor => format!("(xor {} {})", x, y),
                        _ => format!("(unsupported-bool-op {:?})", o),
                    }
                } else {
                    let n = match o {
                        B2::UDiv => "bvudiv",
                        B2::SDiv => "bvsdiv",
                        B2::URem => "bvurem",
                        B2::SRem => "bvsrem",
                        B2::And => "bvand",
                        B2::Or => "bvor",
                        B2::Xor => "bvxor",
                        B2::Shl => "bvshl",
                        B2::LShr => "bvlshr",
                        B2::AShr => "bvashr",
                    };
                    format!("({} {} {})", n, x, y)
                }
            }
            Op::Not(a) => format!("(not {})", self.r(a)),
            Op::Eq(a, b) => format!("(= {} {})", self.r(a), self.r(b)),
            Op::Ult(a, b) => {
                if self.tm.w(a) == 1 {
                    format!("(and (not {}) {})", self.r(a), self.r(b))
                } else {
                    format!("(bvult {} {})", self.r(a), self.r(b))
                }
            }
            Op::Slt(a, b) => {
                if self.tm.w(a) == 1 {
                    format!("(and {} (not {}))", self.r(a), self.r(b))
                } else {
                    format!("(bvslt {} {})", self.r(a), self.r(b))
                }
            }
            Op::Ite(c, a, b) => format!("(ite {} {} {})", self.r(c), self.r(a), self.r(b)),
            Op::Concat(a, b) => format!("(concat {} {})", self.bv(a), self.bv(b)),
            Op::Extract(a, h, l) => {
                let x = format!("((_ extract {} {}) {})", h, l, self.bv(a));
                if w == 1 {
                    format!("(= {} #b1)", x)
                } else {
                    x
                }
            }
            Op::ZExt(a) => {
                let wa = self.tm.w(a);
                if wa == 1 {
                    format!("(ite {} {} {})", self.r(a), bvc(1, w), bvc(0, w))
                } else {
                    format!("((_ zero_extend {}) {})", w - wa, self.r(a))
                }
            }
            Op::SExt(a) => {
                let wa = self.tm.w(a);
                format!("((_ sign_extend {}) {})", w - wa, self.bv(a))
            }
            Op::FDy(a, e) => {
                let x = format!("((_ to_fp {}) RNE {})", fdim(s), self.r(a));
                if e == 0 {
                    x
                } else {
                    let v = 2f64.powi(e as i32);
                    let b = match s {
                        Sort::F32 => (v as f32).to_bits() as u64,
                        _ => v.to_bits(),
                    };
                    format!("(fp.mul RNE {} {})", x, fconst_str(b, s))
                }
            }
            Op::FFromBits(a) => format!("((_ to_fp {}) {})", fdim(s), self.r(a)),
            Op::FBits(a) => {
                let _ = writeln!(self.out, "(declare-const t{} {})", t, sort_str(s));
                let fs = self.tm.sort(a);
                self.asserts.push(format!("(= ((_ to_fp {}) t{}) {})", fdim(fs), t, self.r(a)));
                return;
            }
            Op::FF2(o, a, b) => {
                let (x, y) = (self.r(a), self.r(b));
                match o {
                    F2::Add => format!("(fp.add RNE {} {})", x, y),
                    F2::Sub => format!("(fp.sub RNE {} {})", x, y),
                    F2::Mul => format!("(fp.mul RNE {} {})", x, y),
                    F2::Div => format!("(fp.div RNE {} {})", x, y),
                    F2::Min => format!("(fp.min {} {})", x, y),
                    F2::Max => format!("(fp.max {} {})", x, y),
                    F2::CopySign => format!(
                        "(ite (= (fp.isNegative {x}) (fp.isNegative {y})) {x} (fp.neg {x}))",
                        x = x,
                        y = y
                    ),
                    F2::Rem => {
                        self.uf("fmod", s, 2);
                        format!("(fmod_{} {} {})", fsuf(s), x, y)
                    }
                    F2::Pow => {
                        self.uf("pow", s, 2);
                        format!("(pow_{} {} {})", fsuf(s), x, y)
                    }
                }
            }
            Op::FF1(o, a) => {
                let x = self.r(a);
                match o {
                    F1::Neg => format!("(fp.neg {})", x),
                    F1::Abs => format!("(fp.abs {})", x),
                    F1::Sqrt => format!("(fp.sqrt RNE {})", x),
                    F1::Floor => format!("(fp.roundToIntegral RTN {})", x),
                    F1::Ceil => format!("(fp.roundToIntegral RTP {})", x),
                    F1::Trunc => format!("(fp.roundToIntegral RTZ {})", x),
                    F1::Round => format!("(fp.roundToIntegral RNA {})", x),
                    F1::RoundEven => format!("(fp.roundToIntegral RNE {})", x),
                    _ => {
                        let n = format!("{:?}", o).to_lowercase();
                        self.uf(&n, s, 1);
                        format!("({}_{} {})", n, fsuf(s), x)
                    }
                }
            }
            Op::Fma(a, b, c) => format!("(fp.fma RNE {} {} {})", self.r(a), self.r(b), self.r(c)),
            Op::FCmp(o, a, b) => {
                let n = match o {
                    FC::Eq => "fp.eq",
                    FC::Lt => "fp.lt",
                    FC::Le => "fp.leq",
                };
                format!("({} {} {})", n, self.r(a), self.r(b))
            }
            Op::FIsNan(a) => format!("(fp.isNaN {})", self.r(a)),
            Op::FToI(a, signed) => {
                let fs = self.tm.sort(a);
                let x = self.r(a);
                let f = |v: f64| -> String {
                    let b = match fs {
                        Sort::F32 => (v as f32).to_bits() as u64,
                        _ => v.to_bits(),
                    };
                    fconst_str(b, fs)
                };
                if signed {
                    let p = 2f64.powi(w as i32 - 1);
                    format!(
                        "(ite (fp.isNaN {x}) {z} (ite (fp.leq {x} {lo}) {l} (ite (fp.geq {x} {hi}) {h} ((_ fp.to_sbv {w}) RTZ {x}))))",
                        x = x, z = bvc(0, w), lo = f(-p), l = bvc(1u128 << (w - 1), w), hi = f(p),
                        h = bvc((1u128 << (w - 1)) - 1, w), w = w
                    )
                } else {
                    let p = 2f64.powi(w as i32);
                    format!(
                        "(ite (or (fp.isNaN {x}) (fp.leq {x} {lo})) {z} (ite (fp.geq {x} {hi}) {h} ((_ fp.to_ubv {w}) RTZ {x})))",
                        x = x, z = bvc(0, w), lo = f(0.0), hi = f(p), h = bvc(mask(w), w), w = w
                    )
                }
            }
            Op::IToF(a, signed) => {
                if signed {
                    format!("((_ to_fp {}) RNE {})", fdim(s), self.bv(a))
                } else {
                    format!("((_ to_fp_unsigned {}) RNE {})", fdim(s), self.bv(a))
                }
            }
            Op::FConv(a) => format!("((_ to_fp {}) RNE {})", fdim(s), self.r(a)),
        };
        let _ = writeln!(self.out, "(define-fun t{} () {} {})", t, sort_str(s), e);
    }
}

pub fn render(tm: &Terms, cs: &[T]) -> (String, Vec<u32>) {
    let mut p = Printer {
        tm,
        done: HashSet::new(),
        out: String::new(),
        vars: vec![],
        asserts: vec![],
        ufs: HashSet::new(),
    };
    for c in cs {
        p.visit(*c);
    }
    let mut out = std::mem::take(&mut p.out);
    for a in &p.asserts {
        let _ = writeln!(out, "(assert {})", a);
    }
    for c in cs {
        let _ = writeln!(out, "(assert {})", p.r(*c));
    }
    (out, p.vars)
}

impl Smt {
    pub fn new(cmd: Vec<String>, timeout_ms: u64) -> Smt {
        Smt {
            cmd,
            child: None,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cache_hits: 0,
            time: 0.0,
            timeout_ms,
            cache: HashMap::new(),
            cross: None,
            cross_checked: 0,
            dump: None,
        }
    }
    fn start(&mut self) {
        if self.child.is_none() {
            let mut c = Command::new(&self.cmd[0])
                .args(&self.cmd[1..])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start solver");
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            self.child = Some((c, i, o));
            let t = self.timeout_ms;
            self.send(&format!("(set-option :print-success false)\n(set-option :timeout {})\n", t));
        }
    }
    fn send(&mut self, s: &str) {
        let (_, i, _) = self.child.as_mut().unwrap();
        let _ = i.write_all(s.as_bytes());
        let _ = i.flush();
    }
    fn read_until(&mut self, sentinel: &str) -> Vec<String> {
        let (_, _, o) = self.child.as_mut().unwrap();
        let mut out = vec![];
        loop {
            let mut l = String::new();
            match o.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    out.push("(error solver died)".into());
                    return out;
                }
                _ => {}
            }
            let t = l.trim().to_string();
            if t.trim_matches('"') == sentinel {
                return out;
            }
            out.push(t);
        }
    }
    pub fn check(&mut self, tm: &Terms, cs: &[T]) -> Res {
        let mut key: Vec<T> = cs.to_vec();
        key.sort();
        key.dedup();
        if key.iter().any(|c| tm.as_const(*c) == Some(0)) {
            return Res::Unsat;
        }
        key.retain(|c| tm.as_const(*c) != Some(1));
        if key.is_empty() {
            return Res::Sat(HashMap::new());
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat((**m).clone()),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let (text, vars) = render(tm, &key);
        let mut r = self.ask(tm, &text, &vars, true);
        if let Res::Unknown(_) = r {
            r = self.ask(tm, &text, &vars, false);
        }
        self.time += t0.elapsed().as_secs_f64();
        if let Some(d) = &self.dump {
            let tag = if let Res::Unknown(_) = r { "unk" } else if t0.elapsed().as_secs_f64() > 1.0 { "slow" } else { "q" };
            let _ = std::fs::write(format!("{}/{}{}-{:?}.smt2", d, tag, self.queries, std::thread::current().id()), format!("{}(check-sat)\n", text));
        }
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.cache.insert(key, Some(Rc::new(m.clone())));
            }
            Res::Unsat => {
                self.unsat += 1;
                if let Some(c) = self.cross.clone() {
                    // second opinion on every unsat answer
                    match cross_check(&c, &text, self.timeout_ms) {
                        Some(false) => self.cross_checked += 1,
                        Some(true) => return Res::Unknown("solvers disagree".into()),
                        None => {}
                    }
                }
                self.cache.insert(key, None);
            }
            Res::Unknown(_) => self.unknown += 1,
        }
        r
    }
    fn ask(&mut self, tm: &Terms, text: &str, vars: &[u32], incremental: bool) -> Res {
        if !incremental {
            // fresh, non-incremental process
            if let Some((mut c, _, _)) = self.child.take() {
                let _ = c.kill();
                let _ = c.wait();
            }
        }
        self.start();
        let head = if incremental { "(push 1)\n" } else { "" };
        self.send(&format!("{}{}(check-sat)\n(echo \"==done\")\n", head, text));
        let lines = self.read_until("==done");
        if lines.iter().any(|l| l.contains("(error")) {
            self.kill();
            return Res::Unknown(lines.join(" "));
        }
        let ans = lines.last().cloned().unwrap_or_default();
        let res = match ans.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut model = HashMap::new();
                if !vars.is_empty() {
                    let mut q = String::from("(get-value (");
                    for v in vars {
                        let _ = write!(q, "v{} ", v);
                    }
                    q.push_str("))\n(echo \"==done\")\n");
                    self.send(&q);
                    let lines = self.read_until("==done").join(" ");
                    parse_values(&lines, &mut model);
                    let _ = tm;
                    if model.len() != vars.len() {
                        self.kill();
                        return Res::Unknown(format!("model parse: {}", lines));
                    }
                }
                Res::Sat(model)
            }
            x => Res::Unknown(x.to_string()),
        };
        if incremental {
            self.send("(pop 1)\n");
        } else {
            self.kill();
        }
        res
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        self.kill();
    }
}

fn cross_check(cmd: &[String], text: &str, timeout_ms: u64) -> Option<bool> {
    let mut c = Command::new(&cmd[0])
        .args(&cmd[1..])
        .arg(format!("--tlimit={}", timeout_ms))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    {
        let mut i = c.stdin.take()?;
        let _ = i.write_all(format!("(set-logic ALL)\n{}(check-sat)\n", text).as_bytes());
    }
    let o = c.wait_with_output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    if s.contains("(error") {
        return None;
    }
    match s.trim() {
        "unsat" => Some(false),
        "sat" => Some(true),
        _ => None,
    }
}

fn parse_values(s: &str, model: &mut HashMap<u32, u128>) {
    // ((v1 #x0..) (v2 #b..) (v3 true))
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '(' && i + 1 < b.len() && b[i + 1] == 'v' {
            let mut j = i + 2;
            let mut id = 0u32;
            while j < b.len() && b[j].is_ascii_digit() {
                id = id * 10 + b[j].to_digit(10).unwrap();
                j += 1;
            }
            while j < b.len() && b[j] == ' ' {
                j += 1;
            }
            let st = j;
            let mut depth = 0;
            while j < b.len() {
                if b[j] == '(' {
                    depth += 1;
                }
                if b[j] == ')' {
                    if depth == 0 {
                        break;
                    }
                    depth -= 1;
                }
                j += 1;
            }
            let v: String = b[st..j].iter().collect();
            let v = v.trim();
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(h) = v.strip_prefix("#b") {
                u128::from_str_radix(h, 2).ok()
            } else if v == "true" {
                Some(1)
            } else if v == "false" {
                Some(0)
            } else if let Some(h) = v.strip_prefix("(_ bv") {
                h.split(' ').next().and_then(|x| x.parse().ok())
            } else {
                None
            };
            if let Some(x) = val {
                model.insert(id, x);
            }
            i = j;
        }
        i += 1;
    }
}
