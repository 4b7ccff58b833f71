//! Parser for the subset of LLVM's textual IR that rustc emits.
//!
//! The module is indexed once; function bodies are parsed on demand.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two(),
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                round_up(s, self.align())
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        o = round_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    round_up(o, self.align())
                }
            }
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
        }
    }
    /// Bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = round_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

pub fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

/// Constant expression.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Global(String, i64),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Cst)>),
    Unsupported(String),
}

/// Run-time value: concrete bits, a symbolic term, undefined, or an aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(u32),
    U,
    A(Rc<Vec<V>>),
    /// scalar of which some bytes are undefined (only moved around, or its defined bytes extracted)
    P(Rc<Vec<crate::exec::B>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Val(V),
    Bad(String),
}

pub const K_HEAP: u64 = 1;
pub const K_STACK: u64 = 2;
pub const K_GLOBAL: u64 = 3;
pub const K_FUNC: u64 = 4;
pub fn mkaddr(kind: u64, id: u64) -> u64 {
    (kind << 60) | (id << 32)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum GepIdx {
    /// operand, its width, scale in bytes
    Dyn(Opnd, u32, u64),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(u32, u64, Option<(Opnd, u64)>),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<GepIdx>),
    Bin(u32, Bin, Ty, Opnd, Opnd),
    FBin(u32, FBin, Ty, Opnd, Opnd),
    FNeg(u32, Ty, Opnd),
    ICmp(u32, IPred, Ty, Opnd, Opnd),
    FCmp(u32, String, Ty, Opnd, Opnd),
    Cast(u32, Cast, Ty, Opnd, Ty),
    Select(u32, Ty, Opnd, Ty, Opnd, Opnd),
    Call(Option<u32>, Callee, Ty, Vec<(Ty, Opnd)>, Option<u32>),
    ExtractValue(u32, Opnd, Ty, Vec<usize>),
    InsertValue(u32, Ty, Opnd, Opnd, Vec<usize>),
    ExtractElement(u32, Ty, Opnd, Opnd),
    InsertElement(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<Option<u32>>),
    Freeze(u32, Ty, Opnd),
    Fence,
    AtomicRmw(u32, String, Opnd, Ty, Opnd),
    CmpXchg(u32, Opnd, Ty, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub ty_text: (usize, usize),
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub text: String,
    /// name -> (header line start, end, body start, body end)
    pub funcs: HashMap<String, (usize, usize, usize, usize)>,
    pub declares: HashMap<String, ()>,
    pub globals: HashMap<String, usize>,
    pub global_list: Vec<(String, GlobalDef)>,
    pub func_list: Vec<String>,
    pub func_ids: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
}

/// named struct types of the loaded module
static NAMED: std::sync::LazyLock<std::sync::Mutex<HashMap<String, String>>> =
    std::sync::LazyLock::new(Default::default);

fn parse_name_at(b: &[u8], mut i: usize) -> (String, usize) {
    // b[i] is just after the sigil
    if i < b.len() && b[i] == b'"' {
        i += 1;
        let s = i;
        while b[i] != b'"' {
            i += 1;
        }
        (String::from_utf8_lossy(&b[s..i]).into_owned(), i + 1)
    } else {
        let s = i;
        while i < b.len()
            && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-'))
        {
            i += 1;
        }
        (String::from_utf8_lossy(&b[s..i]).into_owned(), i)
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            funcs: HashMap::new(),
            declares: HashMap::new(),
            globals: HashMap::new(),
            global_list: vec![],
            func_list: vec![],
            func_ids: HashMap::new(),
            aliases: HashMap::new(),
        };
        let b = text.as_bytes();
        let n = b.len();
        let mut i = 0;
        while i < n {
            let mut e = i;
            // memchr-like
            while e < n && b[e] != b'\n' {
                e += 1;
            }
            let line = &b[i..e];
            if line.starts_with(b"define ") {
                let at = find_global_sigil(line, 0);
                let (name, _) = parse_name_at(line, at + 1);
                let hs = i;
                let he = e;
                let bs = e + 1;
                // find "\n}\n"
                let mut k = bs;
                loop {
                    let mut le = k;
                    while le < n && b[le] != b'\n' {
                        le += 1;
                    }
                    if b[k] == b'}' && le == k + 1 {
                        m.funcs.insert(name.clone(), (hs, he, bs, k));
                        e = le;
                        break;
                    }
                    k = le + 1;
                    if k >= n {
                        panic!("unterminated function {}", name);
                    }
                }
                m.func_ids.insert(name.clone(), m.func_list.len());
                m.func_list.push(name);
            } else if line.starts_with(b"declare ") {
                let at = find_global_sigil(line, 0);
                let (name, _) = parse_name_at(line, at + 1);
                m.declares.insert(name.clone(), ());
                m.func_ids.insert(name.clone(), m.func_list.len());
                m.func_list.push(name);
            } else if line.starts_with(b"%") {
                let (name, p) = parse_name_at(line, 1);
                let rest = String::from_utf8_lossy(&line[p..]).into_owned();
                if let Some(t) = rest.trim_start().strip_prefix("= type ") {
                    NAMED.lock().unwrap().insert(name, t.trim().to_string());
                }
            } else if line.starts_with(b"@") {
                let (name, p) = parse_name_at(line, 1);
                let rest = std::str::from_utf8(&line[p..]).unwrap_or("");
                // rest: " = linkage ... global|constant TYPE INIT, align"
                if let Some(k) = rest.find(" alias ") {
                    if !rest.contains(" global ") && !rest.contains(" constant ") {
                        if let Some(a) = rest[k..].find('@') {
                            let (target, _) = parse_name_at(rest.as_bytes(), k + a + 1);
                            m.aliases.insert(name, target);
                            i = e + 1;
                            continue;
                        }
                    }
                }
                let g = rest.find(" global ").map(|x| (x, 8, false));
                let c = rest.find(" constant ").map(|x| (x, 10, true));
                let pick = match (g, c) {
                    (Some(a), Some(b)) => Some(if a.0 < b.0 { a } else { b }),
                    (a, b) => a.or(b),
                };
                if let Some((pos, len, constant)) = pick {
                    let external = rest[..pos].contains("external") || rest[..pos].contains("extern_weak");
                    let s = i + p + pos + len;
                    m.globals.insert(name.clone(), m.global_list.len());
                    m.global_list.push((
                        name,
                        GlobalDef { ty_text: (s, e), constant, external },
                    ));
                }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }

    pub fn parse_global(&self, idx: usize) -> (Ty, Cst) {
        let (s, e) = self.global_list[idx].1.ty_text;
        let mut p = P::new(&self.text[s..e]);
        let ty = p.ty();
        if self.global_list[idx].1.external {
            return (ty, Cst::Zero);
        }
        let c = p.cst(&ty);
        (ty, c)
    }

    pub fn parse_func(&self, name: &str) -> Option<Func> {
        let &(hs, he, bs, be) = self.funcs.get(name)?;
        let header = &self.text[hs..he];
        let body = &self.text[bs..be];
        Some(parse_function(self, name, header, body))
    }

    pub fn addr_of(&self, name: &str) -> Option<u64> {
        let name = match self.aliases.get(name) {
            Some(n) => n.as_str(),
            None => name,
        };
        if let Some(i) = self.globals.get(name) {
            return Some(mkaddr(K_GLOBAL, *i as u64));
        }
        if let Some(i) = self.func_ids.get(name) {
            return Some(mkaddr(K_FUNC, *i as u64));
        }
        None
    }

    /// Constant to run-time value.
    pub fn value(&self, ty: &Ty, c: &Cst) -> Result<V, String> {
        Ok(match c {
            Cst::Int(x) => V::C(*x),
            Cst::Undef => match ty {
                Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..) => {
                    V::A(Rc::new((0..ty.count()).map(|i| self.value(&ty.elem(i), c)).collect::<Result<_, _>>()?))
                }
                _ => V::U,
            },
            Cst::Zero => match ty {
                Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..) => {
                    V::A(Rc::new((0..ty.count()).map(|i| self.value(&ty.elem(i), c)).collect::<Result<_, _>>()?))
                }
                _ => V::C(0),
            },
            Cst::Global(n, off) => match self.addr_of(n) {
                Some(a) => V::C(a.wrapping_add(*off as u64) as u128),
                None => return Err(format!("unknown global {}", n)),
            },
            Cst::Agg(v) => {
                V::A(Rc::new(v.iter().map(|(t, c)| self.value(t, c)).collect::<Result<_, _>>()?))
            }
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Cst::Splat(b) => {
                let v = self.value(&b.0, &b.1)?;
                V::A(Rc::new(vec![v; ty.count()]))
            }
            Cst::Unsupported(s) => return Err(format!("unsupported constant {}", s)),
        })
    }
}

fn find_global_sigil(line: &[u8], from: usize) -> usize {
    let mut i = from;
    while i < line.len() {
        if line[i] == b'@' {
            return i;
        }
        if line[i] == b'"' {
            i += 1;
            while i < line.len() && line[i] != b'"' {
                i += 1;
            }
        }
        i += 1;
    }
    line.len()
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

struct FnCtx<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl<'m> FnCtx<'m> {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: String) -> u32 {
        match self.labels.get(&n) {
            Some(x) => *x,
            None => u32::MAX,
        }
    }
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> P<'a> {
        P { b: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "parse: expected {:?} at {} in {}",
                c as char,
                self.i,
                String::from_utf8_lossy(&self.b[..self.b.len().min(400)])
            );
        }
    }
    fn word_peek(&mut self) -> &'a str {
        self.ws();
        let s = self.i;
        let mut e = s;
        while e < self.b.len() && (self.b[e].is_ascii_alphanumeric() || matches!(self.b[e], b'_' | b'.')) {
            e += 1;
        }
        std::str::from_utf8(&self.b[s..e]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.word_peek();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word_peek() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.eat(b'-');
        let mut v: u128 = 0;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.b[self.i] - b'0') as u128);
            self.i += 1;
        }
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'[' || c == b'{' || c == b'<' {
            return true;
        }
        let w = self.word_peek();
        match w {
            "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "label" | "metadata"
            | "token" | "x86_fp80" => true,
            _ => {
                w.len() > 1
                    && w.as_bytes()[0] == b'i'
                    && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'%' => {
                let (name, e) = parse_name_at(self.b, self.i + 1);
                self.i = e;
                let text = NAMED.lock().unwrap().get(&name).cloned();
                match text {
                    Some(t) if t != "opaque" => {
                        let mut q = P { b: t.as_bytes(), i: 0 };
                        q.ty()
                    }
                    _ => Ty::Other,
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.int() as u64;
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vector(n, Box::new(t))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "bfloat" | "fp128" | "label" | "metadata" | "token" | "x86_fp80" => Ty::Other,
                    _ => {
                        if w.starts_with('i') {
                            Ty::Int(w[1..].parse().unwrap_or_else(|_| {
                                panic!("bad type {:?} in {}", w, String::from_utf8_lossy(self.b))
                            }))
                        } else {
                            panic!("bad type {:?} at {} in {}", w, self.i, String::from_utf8_lossy(self.b))
                        }
                    }
                }
            }
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.b[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.b[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// Skip parameter attributes up to an operand or a type.
    fn skip_attrs(&mut self, stop_at_type: bool) {
        loop {
            let c = self.peek();
            if c == 0 || c == b'%' || c == b'@' || c == b'-' || c.is_ascii_digit() || c == b',' || c == b')' {
                return;
            }
            if c == b'#' {
                self.i += 1;
                self.int();
                continue;
            }
            if c == b'"' {
                self.i += 1;
                while self.b[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    self.expect(b'"');
                    while self.b[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if stop_at_type && self.is_type_start() {
                return;
            }
            if !stop_at_type && (c == b'[' || c == b'{' || c == b'<') {
                return;
            }
            let w = self.word_peek();
            if !stop_at_type {
                match w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                    | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "splat" | "c" | "none" | "trunc"
                    | "xor" | "metadata" | "blockaddress" | "asm" => return,
                    _ => {}
                }
            }
            if w.is_empty() {
                return;
            }
            self.i += w.len();
            if w == "align" {
                // "align 8" or "align(8)"
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    self.int();
                }
            } else if self.i < self.b.len() && self.b[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        let c = self.peek();
        if c == b'-' || c.is_ascii_digit() {
            let s = self.i;
            let is_f = matches!(ty, Ty::F32 | Ty::F64);
            if is_f {
                if self.b[s..].starts_with(b"0x") {
                    self.i += 2;
                    let st = self.i;
                    while self.i < self.b.len() && self.b[self.i].is_ascii_hexdigit() {
                        self.i += 1;
                    }
                    let bits =
                        u64::from_str_radix(std::str::from_utf8(&self.b[st..self.i]).unwrap(), 16).unwrap();
                    return Cst::Int(match ty {
                        Ty::F32 => f64_bits_to_f32_bits(bits) as u128,
                        _ => bits as u128,
                    });
                }
                while self.i < self.b.len()
                    && (self.b[self.i].is_ascii_digit()
                        || matches!(self.b[self.i], b'+' | b'-' | b'.' | b'e' | b'E'))
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[s..self.i]).unwrap();
                let v: f64 = t.parse().unwrap();
                return Cst::Int(match ty {
                    Ty::F32 => (v as f32).to_bits() as u128,
                    _ => v.to_bits() as u128,
                });
            }
            let v = self.int() as u128;
            let w = ty.bits();
            return Cst::Int(if w > 0 && w < 128 { v & ((1u128 << w) - 1) } else { v });
        }
        if c == b'@' {
            self.i += 1;
            let (n, e) = parse_name_at(self.b, self.i);
            self.i = e;
            return Cst::Global(n, 0);
        }
        if c == b'{' || c == b'[' || (c == b'<') {
            // aggregate
            let packed = c == b'<' && self.b.get(self.i + 1) == Some(&b'{');
            self.i += if packed { 2 } else { 1 };
            let close = match c {
                b'{' => b'}',
                b'[' => b']',
                _ => {
                    if packed {
                        b'}'
                    } else {
                        b'>'
                    }
                }
            };
            let mut v = vec![];
            if !self.eat(close) {
                loop {
                    let t = self.ty();
                    self.skip_attrs(false);
                    let k = self.cst(&t);
                    v.push((t, k));
                    if !self.eat(b',') {
                        break;
                    }
                }
                self.expect(close);
            }
            if packed {
                self.expect(b'>');
            }
            return Cst::Agg(v);
        }
        let w = self.word();
        match w {
            "true" => Cst::Int(1),
            "false" => Cst::Int(0),
            "null" | "zeroinitializer" | "none" => Cst::Zero,
            "undef" | "poison" => Cst::Undef,
            "c" => {
                self.expect(b'"');
                let mut out = vec![];
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' {
                        if self.b[self.i + 1] == b'\\' {
                            out.push(b'\\');
                            self.i += 2;
                        } else {
                            let h = std::str::from_utf8(&self.b[self.i + 1..self.i + 3]).unwrap();
                            out.push(u8::from_str_radix(h, 16).unwrap());
                            self.i += 3;
                        }
                    } else {
                        out.push(self.b[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Cst::Bytes(out)
            }
            "splat" => {
                self.expect(b'(');
                let t = self.ty();
                let k = self.cst(&t);
                self.expect(b')');
                Cst::Splat(Box::new((t, k)))
            }
            "getelementptr" => {
                loop {
                    let x = self.word_peek();
                    if matches!(x, "inbounds" | "nuw" | "nusw") {
                        self.i += x.len();
                    } else if x == "inrange" {
                        self.i += x.len();
                        self.skip_parens();
                    } else {
                        break;
                    }
                }
                self.expect(b'(');
                let t0 = self.ty();
                self.expect(b',');
                let bt = self.ty();
                let base = self.cst(&bt);
                let mut off: i64 = 0;
                let mut cur = t0.clone();
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let iv = self.cst(&it);
                    let iv = match iv {
                        Cst::Int(x) => sext128(x, it.bits()) as i64,
                        _ => 0,
                    };
                    if first {
                        off += iv * cur.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_offset(iv as usize) as i64;
                        cur = cur.elem(iv as usize);
                    }
                }
                self.expect(b')');
                match base {
                    Cst::Global(n, o) => Cst::Global(n, o + off),
                    Cst::Int(x) => Cst::Int((x as i64).wrapping_add(off) as u64 as u128),
                    Cst::Zero => Cst::Int(off as u64 as u128),
                    _ => Cst::Unsupported("gep".into()),
                }
            }
            "inttoptr" | "ptrtoint" | "bitcast" => {
                self.expect(b'(');
                let t = self.ty();
                let k = self.cst(&t);
                assert!(self.eat_word("to"));
                self.ty();
                self.expect(b')');
                k
            }
            _ => {
                // unsupported constant expression: skip balanced
                while self.peek() != b'(' && self.peek() != 0 && self.peek() != b',' {
                    self.i += 1;
                }
                if self.peek() == b'(' {
                    self.skip_parens();
                }
                Cst::Unsupported(w.to_string())
            }
        }
    }
    fn opnd(&mut self, ty: &Ty, cx: &mut FnCtx) -> Opnd {
        if self.peek() == b'%' {
            self.i += 1;
            let (n, e) = parse_name_at(self.b, self.i);
            self.i = e;
            Opnd::Reg(cx.reg(n))
        } else {
            let c = self.cst(ty);
            match cx.m.value(ty, &c) {
                Ok(v) => Opnd::Val(v),
                Err(e) => Opnd::Bad(e),
            }
        }
    }
    fn label(&mut self, cx: &mut FnCtx) -> u32 {
        assert!(self.eat_word("label"));
        self.expect(b'%');
        let (n, e) = parse_name_at(self.b, self.i);
        self.i = e;
        cx.label(n)
    }
    fn skip_words(&mut self, ws: &[&str]) {
        loop {
            let w = self.word_peek();
            if !w.is_empty() && ws.contains(&w) {
                self.i += w.len();
            } else {
                return;
            }
        }
    }
}

pub fn sext128(x: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return x as i128;
    }
    let s = 128 - w;
    ((x << s) as i128) >> s
}

fn f64_bits_to_f32_bits(bits: u64) -> u32 {
    let v = f64::from_bits(bits);
    if v.is_nan() {
        // keep payload top bits
        let sign = ((bits >> 63) as u32) << 31;
        return sign | 0x7f80_0000 | ((bits >> 29) as u32 & 0x7f_ffff);
    }
    (v as f32).to_bits()
}

const FMF: &[&str] = &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];

fn parse_function(m: &Module, name: &str, header: &str, body: &str) -> Func {
    let mut cx = FnCtx { m, regs: HashMap::new(), labels: HashMap::new() };
    let mut params = vec![];
    {
        let mut p = P::new(header);
        let at = find_global_sigil(header.as_bytes(), 0);
        let (_, e) = parse_name_at(header.as_bytes(), at + 1);
        p.i = e;
        p.expect(b'(');
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    break;
                }
                let t = p.ty();
                p.skip_attrs(false);
                if p.peek() == b'%' {
                    p.i += 1;
                    let (n, e) = parse_name_at(p.b, p.i);
                    p.i = e;
                    let r = cx.reg(n);
                    params.push((r, t));
                } else {
                    let n = format!("{}", params.len());
                    let r = cx.reg(n);
                    params.push((r, t));
                }
                if !p.eat(b',') {
                    break;
                }
            }
        }
    }
    // join continuation lines
    let mut lines: Vec<String> = vec![];
    let mut in_switch = false;
    for l in body.lines() {
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        let t = l.trim_start();
        if t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        if in_switch {
            let last = lines.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
            if t.starts_with(']') {
                in_switch = false;
            }
            continue;
        }
        if l.starts_with("          ") {
            let last = lines.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
            continue;
        }
        if t.starts_with("switch ") && !t.contains(']') {
            in_switch = true;
        }
        lines.push(l.to_string());
    }
    // labels
    let mut nblocks = 0u32;
    let first_is_label = lines.first().map(|l| !l.starts_with(' ')).unwrap_or(false);
    if !first_is_label {
        let nnum = params.len();
        cx.labels.insert(format!("{}", nnum), 0);
        nblocks = 1;
    }
    for l in &lines {
        if !l.starts_with(' ') {
            let (n, _) = parse_name_at(l.as_bytes(), 0);
            cx.labels.insert(n, nblocks);
            nblocks += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    if !first_is_label {
        blocks.push(Block { phis: vec![], insts: vec![] });
    }
    for l in &lines {
        if !l.starts_with(' ') {
            blocks.push(Block { phis: vec![], insts: vec![] });
            continue;
        }
        let blk = blocks.last_mut().unwrap();
        let mut p = P::new(l);
        parse_inst(&mut p, &mut cx, blk);
    }
    let nregs = cx.regs.len();
    Func { name: name.to_string(), params, nregs, blocks }
}

fn parse_inst(p: &mut P, cx: &mut FnCtx, blk: &mut Block) {
    let mut dst: Option<u32> = None;
    if p.peek() == b'%' {
        p.i += 1;
        let (n, e) = parse_name_at(p.b, p.i);
        p.i = e;
        dst = Some(cx.reg(n));
        p.expect(b'=');
    }
    let d = dst.unwrap_or(0);
    let mut w = p.word();
    if matches!(w, "tail" | "musttail" | "notail") {
        w = p.word();
    }
    let inst = match w {
        "alloca" => {
            p.skip_words(&["inalloca"]);
            let t = p.ty();
            let mut cnt = None;
            if p.eat(b',') {
                if p.is_type_start() {
                    let it = p.ty();
                    let o = p.opnd(&it, cx);
                    cnt = Some((o, t.size()));
                }
            }
            Inst::Alloca(d, t.size(), cnt)
        }
        "load" => {
            p.skip_words(&["atomic", "volatile"]);
            let t = p.ty();
            p.expect(b',');
            let pt = p.ty();
            let o = p.opnd(&pt, cx);
            Inst::Load(d, t, o)
        }
        "store" => {
            p.skip_words(&["atomic", "volatile"]);
            let t = p.ty();
            let v = p.opnd(&t, cx);
            p.expect(b',');
            let pt = p.ty();
            let o = p.opnd(&pt, cx);
            Inst::Store(t, v, o)
        }
        "getelementptr" => {
            p.skip_words(&["inbounds", "nuw", "nusw"]);
            let t0 = p.ty();
            p.expect(b',');
            let bt = p.ty();
            let base = p.opnd(&bt, cx);
            let mut off = 0i64;
            let mut dynv = vec![];
            let mut cur = t0;
            let mut first = true;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let it = p.ty();
                let iv = p.opnd(&it, cx);
                let cval = match &iv {
                    Opnd::Val(V::C(x)) => Some(sext128(*x, it.bits()) as i64),
                    _ => None,
                };
                let (scale, next) = if first {
                    first = false;
                    (cur.size(), None)
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let k = cval.unwrap_or(0) as usize;
                            off += cur.field_offset(k) as i64;
                            cur = cur.elem(k);
                            continue;
                        }
                        _ => {
                            let e = cur.elem(0);
                            (e.size(), Some(e))
                        }
                    }
                };
                match cval {
                    Some(x) => off += x.wrapping_mul(scale as i64),
                    None => dynv.push(GepIdx::Dyn(iv, it.bits(), scale)),
                }
                if let Some(nx) = next {
                    cur = nx;
                }
            }
            Inst::Gep(d, base, off, dynv)
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
        | "ashr" => {
            p.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let b = p.opnd(&t, cx);
            let op = match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                _ => Bin::AShr,
            };
            Inst::Bin(d, op, t, a, b)
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_words(FMF);
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let b = p.opnd(&t, cx);
            let op = match w {
                "fadd" => FBin::Add,
                "fsub" => FBin::Sub,
                "fmul" => FBin::Mul,
                "fdiv" => FBin::Div,
                _ => FBin::Rem,
            };
            Inst::FBin(d, op, t, a, b)
        }
        "fneg" => {
            p.skip_words(FMF);
            let t = p.ty();
            let a = p.opnd(&t, cx);
            Inst::FNeg(d, t, a)
        }
        "icmp" => {
            p.skip_words(&["samesign"]);
            let pr = match p.word() {
                "eq" => IPred::Eq,
                "ne" => IPred::Ne,
                "ugt" => IPred::Ugt,
                "uge" => IPred::Uge,
                "ult" => IPred::Ult,
                "ule" => IPred::Ule,
                "sgt" => IPred::Sgt,
                "sge" => IPred::Sge,
                "slt" => IPred::Slt,
                _ => IPred::Sle,
            };
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let b = p.opnd(&t, cx);
            Inst::ICmp(d, pr, t, a, b)
        }
        "fcmp" => {
            p.skip_words(FMF);
            let pr = p.word().to_string();
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let b = p.opnd(&t, cx);
            Inst::FCmp(d, pr, t, a, b)
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
        | "ptrtoint" | "inttoptr" | "bitcast" => {
            p.skip_words(&["nuw", "nsw", "nneg"]);
            p.skip_words(FMF);
            let t = p.ty();
            let a = p.opnd(&t, cx);
            assert!(p.eat_word("to"));
            let t2 = p.ty();
            let c = match w {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "fptrunc" => Cast::FpTrunc,
                "fpext" => Cast::FpExt,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "ptrtoint" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                _ => Cast::BitCast,
            };
            Inst::Cast(d, c, t, a, t2)
        }
        "select" => {
            p.skip_words(FMF);
            let ct = p.ty();
            let c = p.opnd(&ct, cx);
            p.expect(b',');
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let t2 = p.ty();
            let b = p.opnd(&t2, cx);
            Inst::Select(d, ct, c, t, a, b)
        }
        "phi" => {
            p.skip_words(FMF);
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.expect(b'[');
                let v = p.opnd(&t, cx);
                p.expect(b',');
                p.expect(b'%');
                let (n, e) = parse_name_at(p.b, p.i);
                p.i = e;
                let l = cx.label(n);
                p.expect(b']');
                inc.push((l, v));
                if p.peek() == b',' {
                    let save = p.i;
                    p.i += 1;
                    if p.peek() != b'[' {
                        p.i = save;
                        break;
                    }
                } else {
                    break;
                }
            }
            blk.phis.push((d, t, inc));
            return;
        }
        "call" | "invoke" => {
            // flags, cconv, return attributes
            p.skip_attrs(true);
            let rt = p.ty();
            if p.peek() == b'(' {
                // function type
                p.skip_parens();
            }
            let callee = if p.peek() == b'@' {
                p.i += 1;
                let (n, e) = parse_name_at(p.b, p.i);
                p.i = e;
                Callee::Direct(n)
            } else if p.peek() == b'%' {
                let o = p.opnd(&Ty::Ptr, cx);
                Callee::Indirect(o)
            } else {
                let w = p.word_peek();
                if w == "asm" {
                    let s = p.i;
                    // skip words and two strings
                    while p.peek() != b'"' {
                        p.word();
                    }
                    for k in 0..2 {
                        p.expect(b'"');
                        while p.b[p.i] != b'"' {
                            p.i += 1;
                        }
                        p.i += 1;
                        if k == 0 {
                            p.expect(b',');
                            p.peek();
                        }
                    }
                    Callee::Asm(String::from_utf8_lossy(&p.b[s..p.i]).into_owned())
                } else {
                    let c = p.cst(&Ty::Ptr);
                    match cx.m.value(&Ty::Ptr, &c) {
                        Ok(v) => Callee::Indirect(Opnd::Val(v)),
                        Err(e) => Callee::Indirect(Opnd::Bad(e)),
                    }
                }
            };
            p.expect(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    if t == Ty::Other {
                        // metadata argument: skip to , or )
                        let mut depth = 0;
                        while p.i < p.b.len() {
                            match p.b[p.i] {
                                b'(' => depth += 1,
                                b')' if depth == 0 => break,
                                b')' => depth -= 1,
                                b',' if depth == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((t, Opnd::Val(V::U)));
                    } else {
                        p.skip_attrs(false);
                        let o = p.opnd(&t, cx);
                        args.push((t, o));
                    }
                    if !p.eat(b',') {
                        break;
                    }
                }
                p.expect(b')');
            }
            let mut normal = None;
            if w == "invoke" {
                // find "to label"
                let rest = std::str::from_utf8(&p.b[p.i..]).unwrap();
                if let Some(k) = rest.find("to label") {
                    p.i += k + 3;
                    normal = Some(p.label(cx));
                }
            }
            Inst::Call(dst, callee, rt, args, normal)
        }
        "extractvalue" => {
            let t = p.ty();
            let a = p.opnd(&t, cx);
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.int() as usize);
            }
            Inst::ExtractValue(d, a, t, idx)
        }
        "insertvalue" => {
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let vt = p.ty();
            let v = p.opnd(&vt, cx);
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.int() as usize);
            }
            Inst::InsertValue(d, t, a, v, idx)
        }
        "extractelement" => {
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let it = p.ty();
            let i = p.opnd(&it, cx);
            Inst::ExtractElement(d, t, a, i)
        }
        "insertelement" => {
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let vt = p.ty();
            let v = p.opnd(&vt, cx);
            p.expect(b',');
            let it = p.ty();
            let i = p.opnd(&it, cx);
            Inst::InsertElement(d, t, a, v, i)
        }
        "shufflevector" => {
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let t2 = p.ty();
            let b = p.opnd(&t2, cx);
            p.expect(b',');
            let mt = p.ty();
            let m = p.cst(&mt);
            let n = mt.count();
            let mask = match m {
                Cst::Zero => vec![Some(0); n],
                Cst::Undef => vec![None; n],
                Cst::Agg(v) => v
                    .iter()
                    .map(|(_, c)| match c {
                        Cst::Int(x) => Some(*x as u32),
                        Cst::Zero => Some(0),
                        _ => None,
                    })
                    .collect(),
                Cst::Splat(b) => match b.1 {
                    Cst::Int(x) => vec![Some(x as u32); n],
                    _ => vec![None; n],
                },
                _ => vec![None; n],
            };
            Inst::Shuffle(d, t, a, b, mask)
        }
        "freeze" => {
            let t = p.ty();
            let a = p.opnd(&t, cx);
            Inst::Freeze(d, t, a)
        }
        "fence" => Inst::Fence,
        "atomicrmw" => {
            p.skip_words(&["volatile"]);
            let op = p.word().to_string();
            let pt = p.ty();
            let ptr = p.opnd(&pt, cx);
            p.expect(b',');
            let t = p.ty();
            let v = p.opnd(&t, cx);
            Inst::AtomicRmw(d, op, ptr, t, v)
        }
        "cmpxchg" => {
            p.skip_words(&["weak", "volatile"]);
            let pt = p.ty();
            let ptr = p.opnd(&pt, cx);
            p.expect(b',');
            let t = p.ty();
            let a = p.opnd(&t, cx);
            p.expect(b',');
            let t2 = p.ty();
            let b = p.opnd(&t2, cx);
            Inst::CmpXchg(d, ptr, t, a, b)
        }
        "br" => {
            if p.word_peek() == "label" {
                let l = p.label(cx);
                Inst::Br(l)
            } else {
                let t = p.ty();
                let c = p.opnd(&t, cx);
                p.expect(b',');
                let a = p.label(cx);
                p.expect(b',');
                let b = p.label(cx);
                Inst::CondBr(c, a, b)
            }
        }
        "switch" => {
            let t = p.ty();
            let v = p.opnd(&t, cx);
            p.expect(b',');
            let def = p.label(cx);
            p.expect(b'[');
            let mut cases = vec![];
            while !p.eat(b']') {
                let ct = p.ty();
                let c = match p.cst(&ct) {
                    Cst::Int(x) => x,
                    Cst::Zero => 0,
                    _ => panic!("switch case"),
                };
                p.expect(b',');
                let l = p.label(cx);
                cases.push((c, l));
            }
            Inst::Switch(t.bits(), v, def, cases)
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                Inst::Ret(None)
            } else {
                let v = p.opnd(&t, cx);
                Inst::Ret(Some((t, v)))
            }
        }
        "unreachable" => Inst::Unreachable,
        _ => Inst::Unsupported(String::from_utf8_lossy(p.b).into_owned()),
    };
    blk.insts.push(inst);
}
