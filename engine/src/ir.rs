//! Parser for the subset of textual LLVM IR that rustc emits.
use crate::mem::Val;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Func,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Vec(n, t) => {
                let b = ((*n as u64) * t.bits() as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    /// bytes touched by a load/store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (((*n as u64) + 7) / 8).next_power_of_two();
                b.clamp(1, 16)
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Vec(..) => self.size().clamp(1, 64),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, p) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn elem(&self, i: usize) -> (&Ty, u64) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (f, o);
                    }
                    o += f.size();
                }
                panic!("struct index")
            }
            Ty::Arr(_, t) => (t, i as u64 * t.size()),
            Ty::Vec(_, t) => (t, i as u64 * t.size()),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelems(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// constants
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<K>),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opn {
    Reg(u32),
    V(Val),
    Wide(u128, u32),
}

pub fn kval(k: &K, ty: &Ty) -> Val {
    match ty {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => match k {
            K::Agg(v) => Val::Agg(Rc::new(v.iter().enumerate().map(|(i, x)| kval(x, ty.elem(i).0)).collect())),
            K::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::C(*x as u64, 8)).collect())),
            K::Zero => Val::Agg(Rc::new((0..ty.nelems()).map(|i| kval(&K::Zero, ty.elem(i).0)).collect())),
            K::Undef => Val::Agg(Rc::new((0..ty.nelems()).map(|i| kval(&K::Undef, ty.elem(i).0)).collect())),
            K::Int(_) => panic!("int for aggregate"),
        },
        _ => match k {
            K::Int(n) => {
                assert!(ty.bits() <= 64 || *n <= u64::MAX as u128 && false, "wide constant inside aggregate");
                Val::C(*n as u64, ty.bits() as u8)
            }
            K::Zero => Val::C(0, ty.bits() as u8),
            _ => Val::U,
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    Other,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),
    Indirect(Opn),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, align: u64, count: Option<(Opn, u32)> },
    Load { dst: u32, ty: Ty, ptr: Opn },
    Store { ty: Ty, val: Opn, ptr: Opn },
    Gep { dst: u32, base: Opn, off: i64, idx: Vec<(Opn, u32, i64)> },
    Bin { dst: u32, op: BinOp, ty: Ty, a: Opn, b: Opn },
    ICmp { dst: u32, p: Pred, ty: Ty, a: Opn, b: Opn },
    FCmp { dst: u32, p: String, ty: Ty, a: Opn, b: Opn },
    Select { dst: u32, cty: Ty, ty: Ty, c: Opn, a: Opn, b: Opn },
    Cast { dst: u32, k: CastK, name: &'static str, from: Ty, to: Ty, a: Opn },
    Call { dst: Option<u32>, rty: Ty, callee: Callee, args: Vec<(Ty, Opn)> },
    ExtractValue { dst: u32, a: Opn, idx: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Opn, v: Opn, idx: Vec<u32> },
    ExtractElement { dst: u32, n: u32, a: Opn, i: Opn, iw: u32 },
    InsertElement { dst: u32, n: u32, a: Opn, v: Opn, i: Opn, iw: u32 },
    Shuffle { dst: u32, n: u32, a: Opn, b: Opn, mask: K, m: u32 },
    Freeze { dst: u32, ty: Ty, a: Opn },
    FNeg { dst: u32, ty: Ty, a: Opn },
    AtomicRmw { dst: u32, op: String, ty: Ty, ptr: Opn, v: Opn },
    CmpXchg { dst: u32, ty: Ty, ptr: Opn, cmp: Opn, new: Opn },
    Nop,
    Br(u32),
    CondBr(Opn, u32, u32),
    Switch { w: u32, v: Opn, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opn)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ins: Vec<(Opn, u32)>, // by predecessor block
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty)>,
    pub rty: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<i32>, // -1 exit, -2 none
    pub live_in: Vec<Vec<u32>>,
    pub id: usize,
}

pub enum GKind {
    Func { def: bool },
    Var { line: usize, constant: bool },
}
pub struct Global {
    pub name: Rc<str>,
    pub kind: GKind,
    pub line: usize,
    pub end: usize,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<Rc<str>, usize>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

pub const OBJ_SHIFT: u32 = 24;
pub fn gaddr(i: usize) -> u64 {
    ((i as u64) + 16) << OBJ_SHIFT
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    L(String),
    G(String),
    M(String),
    N(i128),
    Hex(String),
    S(Vec<u8>),
    P(char),
    Attr(String),
    Dots,
}

fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() && b[i + 1] != b'\\' {
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            o.push(h);
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::M(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr(s[st..i].to_string()));
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::S(unescape(&s[st..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::S(unescape(&s[st..i])));
                i += 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                if c == b'0' && i < b.len() && b[i] == b'x' {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_alphanumeric() {
                        i += 1;
                    }
                    out.push(Tok::Hex(s[st + 2..i].to_string()));
                } else {
                    let mut fl = false;
                    while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || b[i] == b'e' || b[i] == b'+') {
                        if !b[i].is_ascii_digit() {
                            fl = true;
                        }
                        i += 1;
                    }
                    if fl {
                        let f: f64 = s[st..i].parse().unwrap_or(0.0);
                        out.push(Tok::Hex(format!("{:016X}", f.to_bits())));
                    } else {
                        out.push(match s[st..i].parse::<i128>() {
                            Ok(v) => Tok::N(v),
                            Err(_) => match s[st..i].parse::<u128>() {
                                Ok(v) => Tok::N(v as i128),
                                Err(_) => Tok::W(s[st..i].to_string()),
                            },
                        });
                    }
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct Cx<'a> {
    pub m: &'a Module,
    pub t: Vec<Tok>,
    pub i: usize,
    pub regs: Option<&'a mut HashMap<String, u32>>,
    pub blocks: Option<&'a mut HashMap<String, u32>>,
}

fn int_ty(w: &str) -> Option<u32> {
    if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl<'a> Cx<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(w)) if w == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected '{}' at {:?} in {:?}", c, self.peek(), self.t);
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::N(n) => n,
            t => panic!("expected number, got {:?} in {:?}", t, self.t),
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                int_ty(w).is_some()
                    || matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata")
            }
            Some(Tok::L(_)) => true,
            Some(Tok::P(c)) => matches!(c, '{' | '[' | '<'),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => {
                if let Some(n) = int_ty(&w) {
                    return Ty::Int(n);
                }
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.is_w("addrspace") {
                            self.i += 4;
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" => Ty::Int(16),
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ => panic!("type? {} in {:?}", w, self.t),
                }
            }
            Tok::L(n) => self.m.types.get(&n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            Tok::P('{') => {
                let mut fs = vec![];
                while !self.eat_p('}') {
                    fs.push(self.ty());
                    self.eat_p(',');
                }
                Ty::Struct(fs, false)
            }
            Tok::P('[') => {
                let n = self.num() as u64;
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut fs = vec![];
                    while !self.eat_p('}') {
                        fs.push(self.ty());
                        self.eat_p(',');
                    }
                    self.exp('>');
                    Ty::Struct(fs, true)
                } else {
                    let n = self.num() as u32;
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => panic!("type? {:?} in {:?}", t, self.t),
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn gval(&mut self, n: &str) -> K {
        let mut name = n.to_string();
        while let Some(a) = self.m.aliases.get(&name) {
            name = a.clone();
        }
        match self.m.gidx.get(name.as_str()) {
            Some(&i) => K::Int(gaddr(i) as u128),
            None => panic!("unknown global @{}", name),
        }
    }
    /// parse a value of type ty
    fn value(&mut self, ty: &Ty) -> Opn {
        if let Some(Tok::L(n)) = self.peek().cloned() {
            self.i += 1;
            let r = self.regs.as_mut().expect("register in constant");
            let k = r.len() as u32;
            let id = *r.entry(n).or_insert(k);
            return Opn::Reg(id);
        }
        let k = self.konst(ty);
        if let Ty::Int(w) = ty {
            if *w > 64 {
                return match k {
                    K::Int(n) => Opn::Wide(n, *w),
                    K::Zero => Opn::Wide(0, *w),
                    _ => Opn::V(Val::U),
                };
            }
        }
        Opn::V(kval(&k, ty))
    }
    pub fn konst(&mut self, ty: &Ty) -> K {
        match self.next() {
            Tok::N(n) => {
                let w = ty.bits();
                K::Int((n as u128) & crate::term::mask(w))
            }
            Tok::Hex(h) => {
                let h = h.trim_start_matches(|c: char| c == 'H' || c == 'K' || c == 'L' || c == 'M');
                let bits = u64::from_str_radix(h, 16).unwrap_or(0);
                if *ty == Ty::F32 {
                    K::Int((f64::from_bits(bits) as f32).to_bits() as u128)
                } else {
                    K::Int(bits as u128)
                }
            }
            Tok::S(b) => K::Bytes(b),
            Tok::G(n) => self.gval(&n),
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat_p(',');
                }
                K::Agg(v)
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat_p(']') {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat_p(',');
                }
                K::Agg(v)
            }
            Tok::P('<') => {
                let packed = self.eat_p('{');
                let mut v = vec![];
                loop {
                    if packed && self.eat_p('}') {
                        self.exp('>');
                        break;
                    }
                    if !packed && self.eat_p('>') {
                        break;
                    }
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat_p(',');
                }
                K::Agg(v)
            }
            Tok::W(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" => K::Int(0),
                "null" => K::Int(0),
                "undef" | "poison" => K::Undef,
                "zeroinitializer" => K::Zero,
                "none" => K::Zero,
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    self.exp(')');
                    K::Agg(vec![k; ty.nelems()])
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" | "zext" => {
                    self.exp('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    assert!(self.eat_w("to"));
                    let t2 = self.ty();
                    self.exp(')');
                    match k {
                        K::Int(n) => K::Int(n & crate::term::mask(t2.bits())),
                        k => k,
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        if let Tok::W(w) = self.next() {
                            if w == "inrange" {
                                self.skip_parens();
                            }
                        }
                    }
                    self.exp('(');
                    let sty = self.ty();
                    self.exp(',');
                    let bt = self.ty();
                    let base = match self.konst(&bt) {
                        K::Int(n) => n as u64,
                        K::Zero => 0,
                        k => panic!("gep base {:?}", k),
                    };
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty();
                        match self.konst(&it) {
                            K::Int(n) => idx.push(crate::term::sext128(n, it.bits()) as i64),
                            K::Zero => idx.push(0),
                            k => panic!("gep idx {:?}", k),
                        }
                    }
                    self.exp(')');
                    let mut off = idx.get(0).copied().unwrap_or(0) * sty.size() as i64;
                    let mut cur = sty.clone();
                    for &ix in idx.iter().skip(1) {
                        let (t, o) = {
                            let (t, o) = match &cur {
                                Ty::Struct(..) => cur.elem(ix as usize),
                                Ty::Arr(_, t) => (&**t, (ix * t.size() as i64) as u64),
                                _ => panic!("gep"),
                            };
                            (t.clone(), o)
                        };
                        off += o as i64;
                        cur = t;
                    }
                    K::Int(base.wrapping_add(off as u64) as u128)
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp(')');
                    match (a, b) {
                        (K::Int(x), K::Int(y)) => {
                            let r = match w.as_str() {
                                "sub" => x.wrapping_sub(y),
                                "add" => x.wrapping_add(y),
                                "xor" => x ^ y,
                                "and" => x & y,
                                "or" => x | y,
                                "mul" => x.wrapping_mul(y),
                                _ => x << y,
                            };
                            K::Int(r & crate::term::mask(t.bits()))
                        }
                        _ => panic!("const binop"),
                    }
                }
                "c" => panic!("c string"),
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                _ => panic!("const? {} in {:?}", w, self.t),
            },
            t => panic!("const? {:?} in {:?}", t, self.t),
        }
    }
    fn tval(&mut self) -> (Ty, Opn) {
        let t = self.ty();
        let v = self.value(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert!(self.eat_w("label"), "label in {:?}", self.t);
        match self.next() {
            Tok::L(n) => self.blk(n),
            t => panic!("label {:?}", t),
        }
    }
    fn blk(&mut self, n: String) -> u32 {
        let b = self.blocks.as_mut().unwrap();
        match b.get(&n) {
            Some(x) => *x,
            None => panic!("unknown block {}", n),
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while let Some(Tok::W(w)) = self.peek() {
            if ws.contains(&w.as_str()) {
                self.i += 1
            } else {
                break;
            }
        }
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut i = 0;
        let mut tlines = vec![];
        while i < m.lines.len() {
            let l = m.lines[i];
            let b = l.as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            match b[0] {
                b'@' => {
                    let t = lex(&l[..l.len().min(2000).min(l.find(" = ").unwrap_or(0))]);
                    if let Some(Tok::G(n)) = t.get(0) {
                        let rest = &l[l.find(" = ").unwrap() + 3..];
                        let mut words = rest.split(' ').take(12).take_while(|w| *w != "global" && *w != "constant");
                        if words.any(|w| w == "alias") {
                            let tt = lex(rest);
                            let tgt = tt.iter().rev().find_map(|x| if let Tok::G(g) = x { Some(g.clone()) } else { None }).unwrap();
                            m.aliases.insert(n.clone(), tgt);
                        } else {
                            let constant = rest.split(' ').take(12).find(|w| *w == "global" || *w == "constant") == Some("constant");
                            m.add(n, GKind::Var { line: i, constant }, i, i);
                        }
                    }
                }
                b'%' => tlines.push(i),
                b'd' if l.starts_with("define") || l.starts_with("declare") => {
                    let at = l.find('@').unwrap();
                    let name = if l.as_bytes()[at + 1] == b'"' {
                        let e = l[at + 2..].find('"').unwrap();
                        l[at + 2..at + 2 + e].to_string()
                    } else {
                        let e = l[at + 1..].find('(').unwrap();
                        l[at + 1..at + 1 + e].to_string()
                    };
                    if l.starts_with("define") {
                        let st = i;
                        while m.lines[i] != "}" {
                            i += 1;
                        }
                        m.add(&name, GKind::Func { def: true }, st, i);
                    } else {
                        m.add(&name, GKind::Func { def: false }, i, i);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        for li in tlines {
            let l = m.lines[li];
            let t = lex(l);
            if let Tok::L(n) = &t[0] {
                let n = n.clone();
                let mut cx = Cx { m: &m, t, i: 3, regs: None, blocks: None };
                if cx.is_w("opaque") {
                    continue;
                }
                let ty = cx.ty();
                m.types.insert(n, ty);
            }
        }
        m
    }
    fn add(&mut self, n: &str, kind: GKind, line: usize, end: usize) {
        let name: Rc<str> = n.into();
        self.gidx.insert(name.clone(), self.globals.len());
        self.globals.push(Global { name, kind, line, end });
    }
    /// parse global variable -> (type, initialiser, constant)
    pub fn global_var(&self, gi: usize) -> (Ty, Option<K>, bool) {
        let (line, constant) = match self.globals[gi].kind {
            GKind::Var { line, constant } => (line, constant),
            _ => panic!("not a var"),
        };
        let t = lex(self.lines[line]);
        let mut cx = Cx { m: self, t, i: 2, regs: None, blocks: None };
        let mut external = false;
        loop {
            match cx.next() {
                Tok::W(w) if w == "global" || w == "constant" => break,
                Tok::W(w) if w == "external" || w == "extern_weak" => external = true,
                Tok::P('(') => {
                    cx.i -= 1;
                    cx.skip_parens()
                }
                _ => {}
            }
        }
        let ty = cx.ty();
        if external {
            return (ty, None, constant);
        }
        let k = cx.konst(&ty);
        (ty, Some(k), constant)
    }

    pub fn func(&self, gi: usize) -> Func {
        let g = &self.globals[gi];
        let head = self.lines[g.line];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut blocks: HashMap<String, u32> = HashMap::new();
        // header
        let t = lex(head);
        let mut params = vec![];
        let mut rty = Ty::Void;
        {
            let mut cx = Cx { m: self, t, i: 1, regs: Some(&mut regs), blocks: None };
            // skip to return type
            loop {
                if cx.is_type_start() {
                    rty = cx.ty();
                    if let Some(Tok::G(_)) = cx.peek() {
                        break;
                    }
                    continue;
                }
                if cx.is_p('(') {
                    cx.skip_parens();
                    continue;
                }
                if let Some(Tok::G(_)) = cx.peek() {
                    break;
                }
                cx.next();
            }
            cx.next();
            cx.exp('(');
            let mut pn = 0;
            while !cx.eat_p(')') {
                if cx.peek() == Some(&Tok::Dots) {
                    cx.next();
                    continue;
                }
                let ty = cx.ty();
                let mut nm = None;
                loop {
                    match cx.peek() {
                        Some(Tok::P(',')) => {
                            cx.next();
                            break;
                        }
                        Some(Tok::P(')')) => break,
                        Some(Tok::P('(')) => cx.skip_parens(),
                        Some(Tok::L(n)) => {
                            nm = Some(n.clone());
                            cx.next();
                        }
                        _ => {
                            cx.next();
                        }
                    }
                }
                let nm = nm.unwrap_or_else(|| pn.to_string());
                pn += 1;
                let r = cx.regs.as_mut().unwrap();
                let k = r.len() as u32;
                r.insert(nm, k);
                params.push((k, ty));
            }
        }
        // blocks: find labels
        let mut order: Vec<(usize, usize)> = vec![]; // (first line, end line)
        let mut cur_start = g.line + 1;
        let mut first = true;
        for li in g.line + 1..=g.end {
            let l = self.lines[li];
            let b = l.as_bytes();
            let is_label = !b.is_empty() && b[0] != b' ' && b[0] != b';' && b[0] != b'}' && l.contains(':');
            if is_label {
                let name = if b[0] == b'"' {
                    l[1..].split('"').next().unwrap().to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                if first {
                    if li != g.line + 1 {
                        // entry block has implicit label
                        blocks.insert("\u{1}entry".into(), 0);
                        order.push((cur_start, li));
                    }
                    first = false;
                } else {
                    order.push((cur_start, li));
                }
                let id = order.len() as u32;
                blocks.insert(name, id);
                cur_start = li + 1;
            }
        }
        order.push((cur_start, g.end));
        if first {
            blocks.insert("\u{1}entry".into(), 0);
        }
        // implicit entry label name: number of params (unnamed)
        if blocks.contains_key("\u{1}entry") {
            let n = params.len().to_string();
            blocks.entry(n).or_insert(0);
        }
        let mut bl = vec![];
        for (s, e) in order {
            let mut phis = vec![];
            let mut insts = vec![];
            let mut li = s;
            while li < e {
                let l = self.lines[li];
                li += 1;
                let tl = l.trim_start();
                if tl.is_empty() || tl.starts_with(';') {
                    continue;
                }
                let mut t = lex(l);
                if t.is_empty() {
                    continue;
                }
                // multi-line: switch, invoke, landingpad
                let has = |t: &Vec<Tok>, w: &str| t.iter().take(6).any(|x| matches!(x, Tok::W(s) if s == w));
                if has(&t, "switch") {
                    while !t.iter().rev().take(60).any(|x| *x == Tok::P(']')) || !matches!(self.lines[li - 1].trim_start().chars().next(), Some(']')) {
                        if t.iter().any(|x| *x == Tok::P('[')) && self.lines[li - 1].contains("[ ]") {
                            break;
                        }
                        t.extend(lex(self.lines[li]));
                        li += 1;
                    }
                } else if has(&t, "invoke") {
                    t.extend(lex(self.lines[li]));
                    li += 1;
                } else if has(&t, "landingpad") {
                    while li < e {
                        let x = self.lines[li].trim_start();
                        if x.starts_with("cleanup") || x.starts_with("catch") || x.starts_with("filter") {
                            li += 1;
                        } else {
                            break;
                        }
                    }
                }
                let mut cx = Cx { m: self, t, i: 0, regs: Some(&mut regs), blocks: Some(&mut blocks) };
                let mut dst = None;
                if let (Some(Tok::L(n)), Some(Tok::P('='))) = (cx.t.get(0).cloned(), cx.t.get(1)) {
                    let r = cx.regs.as_mut().unwrap();
                    let k = r.len() as u32;
                    dst = Some(*r.entry(n).or_insert(k));
                    cx.i = 2;
                }
                let op = match cx.next() {
                    Tok::W(w) => w,
                    t => panic!("inst {:?} : {}", t, l),
                };
                if op == "phi" {
                    cx.skip_words(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                    let ty = cx.ty();
                    let mut ins = vec![];
                    loop {
                        if !cx.eat_p('[') {
                            break;
                        }
                        let v = cx.value(&ty);
                        cx.exp(',');
                        let b = match cx.next() {
                            Tok::L(n) => cx.blk(n),
                            t => panic!("phi {:?}", t),
                        };
                        cx.exp(']');
                        ins.push((v, b));
                        if !cx.eat_p(',') {
                            break;
                        }
                        if !cx.is_p('[') {
                            break;
                        }
                    }
                    phis.push(Phi { dst: dst.unwrap(), ins });
                } else {
                    self.inst(&mut cx, dst, &op, l, &mut insts);
                }
            }
            bl.push(Block { phis, insts });
        }
        let nregs = regs.len() as u32;
        let mut f = Func {
            name: g.name.clone(),
            params,
            rty,
            nregs,
            blocks: bl,
            ipdom: vec![],
            live_in: vec![],
            id: gi,
        };
        crate::cfg::analyse(&mut f);
        f
    }

    fn inst(&self, cx: &mut Cx, dst: Option<u32>, op: &str, line: &str, out: &mut Vec<Inst>) {
        let bop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            _ => None,
        };
        if let Some(op) = bop {
            cx.skip_words(&["nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
            let ty = cx.ty();
            let a = cx.value(&ty);
            cx.exp(',');
            let b = cx.value(&ty);
            out.push(Inst::Bin { dst: dst.unwrap(), op, ty, a, b });
            return;
        }
        match op {
            "alloca" => {
                cx.skip_words(&["inalloca"]);
                let ty = cx.ty();
                let mut count = None;
                let mut align = ty.align();
                while cx.eat_p(',') {
                    if cx.eat_w("align") {
                        align = cx.num() as u64;
                    } else if cx.is_type_start() {
                        let (t, v) = cx.tval();
                        count = Some((v, t.bits()));
                    } else {
                        break;
                    }
                }
                let count = match count {
                    Some((Opn::V(Val::C(1, _)), _)) => None,
                    c => c,
                };
                out.push(Inst::Alloca { dst: dst.unwrap(), size: ty.size(), align, count });
            }
            "load" => {
                cx.skip_words(&["atomic", "volatile"]);
                let ty = cx.ty();
                cx.exp(',');
                let (_, ptr) = cx.tval();
                out.push(Inst::Load { dst: dst.unwrap(), ty, ptr });
            }
            "store" => {
                cx.skip_words(&["atomic", "volatile"]);
                let (ty, val) = cx.tval();
                cx.exp(',');
                let (_, ptr) = cx.tval();
                out.push(Inst::Store { ty, val, ptr });
            }
            "getelementptr" => {
                cx.skip_words(&["inbounds", "nuw", "nusw"]);
                let sty = cx.ty();
                cx.exp(',');
                let (bt, base) = cx.tval();
                if let Ty::Vec(..) = bt {
                    out.push(Inst::Unsupported(line.to_string()));
                    return;
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = sty.clone();
                let mut firsti = true;
                while cx.eat_p(',') {
                    if !cx.is_type_start() {
                        break;
                    }
                    let (it, v) = cx.tval();
                    let scale: i64;
                    if firsti {
                        scale = cur.size() as i64;
                        firsti = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                if let Opn::V(k) = &v {
                                    let i = match k {
                                        Val::C(n, _) => *n as usize,
                                        _ => 0,
                                    };
                                    let (t, o) = cur.elem(i);
                                    off += o as i64;
                                    let t = t.clone();
                                    cur = t;
                                    continue;
                                }
                                panic!("gep struct idx");
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                scale = t.size() as i64;
                                cur = (*t).clone();
                            }
                            _ => panic!("gep into {:?}", cur),
                        }
                    }
                    match v {
                        Opn::V(Val::C(n, _)) => {
                            let s = crate::term::sext128(n as u128, it.bits()) as i64;
                            off = off.wrapping_add(s.wrapping_mul(scale));
                        }
                        v => idx.push((v, it.bits(), scale)),
                    }
                }
                out.push(Inst::Gep { dst: dst.unwrap(), base, off, idx });
            }
            "icmp" => {
                cx.skip_words(&["samesign"]);
                let p = match cx.next() {
                    Tok::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("icmp {}", w),
                    },
                    t => panic!("icmp {:?}", t),
                };
                let ty = cx.ty();
                let a = cx.value(&ty);
                cx.exp(',');
                let b = cx.value(&ty);
                out.push(Inst::ICmp { dst: dst.unwrap(), p, ty, a, b });
            }
            "fcmp" => {
                cx.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let p = match cx.next() {
                    Tok::W(w) => w,
                    t => panic!("fcmp {:?}", t),
                };
                let ty = cx.ty();
                let a = cx.value(&ty);
                cx.exp(',');
                let b = cx.value(&ty);
                out.push(Inst::FCmp { dst: dst.unwrap(), p, ty, a, b });
            }
            "select" => {
                cx.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (cty, c) = cx.tval();
                cx.exp(',');
                let (ty, a) = cx.tval();
                cx.exp(',');
                let (_, b) = cx.tval();
                out.push(Inst::Select { dst: dst.unwrap(), cty, ty, c, a, b });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptrunc" | "fpext"
            | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" => {
                cx.skip_words(&["nuw", "nsw", "nneg"]);
                let (from, a) = cx.tval();
                assert!(cx.eat_w("to"));
                let to = cx.ty();
                let name: &'static str = match op {
                    "fptrunc" => "fptrunc",
                    "fpext" => "fpext",
                    "fptoui" => "fptoui",
                    "fptosi" => "fptosi",
                    "uitofp" => "uitofp",
                    "sitofp" => "sitofp",
                    _ => "",
                };
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" | "addrspacecast" => CastK::Bitcast,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (f, t) = (from.bits(), to.bits());
                        if f > t {
                            CastK::Trunc
                        } else if f < t {
                            CastK::ZExt
                        } else {
                            CastK::Bitcast
                        }
                    }
                    _ => CastK::Other,
                };
                out.push(Inst::Cast { dst: dst.unwrap(), k, name, from, to, a });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    cx.next();
                }
                let mut rty;
                loop {
                    if cx.is_type_start() {
                        rty = cx.ty();
                        break;
                    }
                    if cx.is_p('(') {
                        cx.skip_parens();
                    } else {
                        cx.next();
                    }
                }
                if cx.is_p('(') {
                    cx.skip_parens(); // function type
                }
                if cx.is_w("asm") {
                    let mut lbl = None;
                    if op == "invoke" {
                        while !cx.is_w("to") {
                            cx.next();
                        }
                        cx.next();
                        lbl = Some(cx.label());
                    }
                    // inline asm with side effect only (compiler barriers): treat as no-op when it returns nothing
                    out.push(if rty == Ty::Void && line.contains("asm sideeffect \"\"") { Inst::Nop } else { Inst::Unsupported(line.to_string()) });
                    if let Some(l) = lbl {
                        out.push(Inst::Br(l));
                    }
                    return;
                }
                let callee = match cx.next() {
                    Tok::G(n) => {
                        let mut n = n;
                        while let Some(a) = self.aliases.get(&n) {
                            n = a.clone();
                        }
                        match self.gidx.get(n.as_str()) {
                            Some(&g) => Callee::Direct(g),
                            None => panic!("unknown callee {}", n),
                        }
                    }
                    Tok::L(n) => {
                        let r = cx.regs.as_mut().unwrap();
                        let k = r.len() as u32;
                        Callee::Indirect(Opn::Reg(*r.entry(n).or_insert(k)))
                    }
                    t => panic!("callee {:?} in {}", t, line),
                };
                cx.exp('(');
                let mut args = vec![];
                while !cx.eat_p(')') {
                    if cx.eat_p(',') {
                        continue;
                    }
                    let ty = cx.ty();
                    if ty == Ty::Meta {
                        // metadata operand
                        let mut d = 0;
                        loop {
                            match cx.peek() {
                                Some(Tok::P('(')) => d += 1,
                                Some(Tok::P(')')) if d > 0 => d -= 1,
                                Some(Tok::P(',')) | Some(Tok::P(')')) if d == 0 => break,
                                _ => {}
                            }
                            cx.next();
                        }
                        args.push((Ty::Meta, Opn::V(Val::U)));
                        continue;
                    }
                    // attributes
                    loop {
                        match cx.peek() {
                            Some(Tok::W(w)) => {
                                let w = w.clone();
                                if matches!(
                                    w.as_str(),
                                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                                        | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "getelementptr" | "sub"
                                        | "add" | "xor" | "and" | "or" | "mul" | "shl" | "ptrtoaddr" | "none" | "zext"
                                ) {
                                    break;
                                }
                                cx.next();
                                if w == "align" || w == "alignstack" {
                                    if let Some(Tok::N(_)) = cx.peek() {
                                        cx.next();
                                    }
                                }
                                if cx.is_p('(') {
                                    cx.skip_parens();
                                }
                            }
                            Some(Tok::S(_)) => {
                                // string attribute "k"="v" or c"..."
                                if ty.nelems() > 0 {
                                    break;
                                }
                                cx.next();
                                if cx.eat_p('=') {
                                    cx.next();
                                }
                            }
                            _ => break,
                        }
                    }
                    let v = cx.value(&ty);
                    args.push((ty, v));
                }
                if rty == Ty::Meta {
                    rty = Ty::Void;
                }
                let nm: Option<Rc<str>> = if let Callee::Direct(n) = &callee { Some(self.globals[*n].name.clone()) } else { None };
                let nop = match &nm {
                    Some(n) => {
                        n.starts_with("llvm.assume")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.donothing")
                            || n.starts_with("llvm.prefetch")
                            || n.starts_with("llvm.invariant.end")
                    }
                    None => false,
                };
                if nop {
                    out.push(Inst::Nop);
                } else {
                    out.push(Inst::Call { dst, rty, callee, args });
                }
                if op == "invoke" {
                    while !cx.is_w("to") {
                        cx.next();
                    }
                    cx.next();
                    let l = cx.label();
                    out.push(Inst::Br(l));
                }
            }
            "extractvalue" => {
                let (_, a) = cx.tval();
                let mut idx = vec![];
                while cx.eat_p(',') {
                    if let Some(Tok::N(_)) = cx.peek() {
                        idx.push(cx.num() as u32);
                    } else {
                        break;
                    }
                }
                out.push(Inst::ExtractValue { dst: dst.unwrap(), a, idx });
            }
            "insertvalue" => {
                let (ty, a) = cx.tval();
                cx.exp(',');
                let (_, v) = cx.tval();
                let mut idx = vec![];
                while cx.eat_p(',') {
                    if let Some(Tok::N(_)) = cx.peek() {
                        idx.push(cx.num() as u32);
                    } else {
                        break;
                    }
                }
                out.push(Inst::InsertValue { dst: dst.unwrap(), ty, a, v, idx });
            }
            "extractelement" => {
                let (t, a) = cx.tval();
                cx.exp(',');
                let (it, i) = cx.tval();
                out.push(Inst::ExtractElement { dst: dst.unwrap(), n: t.nelems() as u32, a, i, iw: it.bits() });
            }
            "insertelement" => {
                let (t, a) = cx.tval();
                cx.exp(',');
                let (_, v) = cx.tval();
                cx.exp(',');
                let (it, i) = cx.tval();
                out.push(Inst::InsertElement { dst: dst.unwrap(), n: t.nelems() as u32, a, v, i, iw: it.bits() });
            }
            "shufflevector" => {
                let (t, a) = cx.tval();
                cx.exp(',');
                let (_, b) = cx.tval();
                cx.exp(',');
                let mt = cx.ty();
                let mask = cx.konst(&mt);
                out.push(Inst::Shuffle { dst: dst.unwrap(), n: t.nelems() as u32, a, b, mask, m: mt.nelems() as u32 });
            }
            "freeze" => {
                let (ty, a) = cx.tval();
                out.push(Inst::Freeze { dst: dst.unwrap(), ty, a });
            }
            "fneg" => {
                cx.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (ty, a) = cx.tval();
                out.push(Inst::FNeg { dst: dst.unwrap(), ty, a });
            }
            "atomicrmw" => {
                cx.skip_words(&["volatile"]);
                let o = match cx.next() {
                    Tok::W(w) => w,
                    _ => panic!("rmw"),
                };
                let (_, ptr) = cx.tval();
                cx.exp(',');
                let (ty, v) = cx.tval();
                out.push(Inst::AtomicRmw { dst: dst.unwrap(), op: o, ty, ptr, v });
            }
            "cmpxchg" => {
                cx.skip_words(&["weak", "volatile"]);
                let (_, ptr) = cx.tval();
                cx.exp(',');
                let (ty, cmp) = cx.tval();
                cx.exp(',');
                let (_, new) = cx.tval();
                out.push(Inst::CmpXchg { dst: dst.unwrap(), ty, ptr, cmp, new });
            }
            "fence" => out.push(Inst::Nop),
            "br" => {
                if cx.is_w("label") {
                    let l = cx.label();
                    out.push(Inst::Br(l));
                } else {
                    let (_, c) = cx.tval();
                    cx.exp(',');
                    let a = cx.label();
                    cx.exp(',');
                    let b = cx.label();
                    out.push(Inst::CondBr(c, a, b));
                }
            }
            "switch" => {
                let (ty, v) = cx.tval();
                cx.exp(',');
                let default = cx.label();
                cx.exp('[');
                let mut cases = vec![];
                while !cx.eat_p(']') {
                    let t = cx.ty();
                    let k = match cx.konst(&t) {
                        K::Int(n) => n,
                        _ => 0,
                    };
                    cx.exp(',');
                    let l = cx.label();
                    cases.push((k, l));
                }
                out.push(Inst::Switch { w: ty.bits(), v, default, cases });
            }
            "ret" => {
                let ty = cx.ty();
                if ty == Ty::Void {
                    out.push(Inst::Ret(None));
                } else {
                    let v = cx.value(&ty);
                    out.push(Inst::Ret(Some((ty, v))));
                }
            }
            "unreachable" => out.push(Inst::Unreachable),
            "landingpad" => out.push(Inst::Nop),
            "resume" => out.push(Inst::Unsupported(line.to_string())),
            _ => out.push(Inst::Unsupported(line.to_string())),
        }
    }
}
