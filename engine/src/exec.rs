//! Symbolic execution of the IR with state merging at post-dominators.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp0: u64,
    pub dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub model: Rc<Model>,
    pub nsym: usize,
    pub obs: Rc<Vec<Val>>,
    pub panic_ok: Val,
    pub steps: u64,
    pub jumped: bool,
    pub nomerge: bool,
    /// Folded values of `vk_split`: states that differ here are never merged
    pub tag: u64,
}

pub enum X {
    Viol(&'static str, u32, String),
    Panic(String),
    Unsup(String),
    Fork(Vec<(Vec<T>, Option<(u32, Val)>)>),
    Branch(Vec<(Vec<T>, u32)>),
    Dead,
    Done,
}
type R<A> = Result<A, X>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Stop {
    pub depth: usize,
    pub block: i32,
}

#[derive(Clone, Debug)]
pub enum Target {
    Func(usize),
    Builtin(&'static str),
    Panic(&'static str),
    Unknown,
}

pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub outcome: String,
}

pub struct Config {
    pub params: Vec<u64>,
    pub deadline: Instant,
    pub max_steps: u64,
    pub merge: bool,
    pub hash0: bool,
    /// split paths when a load may give pointers to different objects
    pub fork_ptr: bool,
    pub max_samples: usize,
    pub per_path_samples: usize,
    pub seed: u64,
    pub max_viol: usize,
    pub trace: bool,
}

pub struct Engine {
    pub m: Module,
    pub ts: Terms,
    pub sv: Solver,
    pub cfg: Config,
    pub funcs: HashMap<usize, Rc<Func>>,
    pub gobjs: HashMap<usize, Rc<Obj>>,
    pub targets: Vec<Option<Target>>,
    pub executed: HashSet<usize>,
    pub viols: Vec<Violation>,
    pub seen_viol: HashMap<String, usize>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<u32, u64>,
    pub paths_ok: u64,
    pub paths_panic: u64,
    pub paths_dead: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_refused: u64,
    pub instrs: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub error: Option<String>,
    pub rng: u64,
    pub fork_sites: HashMap<(usize, u32), u64>,
    pub obsname: u64,
}

pub fn vw(v: &Val, ts: &Terms) -> u32 {
    match v {
        Val::C(_, w) => *w as u32,
        Val::S(t) => ts.w(*t),
        _ => 0,
    }
}

enum Node {
    Leaf(usize),
    Seq(Vec<T>, Box<Node>),
    Split(T, Box<Node>, Box<Node>),
    Chain(Vec<(T, usize)>),
}

impl Engine {
    pub fn mkv(&self, t: T) -> Val {
        let n = self.ts.n(t);
        if n.op == Op::Const && n.w <= 64 {
            Val::C(n.k as u64, n.w as u8)
        } else {
            Val::S(t)
        }
    }
    pub fn t(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c, _) => self.ts.cst(*c as u128, w),
            Val::S(t) => *t,
            Val::U => self.ts.cst(0, w),
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn opn(&mut self, fr: &Frame, o: &Opn) -> Val {
        match o {
            Opn::Reg(r) => fr.regs[*r as usize].clone(),
            Opn::V(v) => v.clone(),
            Opn::Wide(n, w) => {
                let t = self.ts.cst(*n, *w);
                Val::S(t)
            }
        }
    }
    pub fn eval(&self, m: &Model, t: T) -> u128 {
        self.ts.eval(t, &m.vals, &mut m.memo.borrow_mut())
    }
    /// is pc /\ c satisfiable?
    pub fn sat(&mut self, pc: &[T], c: T) -> R<Option<Rc<Model>>> {
        if self.ts.is_const(c) == Some(0) {
            return Ok(None);
        }
        if Instant::now() > self.cfg.deadline {
            return Err(X::Unsup("time limit".into()));
        }
        let (r, m) = self.sv.check(&self.ts, pc, c);
        match r {
            Sat::Sat => {
                let m = m.unwrap();
                // the model must satisfy our own reading of the formula
                for &p in pc.iter().chain(std::iter::once(&c)) {
                    if self.eval(&m, p) != 1 {
                        return Err(X::Unsup("solver model does not satisfy the path condition (encoding error)".into()));
                    }
                }
                Ok(Some(Rc::new(m)))
            }
            Sat::Unsat => Ok(None),
            Sat::Unknown => Err(X::Unsup("solver returned unknown".into())),
        }
    }
    /// feasibility of both sides under the path condition: (true side, false side) models
    fn both(&mut self, st: &State, c: T) -> R<(Option<Rc<Model>>, Option<Rc<Model>>)> {
        let v = self.eval(&st.model, c);
        let nc = self.ts.not(c);
        if v == 1 {
            let o = self.sat(&st.pc, nc)?;
            Ok((Some(st.model.clone()), o))
        } else {
            let o = self.sat(&st.pc, c)?;
            Ok((o, Some(st.model.clone())))
        }
    }

    // ---------------------------------------------------------------- memory
    fn gobj(&mut self, id: u64) -> Option<Rc<Obj>> {
        if id < 16 {
            return None;
        }
        let gi = (id - 16) as usize;
        if gi >= self.m.globals.len() {
            return None;
        }
        if let Some(o) = self.gobjs.get(&gi) {
            return Some(o.clone());
        }
        let o = match self.m.globals[gi].kind {
            GKind::Func { .. } => Obj::new(0, 16, OK::Func, false),
            GKind::Var { .. } => {
                let (ty, k, constant) = self.m.global_var(gi);
                let mut o = Obj::new(ty.size(), 16, if constant { OK::Const } else { OK::Global }, false);
                if let Some(k) = k {
                    init(&mut o, 0, &ty, &k);
                }
                o
            }
        };
        let o = Rc::new(o);
        self.gobjs.insert(gi, o.clone());
        Some(o)
    }
    fn obj(&mut self, st: &State, id: u64) -> Option<Rc<Obj>> {
        match st.mem.get(id) {
            Some(o) => Some(o.clone()),
            None => {
                if id >= STACK_ID {
                    None
                } else {
                    self.gobj(id)
                }
            }
        }
    }
    fn where_(&self, st: &State) -> String {
        match st.frames.last() {
            Some(f) => format!("{} block {} inst {}", f.f.name, f.b, f.ip),
            None => "<top>".into(),
        }
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.to_string()).collect()
    }
    /// check that [addr, addr+n) is inside a live object
    fn valid(&mut self, st: &State, addr: u64, n: u64, write: bool) -> Result<(u64, usize), String> {
        let id = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        match self.obj(st, id) {
            None => Err(format!("access to unmapped address {:#x} ({} bytes)", addr, n)),
            Some(o) => {
                if o.kind == OK::Freed {
                    return Err(format!("use of freed memory ({} bytes)", n));
                }
                if off + n > o.size {
                    return Err(format!("out-of-bounds access: offset {} len {} of a {}-byte object", off, n, o.size));
                }
                if write && o.kind == OK::Const {
                    return Err("write to constant memory".into());
                }
                Ok((id, off as usize))
            }
        }
    }
    fn resolve(&mut self, st: &State, a: T, n: u64, write: bool) -> R<Vec<(T, u64)>> {
        let mut out = vec![];
        let tru = self.ts.tru;
        self.resolve_rec(st, a, n, write, tru, &mut out)?;
        if out.is_empty() {
            return Err(X::Unsup("no feasible target for an address".into()));
        }
        Ok(out)
    }
    fn resolve_rec(&mut self, st: &State, a: T, n: u64, write: bool, g: T, out: &mut Vec<(T, u64)>) -> R<()> {
        let nd = self.ts.n(a);
        if nd.op == Op::Const {
            let addr = nd.k as u64;
            match self.valid(st, addr, n, write) {
                Ok(_) => out.push((g, addr)),
                Err(e) => {
                    if let Some(_) = self.sat(&st.pc, g)? {
                        return Err(X::Viol("memory", 0, e));
                    }
                }
            }
            return Ok(());
        }
        if nd.op == Op::Ite {
            let nc = self.ts.not(nd.a);
            let g1 = self.ts.and(g, nd.a);
            let g2 = self.ts.and(g, nc);
            if g1 != self.ts.fls {
                self.resolve_rec(st, nd.b, n, write, g1, out)?;
            }
            if g2 != self.ts.fls {
                self.resolve_rec(st, nd.c, n, write, g2, out)?;
            }
            return Ok(());
        }
        // base + symbolic offset
        let mut model = st.model.clone();
        if g != self.ts.tru && self.eval(&model, g) != 1 {
            match self.sat(&st.pc, g)? {
                Some(m) => model = m,
                None => return Ok(()),
            }
        }
        let a0 = self.eval(&model, a) as u64;
        let id = a0 >> OBJ_SHIFT;
        let (size, kind) = match self.obj(st, id) {
            Some(o) => (o.size, o.kind),
            None => return Err(X::Viol("memory", 0, format!("access to unmapped address {:#x}", a0))),
        };
        if kind == OK::Freed || size < n || (write && kind == OK::Const) {
            return Err(X::Viol("memory", 0, format!("bad access (object kind {:?}, size {}, len {})", kind, size, n)));
        }
        let base = self.ts.cst((id << OBJ_SHIFT) as u128, 64);
        let idx = self.ts.bin(Op::Sub, a, base);
        let lim = self.ts.cst((size - n + 1) as u128, 64);
        let inb = self.ts.bin(Op::Ult, idx, lim);
        let (mut lo, mut hi) = (0u64, size - n);
        let (rl, rh) = (self.ts.lo[idx as usize], self.ts.hi[idx as usize]);
        if rh <= hi as u128 {
            hi = rh as u64;
            lo = rl as u64;
        } else {
            lo = lo.max(rl.min(u64::MAX as u128) as u64);
            let ninb = self.ts.not(inb);
            let q = self.ts.and(g, ninb);
            if let Some(m) = self.sat(&st.pc, q)? {
                let bad = self.eval(&m, a) as u64;
                if self.valid(st, bad, n, write).is_ok() {
                    // several objects: split the path
                    let inb_g = {
                        let ng = self.ts.not(g);
                        self.ts.or(ng, inb)
                    };
                    let ninb_g = self.ts.not(inb_g);
                    return Err(X::Fork(vec![(vec![inb_g], None), (vec![ninb_g], None)]));
                }
                let s2 = State { model: m, ..st.clone() };
                let e = format!("out-of-bounds access: {} bytes at offset {} of a {}-byte object", n, bad.wrapping_sub(id << OBJ_SHIFT) as i64, size);
                self.report(&s2, "memory", 0, e.clone());
                // continue on the in-bounds part only
                return Err(X::Fork(vec![(vec![inb], None)]));
            }
        }
        let stride = 1u64 << self.ts.tz(idx).min(12);
        let mut o = (lo + stride - 1) / stride * stride;
        let mut cnt = 0;
        while o <= hi {
            let k = self.ts.cst(o as u128, 64);
            let e = self.ts.eq(idx, k);
            let gg = self.ts.and(g, e);
            if gg != self.ts.fls {
                out.push((gg, (id << OBJ_SHIFT) + o));
            }
            o += stride;
            cnt += 1;
            if cnt > 4096 {
                return Err(X::Unsup("symbolic address with more than 4096 candidates".into()));
            }
        }
        Ok(())
    }
    fn read_scalar(&mut self, st: &State, id: u64, off: usize, bits: u32) -> Val {
        let n = ((bits + 7) / 8) as usize;
        let o = self.obj(st, id).unwrap();
        let v = o.read(&mut self.ts, off, n);
        if bits as usize != 8 * n {
            match v {
                Val::C(c, _) => Val::C(c & mask(bits) as u64, bits as u8),
                Val::S(t) => {
                    let e = self.ts.extract(t, 0, bits);
                    self.mkv(e)
                }
                v => v,
            }
        } else {
            v
        }
    }
    fn read_ty(&mut self, st: &State, id: u64, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..ty.nelems() {
                    let (t, o) = ty.elem(i);
                    v.push(self.read_ty(st, id, off + o as usize, t));
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Vec(n, t) => {
                let eb = t.bits();
                if eb % 8 != 0 {
                    // packed bits
                    let v = self.read_scalar(st, id, off, n * eb);
                    return self.unpack(&v, *n, eb);
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.read_scalar(st, id, off + (i * eb / 8) as usize, eb));
                }
                Val::Agg(Rc::new(v))
            }
            _ => self.read_scalar(st, id, off, ty.bits()),
        }
    }
    fn unpack(&mut self, v: &Val, n: u32, eb: u32) -> Val {
        if let Val::U = v {
            return Val::Agg(Rc::new(vec![Val::U; n as usize]));
        }
        let t = self.t(v, n * eb);
        let r = (0..n)
            .map(|i| {
                let e = self.ts.extract(t, i * eb, eb);
                self.mkv(e)
            })
            .collect();
        Val::Agg(Rc::new(r))
    }
    fn pack(&mut self, v: &Val, eb: u32) -> Val {
        match v {
            Val::Agg(vs) => {
                if vs.iter().all(|v| matches!(v, Val::U)) {
                    return Val::U;
                }
                let mut t = None;
                for x in vs.iter() {
                    let e = self.t(x, eb);
                    t = Some(match t {
                        None => e,
                        Some(l) => self.ts.concat(e, l),
                    });
                }
                self.mkv(t.unwrap())
            }
            v => v.clone(),
        }
    }
    fn objw<'a>(&mut self, st: &'a mut State, id: u64) -> &'a mut Obj {
        if st.mem.get(id).is_none() {
            let o = self.gobj(id).unwrap();
            st.mem.put(id, Some(o));
        }
        st.mem.get_mut(id).unwrap()
    }
    fn write_scalar(&mut self, st: &mut State, id: u64, off: usize, bits: u32, v: &Val) {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(c, _) => self.objw(st, id).write_c(off, n, *c),
            Val::U => self.objw(st, id).write_u(off, n),
            Val::S(t) => {
                let t = if bits as usize != 8 * n { self.ts.zext(*t, 8 * n as u32) } else { *t };
                let o = self.objw(st, id);
                // split borrow: terms are only read here
                let ts: *const Terms = &self.ts;
                unsafe { o.write_t(&*ts, off, n, t) }
            }
            Val::Agg(_) => panic!("write aggregate as scalar"),
        }
    }
    fn write_ty(&mut self, st: &mut State, id: u64, off: usize, ty: &Ty, v: &Val) {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => match v {
                Val::Agg(vs) => {
                    for i in 0..ty.nelems() {
                        let (t, o) = ty.elem(i);
                        self.write_ty(st, id, off + o as usize, t, &vs[i]);
                    }
                }
                _ => {
                    let n = ty.size() as usize;
                    self.objw(st, id).write_u(off, n)
                }
            },
            Ty::Vec(n, t) => {
                let eb = t.bits();
                if eb % 8 != 0 {
                    let p = self.pack(v, eb);
                    self.write_scalar(st, id, off, n * eb, &p);
                } else if let Val::Agg(vs) = v {
                    for (i, x) in vs.clone().iter().enumerate() {
                        self.write_scalar(st, id, off + i * (eb as usize / 8), eb, x);
                    }
                } else {
                    let n = ty.size() as usize;
                    self.objw(st, id).write_u(off, n)
                }
            }
            _ => self.write_scalar(st, id, off, ty.bits(), v),
        }
    }
    fn ite_val(&mut self, c: T, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::U, x) | (x, Val::U) => x.clone(),
            (Val::Agg(x), Val::Agg(y)) => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(c, p, q)).collect::<Vec<_>>();
                Val::Agg(Rc::new(v))
            }
            _ => {
                if let (Val::C(x, _), Val::C(y, _)) = (a, b) {
                    if x == y {
                        return a.clone();
                    }
                }
                let w = match (a, b) {
                    (Val::S(t), _) | (_, Val::S(t)) => self.ts.w(*t),
                    (Val::C(_, w), _) => *w as u32,
                    _ => unreachable!(),
                };
                let x = self.t(a, w);
                let y = self.t(b, w);
                let r = self.ts.ite(c, x, y);
                self.mkv(r)
            }
        }
    }
    fn load(&mut self, st: &State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            Val::C(a, _) => match self.valid(st, *a, ty.store_size(), false) {
                Ok((id, off)) => Ok(self.read_ty(st, id, off, ty)),
                Err(e) => Err(X::Viol("memory", 0, e)),
            },
            Val::S(t) => {
                let mut c = self.resolve(st, *t, ty.store_size(), false)?;
                if self.cfg.trace && c.len() > 16 {
                    eprintln!("load with {} candidates at {}: {}", c.len(), self.where_(st), self.ts.show(*t, 6));
                }
                if self.cfg.fork_ptr && c.len() > 1 && matches!(ty, Ty::Ptr | Ty::Int(64)) {
                    c = self.fork_pointers(st, c)?;
                }
                let mut r: Option<Val> = None;
                for (g, a) in c.iter().rev() {
                    let id = a >> OBJ_SHIFT;
                    let off = (a & ((1 << OBJ_SHIFT) - 1)) as usize;
                    let v = self.read_ty(st, id, off, ty);
                    r = Some(match r {
                        None => v,
                        Some(o) => self.ite_val(*g, &v, &o),
                    });
                }
                Ok(r.unwrap())
            }
            Val::U => Err(X::Viol("memory", 0, "load through an undefined pointer".into())),
            Val::Agg(_) => Err(X::Unsup("vector load".into())),
        }
    }
    /// A load which may give pointers to different objects: one path for each object
    fn fork_pointers(&mut self, st: &State, c: Vec<(T, u64)>) -> R<Vec<(T, u64)>> {
        let mut groups: Vec<(u64, T, Vec<(T, u64)>)> = vec![];
        for (g, a) in c {
            let (id, off) = (a >> OBJ_SHIFT, (a & ((1 << OBJ_SHIFT) - 1)) as usize);
            let key = match self.read_scalar(st, id, off, 64) {
                Val::C(x, _) if self.ptrish(st, x) => x >> OBJ_SHIFT,
                _ => 0,
            };
            match groups.iter_mut().find(|x| x.0 == key) {
                Some(x) => {
                    x.1 = self.ts.or(x.1, g);
                    x.2.push((g, a));
                }
                None => groups.push((key, g, vec![(g, a)])),
            }
        }
        if groups.len() > 1 {
            let mut feasible = vec![];
            for x in groups {
                if self.eval(&st.model, x.1) == 1 || self.sat(&st.pc, x.1)?.is_some() {
                    feasible.push(x);
                }
            }
            groups = feasible;
        }
        if groups.len() > 1 {
            return Err(X::Fork(groups.into_iter().map(|x| (vec![x.1], None)).collect()));
        }
        Ok(groups.pop().map(|x| x.2).unwrap_or_default())
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        match p {
            Val::C(a, _) => match self.valid(st, *a, ty.store_size(), true) {
                Ok((id, off)) => {
                    self.write_ty(st, id, off, ty, v);
                    Ok(())
                }
                Err(e) => Err(X::Viol("memory", 0, e)),
            },
            Val::S(t) => {
                let c = self.resolve(st, *t, ty.store_size(), true)?;
                let single = c.len() == 1;
                for (g, a) in c.iter() {
                    let id = a >> OBJ_SHIFT;
                    let off = (a & ((1 << OBJ_SHIFT) - 1)) as usize;
                    if single {
                        self.write_ty(st, id, off, ty, v);
                    } else {
                        let old = self.read_ty(st, id, off, ty);
                        let nv = self.ite_keep(*g, v, &old);
                        self.write_ty(st, id, off, ty, &nv);
                    }
                }
                Ok(())
            }
            _ => Err(X::Viol("memory", 0, "store through an undefined pointer".into())),
        }
    }
    fn ite_keep(&mut self, c: T, a: &Val, b: &Val) -> Val {
        self.ite_val(c, a, b)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.valid(st, s, n, false).map_err(|e| X::Viol("memory", 0, format!("memcpy source: {}", e)))?;
        let (did, dof) = self.valid(st, d, n, true).map_err(|e| X::Viol("memory", 0, format!("memcpy dest: {}", e)))?;
        let src = self.obj(st, sid).unwrap();
        let data = src.data[so..so + n as usize].to_vec();
        let sym = src.sym.as_ref().map(|v| v[so..so + n as usize].to_vec());
        drop(src);
        let o = self.objw(st, did);
        o.data[dof..dof + n as usize].copy_from_slice(&data);
        match (&mut o.sym, sym) {
            (Some(d), Some(s)) => d[dof..dof + n as usize].copy_from_slice(&s),
            (Some(d), None) => d[dof..dof + n as usize].fill(0),
            (None, Some(s)) => {
                if s.iter().any(|c| *c != 0) {
                    let mut v = vec![0; o.size as usize];
                    v[dof..dof + n as usize].copy_from_slice(&s);
                    o.sym = Some(v);
                }
            }
            (None, None) => {}
        }
        Ok(())
    }

    // ------------------------------------------------------------- reporting
    pub fn report(&mut self, st: &State, kind: &str, id: u32, msg: String) {
        let key = format!("{}:{}:{}", kind, id, msg);
        let c = self.seen_viol.entry(key).or_insert(0);
        *c += 1;
        if *c > 1 {
            return;
        }
        let inputs = (0..st.nsym).map(|i| st.model.vals.get(i).copied().unwrap_or(0)).collect();
        let stack = self.stack_names(st);
        self.viols.push(Violation { kind: kind.into(), id, msg, inputs, stack });
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn sample(&mut self, st: &State, outcome: &str) -> R<()> {
        if self.samples.len() >= self.cfg.max_samples {
            return Ok(());
        }
        let mut models = vec![st.model.clone()];
        let k = if st.nsym == 0 { 0 } else { self.cfg.per_path_samples.min(self.cfg.max_samples - self.samples.len()) };
        for _ in 1..k {
            // push a few random equalities to diversify the model
            let mut c = self.ts.tru;
            let mut best = None;
            for _ in 0..3 {
                let i = (self.rand() % st.nsym as u64) as usize;
                let (t, w) = self.ts.vars[i];
                if t == u32::MAX {
                    continue;
                }
                let r = self.rand() as u128 & mask(w);
                let b = self.rand() % w.max(1) as u64;
                // fix one random bit and, when small, the whole value
                let e = if w <= 4 {
                    let k = self.ts.cst(r, w);
                    self.ts.eq(t, k)
                } else {
                    let x = self.ts.extract(t, b as u32, 1);
                    let k = self.ts.cst(r >> b & 1, 1);
                    self.ts.eq(x, k)
                };
                let nc = self.ts.and(c, e);
                if let Some(m) = self.sat(&st.pc, nc)? {
                    c = nc;
                    best = Some(m);
                }
            }
            if let Some(m) = best {
                models.push(m);
            }
        }
        let mut seen = HashSet::new();
        for m in models {
            let inputs: Vec<u64> = (0..st.nsym).map(|i| m.vals.get(i).copied().unwrap_or(0)).collect();
            if !seen.insert(inputs.clone()) {
                continue;
            }
            let mut obs = vec![];
            for o in st.obs.clone().iter() {
                obs.push(match o {
                    Val::C(c, _) => *c,
                    Val::S(t) => self.eval(&m, *t) as u64,
                    _ => 0,
                });
            }
            let oc = if outcome == "panic" {
                // a merged "allowed" panic is only a panic on this model if allowed
                "panic"
            } else {
                outcome
            };
            self.samples.push(Sample { inputs, obs, outcome: oc.into() });
        }
        Ok(())
    }

    // --------------------------------------------------------------- driver
    pub fn func(&mut self, gi: usize) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&gi) {
            return f.clone();
        }
        let f = Rc::new(self.m.func(gi));
        self.funcs.insert(gi, f.clone());
        self.executed.insert(gi);
        f
    }
    pub fn run(&mut self, name: &str) {
        let gi = match self.m.gidx.get(name) {
            Some(&g) => g,
            None => {
                self.error = Some(format!("no function {}", name));
                return;
            }
        };
        let f = self.func(gi);
        let mut mem = Mem::default();
        mem.next = 16 + self.m.globals.len() as u64 + 64;
        let st = State {
            frames: vec![Rc::new(Frame { regs: vec![Val::U; f.nregs as usize], f, b: 0, ip: 0, sp0: 0, dst: None })],
            mem,
            pc: vec![],
            model: Rc::new(Model { vals: vec![], memo: Default::default() }),
            nsym: 0,
            obs: Rc::new(vec![]),
            panic_ok: Val::C(0, 1),
            steps: 0,
            jumped: false,
            nomerge: !self.cfg.merge,
            tag: 0,
        };
        let _ = self.explore(st, None);
    }
    fn child(&self, st: &State, conds: &[T], model: Option<Rc<Model>>) -> State {
        let mut s = st.clone();
        for &c in conds {
            if c != self.ts.tru {
                s.pc.push(c);
            }
        }
        if let Some(m) = model {
            s.model = m;
        }
        s
    }
    /// model for a child with the given extra conditions
    fn child_model(&mut self, st: &State, conds: &[T]) -> R<Option<Rc<Model>>> {
        let mut c = self.ts.tru;
        for &x in conds {
            c = self.ts.and(c, x);
        }
        if self.eval(&st.model, c) == 1 {
            return Ok(Some(st.model.clone()));
        }
        self.sat(&st.pc, c)
    }
    pub fn explore(&mut self, st: State, stop: Option<Stop>) -> Vec<State> {
        let mut work = vec![st];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            if self.error.is_some() || self.viols.len() >= self.cfg.max_viol {
                return out;
            }
            let (t0, n0) = (self.sv.time, self.ts.nodes.len());
            let r = self.exec(&mut s, stop);
            if self.cfg.trace && (self.sv.time - t0 > 0.3 || self.ts.nodes.len() - n0 > 500) {
                eprintln!("slow {:.2}s +{} terms at {} <- {:?} pc={} model={:?}", self.sv.time - t0, self.ts.nodes.len() - n0, self.where_(&s), self.stack_names(&s).get(1), s.pc.len(), &s.model.vals[..s.model.vals.len().min(24)]);
            }
            match r {
                Ok(()) => out.push(s), // reached the stop point
                Err(x) => {
                    if let Err(e) = self.handle(s, x, stop, &mut work, &mut out) {
                        if let X::Unsup(m) = e {
                            self.error = Some(m);
                        }
                        return out;
                    }
                }
            }
        }
        out
    }
    fn handle(&mut self, s: State, x: X, stop: Option<Stop>, work: &mut Vec<State>, out: &mut Vec<State>) -> R<()> {
        match x {
            X::Dead => {
                self.paths_dead += 1;
                Ok(())
            }
            X::Done => {
                self.paths_ok += 1;
                self.sample(&s, "ok")
            }
            X::Panic(m) => {
                let ok = s.panic_ok.clone();
                let t = self.t(&ok, 1);
                let nt = self.ts.not(t);
                if let Some(m2) = {
                    if self.eval(&s.model, nt) == 1 {
                        Some(s.model.clone())
                    } else {
                        self.sat(&s.pc, nt)?
                    }
                } {
                    let s2 = State { model: m2, ..s.clone() };
                    self.report(&s2, "panic", 0, m);
                }
                if let Some(m2) = self.child_model(&s, &[t])? {
                    self.paths_panic += 1;
                    let s2 = self.child(&s, &[t], Some(m2));
                    self.sample(&s2, "panic")?;
                }
                Ok(())
            }
            X::Viol(k, id, m) => {
                let loc = self.where_(&s);
                self.report(&s, k, id, format!("{} at {}", m, loc));
                Ok(())
            }
            X::Unsup(m) => {
                let loc = self.where_(&s);
                let st = self.stack_names(&s).join(" < ");
                Err(X::Unsup(format!("{} at {} [{}]", m, loc, st)))
            }
            X::Fork(kids) => {
                self.forks += 1;
                let mut v = vec![];
                for (conds, rep) in kids {
                    if let Some(m) = self.child_model(&s, &conds)? {
                        let mut c = self.child(&s, &conds, Some(m));
                        if let Some((r, val)) = rep {
                            Rc::make_mut(c.frames.last_mut().unwrap()).regs[r as usize] = val;
                        }
                        v.push(c);
                    }
                }
                self.join(s, v, stop, work, out)
            }
            X::Branch(kids) => {
                self.forks += 1;
                let mut v = vec![];
                for (conds, tgt) in kids {
                    if let Some(m) = self.child_model(&s, &conds)? {
                        let mut c = self.child(&s, &conds, Some(m));
                        self.jump(&mut c, tgt);
                        v.push(c);
                    }
                }
                self.join(s, v, stop, work, out)
            }
        }
    }
    fn join(&mut self, s: State, kids: Vec<State>, stop: Option<Stop>, work: &mut Vec<State>, out: &mut Vec<State>) -> R<()> {
        let fr = s.frames.last().unwrap();
        if self.cfg.trace {
            *self.fork_sites.entry((fr.f.id, fr.b)).or_insert(0) += 1;
        }
        let j = fr.f.ipdom[fr.b as usize];
        if kids.len() <= 1 || s.nomerge || j == -2 {
            work.extend(kids.into_iter().rev());
            return Ok(());
        }
        let js = Stop { depth: s.frames.len(), block: j };
        if Some(js) == stop {
            work.extend(kids.into_iter().rev());
            return Ok(());
        }
        if j == -1 && s.frames.len() == 1 {
            work.extend(kids.into_iter().rev());
            return Ok(());
        }
        let base = s.pc.len();
        drop(s);
        let mut col = vec![];
        for k in kids {
            col.extend(self.explore(k, Some(js)));
            if self.error.is_some() {
                return Ok(());
            }
        }
        let merged = self.merge(col, base, js);
        // the inner join may coincide with an outer stop (function return levels)
        for mut m in merged {
            m.jumped = true;
            work.push(m);
        }
        let _ = out;
        Ok(())
    }

    // --------------------------------------------------------------- merging
    fn same(a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::C(x, _), Val::C(y, _)) => x == y,
            (Val::S(x), Val::S(y)) => x == y,
            (Val::U, Val::U) => true,
            (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| Self::same(p, q))),
            _ => false,
        }
    }
    fn ptrish(&self, st: &State, v: u64) -> bool {
        let id = v >> OBJ_SHIFT;
        if id < 16 {
            return false;
        }
        if id >= STACK_ID {
            return id < STACK_ID + st.mem.sp;
        }
        id < st.mem.next
    }
    fn mergeable(&self, s: &State, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::U, _) | (_, Val::U) => true,
            (Val::C(x, w), Val::C(y, w2)) => {
                if x == y {
                    return true;
                }
                if w != w2 {
                    return false;
                }
                if *w == 64 {
                    let (px, py) = (self.ptrish(s, *x), self.ptrish(s, *y));
                    if px || py {
                        return px && py && x >> OBJ_SHIFT == y >> OBJ_SHIFT;
                    }
                }
                true
            }
            (Val::Agg(x), Val::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.mergeable(s, p, q)),
            (Val::C(x, w), Val::S(t)) | (Val::S(t), Val::C(x, w)) => {
                if *w == 64 && self.ptrish(s, *x) {
                    // pointer against a symbolic pointer into the same object only
                    let lo = self.ts.lo[*t as usize] as u64;
                    let hi = self.ts.hi[*t as usize] as u64;
                    return lo >> OBJ_SHIFT == x >> OBJ_SHIFT && hi >> OBJ_SHIFT == x >> OBJ_SHIFT;
                }
                true
            }
            (Val::S(x), Val::S(y)) => {
                if x != y && self.ts.w(*x) == 64 {
                    let f = |t: T| (self.ts.lo[t as usize] as u64 >> OBJ_SHIFT, self.ts.hi[t as usize] as u64 >> OBJ_SHIFT);
                    let (a, b) = (f(*x), f(*y));
                    let p = |x: (u64, u64)| x.0 == x.1 && x.0 >= 16;
                    if p(a) || p(b) {
                        return a == b;
                    }
                }
                self.ts.w(*x) == self.ts.w(*y)
            }
            _ => false,
        }
    }
    fn compatible(&mut self, a: &State, b: &State, live: Option<&[u32]>) -> bool {
        if a.frames.len() != b.frames.len() || a.nsym != b.nsym || a.obs.len() != b.obs.len() || a.nomerge != b.nomerge || a.tag != b.tag {
            return false;
        }
        let (fa, fb) = (a.frames.last().unwrap().clone(), b.frames.last().unwrap().clone());
        if fa.b != fb.b || fa.ip != fb.ip || fa.f.id != fb.f.id || a.mem.sp != b.mem.sp {
            return false;
        }
        let n = a.frames.len() - 1;
        for i in 0..n {
            if !Rc::ptr_eq(&a.frames[i], &b.frames[i]) {
                // lower frames can only differ if they were rebuilt: compare registers
                let (x, y) = (&a.frames[i], &b.frames[i]);
                if x.b != y.b || x.ip != y.ip || x.f.id != y.f.id {
                    return false;
                }
                for (p, q) in x.regs.iter().zip(y.regs.iter()) {
                    if !Self::same(p, q) {
                        return false;
                    }
                }
            }
        }
        match live {
            Some(l) => {
                for &r in l {
                    if !self.mergeable(a, &fa.regs[r as usize], &fb.regs[r as usize]) {
                        return false;
                    }
                }
            }
            None => {
                for (p, q) in fa.regs.iter().zip(fb.regs.iter()) {
                    if !self.mergeable(a, p, q) {
                        return false;
                    }
                }
            }
        }
        // memory
        let big = if a.mem.next >= b.mem.next { a } else { b };
        for (ta, tb) in [(&a.mem.heap, &b.mem.heap), (&a.mem.stack, &b.mem.stack)] {
            let nc = ta.chunks.len().max(tb.chunks.len());
            for c in 0..nc {
                let (ca, cb) = match (ta.chunks.get(c), tb.chunks.get(c)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => continue,
                };
                if Rc::ptr_eq(ca, cb) {
                    continue;
                }
                for k in 0..ca.len() {
                    let (x, y) = match (&ca[k], &cb[k]) {
                        (Some(x), Some(y)) => (x, y),
                        _ => continue,
                    };
                    if Rc::ptr_eq(x, y) || x.kind == OK::Freed || y.kind == OK::Freed {
                        continue;
                    }
                    if x.size != y.size || x.kind != y.kind {
                        return false;
                    }
                    let n = x.size as usize;
                    let mut o = 0;
                    while o + 8 <= n {
                        let same = x.data[o..o + 8] == y.data[o..o + 8]
                            && match (&x.sym, &y.sym) {
                                (None, None) => true,
                                (Some(p), Some(q)) => p[o..o + 8] == q[o..o + 8],
                                (Some(p), None) | (None, Some(p)) => p[o..o + 8].iter().all(|c| *c == 0),
                            };
                        if !same {
                            let p = x.read(&mut self.ts, o, 8);
                            let q = y.read(&mut self.ts, o, 8);
                            if !self.mergeable(big, &p, &q) {
                                return false;
                            }
                        }
                        o += 8;
                    }
                }
            }
        }
        true
    }
    fn merge(&mut self, states: Vec<State>, base: usize, js: Stop) -> Vec<State> {
        if states.len() <= 1 {
            return states;
        }
        let mut classes: Vec<Vec<State>> = vec![];
        'o: for s in states {
            let live: Option<Vec<u32>> = if js.block >= 0 {
                let f = s.frames.last().unwrap();
                Some(f.f.live_in[js.block as usize].clone())
            } else {
                None
            };
            for c in classes.iter_mut().rev().take(64) {
                // compare against every member: pointer compatibility is not transitive through undef
                let mut ok = true;
                for m in c.iter() {
                    let (a, b) = (m.clone(), s.clone());
                    if !self.compatible(&a, &b, live.as_deref()) {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    c.push(s);
                    continue 'o;
                }
            }
            classes.push(vec![s]);
        }
        self.merge_refused += classes.len() as u64 - 1;
        let mut out = vec![];
        for c in classes {
            if c.len() == 1 {
                out.extend(c);
            } else {
                out.push(self.merge_class(c, base, js));
            }
        }
        out
    }
    fn tree(&mut self, v: &[(usize, &[T])]) -> Node {
        if v.len() == 1 {
            return if v[0].1.is_empty() { Node::Leaf(v[0].0) } else { Node::Seq(v[0].1.to_vec(), Box::new(Node::Leaf(v[0].0))) };
        }
        if v.iter().all(|x| !x.1.is_empty()) {
            let t = v[0].1[0];
            let nt = self.ts.not(t);
            let (mut a, mut b, mut other) = (vec![], vec![], false);
            for x in v {
                if x.1[0] == t {
                    a.push((x.0, &x.1[1..]));
                } else if x.1[0] == nt {
                    b.push((x.0, &x.1[1..]));
                } else {
                    other = true;
                }
            }
            if !other {
                if b.is_empty() {
                    let n = self.tree(&a);
                    return Node::Seq(vec![t], Box::new(n));
                }
                let x = self.tree(&a);
                let y = self.tree(&b);
                return Node::Split(t, Box::new(x), Box::new(y));
            }
        }
        let mut ch = vec![];
        for x in v {
            let mut g = self.ts.tru;
            for &c in x.1 {
                g = self.ts.and(g, c);
            }
            ch.push((g, x.0));
        }
        Node::Chain(ch)
    }
    fn disj(&mut self, n: &Node) -> T {
        match n {
            Node::Leaf(_) => self.ts.tru,
            Node::Seq(c, n) => {
                let mut r = self.disj(n);
                for &x in c.iter().rev() {
                    r = self.ts.and(x, r);
                }
                r
            }
            Node::Split(t, a, b) => {
                let x = self.disj(a);
                let y = self.disj(b);
                self.ts.ite(*t, x, y)
            }
            Node::Chain(v) => {
                let mut r = self.ts.fls;
                for (g, _) in v {
                    r = self.ts.or(r, *g);
                }
                r
            }
        }
    }
    fn tree_val(&mut self, n: &Node, vals: &[Val]) -> Val {
        match n {
            Node::Leaf(i) => vals[*i].clone(),
            Node::Seq(_, n) => self.tree_val(n, vals),
            Node::Split(t, a, b) => {
                let x = self.tree_val(a, vals);
                let y = self.tree_val(b, vals);
                self.ite_val(*t, &x, &y)
            }
            Node::Chain(v) => {
                let mut r = Val::U;
                for (g, i) in v.iter().rev() {
                    r = match r {
                        Val::U => vals[*i].clone(),
                        r => self.ite_val(*g, &vals[*i], &r),
                    };
                }
                r
            }
        }
    }
    fn mval(&mut self, n: &Node, vals: Vec<Val>) -> Val {
        if vals.iter().skip(1).all(|v| Self::same(v, &vals[0])) {
            return vals[0].clone();
        }
        self.tree_val(n, &vals)
    }
    fn merge_class(&mut self, c: Vec<State>, base: usize, js: Stop) -> State {
        self.merges += c.len() as u64 - 1;
        let suff: Vec<(usize, Vec<T>)> = c.iter().enumerate().map(|(i, s)| (i, s.pc[base..].to_vec())).collect();
        let refs: Vec<(usize, &[T])> = suff.iter().map(|(i, v)| (*i, &v[..])).collect();
        let node = self.tree(&refs);
        let d = self.disj(&node);
        let mut r = c[0].clone();
        r.pc.truncate(base);
        if d != self.ts.tru {
            r.pc.push(d);
        }
        r.steps = c.iter().map(|s| s.steps).max().unwrap();
        // registers
        let top = c[0].frames.len() - 1;
        let nregs = c[0].frames[top].regs.len();
        let mut regs = vec![Val::U; nregs];
        let live: Vec<u32> = if js.block >= 0 {
            c[0].frames[top].f.live_in[js.block as usize].clone()
        } else {
            (0..nregs as u32).collect()
        };
        for rr in live {
            let vals: Vec<Val> = c.iter().map(|s| s.frames[top].regs[rr as usize].clone()).collect();
            regs[rr as usize] = self.mval(&node, vals);
        }
        Rc::make_mut(&mut r.frames[top]).regs = regs;
        // observations, panic permission
        let mut obs = vec![];
        for i in 0..c[0].obs.len() {
            let vals: Vec<Val> = c.iter().map(|s| s.obs[i].clone()).collect();
            obs.push(self.mval(&node, vals));
        }
        r.obs = Rc::new(obs);
        let vals: Vec<Val> = c.iter().map(|s| s.panic_ok.clone()).collect();
        r.panic_ok = self.mval(&node, vals);
        // memory
        r.mem.next = c.iter().map(|s| s.mem.next).max().unwrap();
        for which in 0..2 {
            let tabs: Vec<&Table> = c.iter().map(|s| if which == 0 { &s.mem.heap } else { &s.mem.stack }).collect();
            let nc = tabs.iter().map(|t| t.chunks.len()).max().unwrap();
            for ch in 0..nc {
                if tabs.iter().all(|t| t.chunks.get(ch).is_some()) && tabs.iter().all(|t| Rc::ptr_eq(&t.chunks[ch], &tabs[0].chunks[ch])) {
                    continue;
                }
                for k in 0..16 {
                    let i = ch * 16 + k;
                    if which == 1 && i as u64 >= r.mem.sp {
                        break;
                    }
                    let objs: Vec<Option<Rc<Obj>>> = tabs.iter().map(|t| t.get(i).cloned()).collect();
                    if objs.iter().all(|o| match (o, &objs[0]) {
                        (None, None) => true,
                        (Some(x), Some(y)) => Rc::ptr_eq(x, y),
                        _ => false,
                    }) {
                        continue;
                    }
                    let mut livev: Vec<Option<Rc<Obj>>> = objs.iter().map(|o| o.clone().filter(|x| x.kind != OK::Freed)).collect();
                    let nl = livev.iter().flatten().count();
                    let res: Option<Rc<Obj>>;
                    if nl == 0 {
                        res = objs.iter().flatten().next().cloned();
                    } else {
                        let gi = (i as u64).wrapping_sub(16);
                        if which == 0 && gi < self.m.globals.len() as u64 {
                            // global untouched on some side: its initial contents
                            for o in livev.iter_mut() {
                                if o.is_none() {
                                    *o = self.gobj(i as u64);
                                }
                            }
                        }
                        res = Some(self.merge_obj(&node, &livev));
                    }
                    if which == 0 {
                        r.mem.heap.set(i, res);
                    } else {
                        r.mem.stack.set(i, res);
                    }
                }
            }
        }
        r
    }
    fn merge_obj(&mut self, node: &Node, objs: &[Option<Rc<Obj>>]) -> Rc<Obj> {
        let first = objs.iter().flatten().next().unwrap().clone();
        if objs.iter().flatten().all(|o| Rc::ptr_eq(o, &first)) {
            return first;
        }
        let mut res: Obj = (*first).clone();
        let n = first.size as usize;
        let coherent = |o: &Obj, off: usize, g: usize, ts: &Terms| -> (bool, bool) {
            // (coherent at this granularity, evidence for this granularity)
            match &o.sym {
                None => {
                    let hi = o.data[off + 1.min(g - 1)..off + g].iter().any(|b| *b != 0);
                    (true, g > 1 && hi)
                }
                Some(s) => {
                    let w = &s[off..off + g];
                    if w.iter().all(|c| *c == 0) {
                        let hi = g > 1 && o.data[off + 1..off + g].iter().any(|b| *b != 0);
                        return (true, hi);
                    }
                    if w.iter().all(|c| *c == UNINIT) {
                        return (true, false);
                    }
                    if w[0] > UNINIT && w[0] & 0xff == 0 && w.iter().enumerate().all(|(k, c)| *c == w[0] + k as u64) {
                        let t = ((w[0] >> 8) - 1) as T;
                        return (ts.w(t) as usize == 8 * g, true);
                    }
                    (false, false)
                }
            }
        };
        let mut off = 0;
        while off < n {
            let cap = n - off;
            let mut g = 1;
            for cand in [8usize, 4, 2] {
                if cand <= cap && off % cand == 0 {
                    let mut all = true;
                    let mut ev = false;
                    for o in objs.iter().flatten() {
                        let (c, e) = coherent(o, off, cand, &self.ts);
                        all &= c;
                        ev |= e;
                    }
                    if all && ev {
                        g = cand;
                        break;
                    }
                }
            }
            let eq = objs.iter().flatten().all(|o| {
                o.data[off..off + g] == first.data[off..off + g] && (0..g).all(|k| o.code(off + k) == first.code(off + k))
                    || (0..g).all(|k| o.code(off + k) == first.code(off + k) && o.code(off + k) != 0)
            });
            if !eq {
                let vals: Vec<Val> = objs
                    .iter()
                    .map(|o| match o {
                        None => Val::U,
                        Some(o) => o.read(&mut self.ts, off, g),
                    })
                    .collect();
                let v = self.mval(node, vals);
                match v {
                    Val::C(c, _) => res.write_c(off, g, c),
                    Val::U => res.write_u(off, g),
                    Val::S(t) => res.write_t(&self.ts, off, g, t),
                    _ => unreachable!(),
                }
            }
            off += g;
        }
        Rc::new(res)
    }

    // ------------------------------------------------------------- execution
    fn jump(&mut self, st: &mut State, tgt: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let from = fr.b;
        let blk = &f.blocks[tgt as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = p.ins.iter().find(|x| x.1 == from).expect("phi predecessor");
                vals.push(match &o.0 {
                    Opn::Reg(r) => fr.regs[*r as usize].clone(),
                    Opn::V(v) => v.clone(),
                    Opn::Wide(n, w) => Val::S(self.ts.cst(*n, *w)),
                });
            }
            for (p, v) in blk.phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        fr.b = tgt;
        fr.ip = 0;
        st.jumped = true;
    }
    /// run until the stop point (Ok) or an event (Err)
    fn exec(&mut self, st: &mut State, stop: Option<Stop>) -> R<()> {
        loop {
            if st.jumped {
                st.jumped = false;
                if let Some(s) = stop {
                    if s.block >= 0 {
                        if st.frames.len() == s.depth && st.frames.last().unwrap().b as i32 == s.block && st.frames.last().unwrap().ip == 0 {
                            return Ok(());
                        }
                    } else if st.frames.len() < s.depth {
                        return Ok(());
                    }
                }
            }
            st.steps += 1;
            self.instrs += 1;
            if st.steps & 0xffff == 0 {
                if Instant::now() > self.cfg.deadline {
                    return Err(X::Unsup("time limit".into()));
                }
                if st.steps > self.cfg.max_steps {
                    return Err(X::Viol("steps", 0, format!("path exceeded {} instructions", self.cfg.max_steps)));
                }
            }
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let inst = &f.blocks[fr.b as usize].insts[fr.ip as usize];
            self.step(st, inst)?;
        }
    }
    fn set(&mut self, st: &mut State, dst: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[dst as usize] = v;
        fr.ip += 1;
    }
    fn get(&mut self, st: &State, o: &Opn) -> Val {
        match o {
            Opn::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opn::V(v) => v.clone(),
            Opn::Wide(n, w) => Val::S(self.ts.cst(*n, *w)),
        }
    }
    /// concrete value of an operand; forks over all feasible values if symbolic
    fn conc_if_sym(&mut self, st: &State, o: &Opn) -> R<()> {
        if let Val::S(_) = self.get(st, o) {
            self.conc(st, o)?;
        }
        Ok(())
    }
    fn conc(&mut self, st: &State, o: &Opn) -> R<u64> {
        let v = self.get(st, o);
        match v {
            Val::C(c, _) => Ok(c),
            Val::U => Ok(0),
            Val::S(t) => {
                let w = self.ts.w(t);
                let r = match o {
                    Opn::Reg(r) => *r,
                    _ => unreachable!(),
                };
                let mut kids = vec![];
                let mut neg: Vec<T> = vec![];
                let mut cur = st.model.clone();
                loop {
                    let x = self.eval(&cur, t);
                    let k = self.ts.cst(x, w);
                    let e = self.ts.eq(t, k);
                    let mut c = neg.clone();
                    c.push(e);
                    kids.push((c, Some((r, Val::C(x as u64, w as u8)))));
                    let ne = self.ts.not(e);
                    neg.push(ne);
                    let mut all = self.ts.tru;
                    for &q in &neg {
                        all = self.ts.and(all, q);
                    }
                    match self.sat(&st.pc, all)? {
                        Some(m) => cur = m,
                        None => break,
                    }
                    if kids.len() > 1024 {
                        return Err(X::Unsup("more than 1024 values to enumerate".into()));
                    }
                }
                Err(X::Fork(kids))
            }
            Val::Agg(_) => Err(X::Unsup("aggregate as scalar".into())),
        }
    }
    fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::U, _) | (_, Val::U) = (a, b) {
            return Ok(Val::U);
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv => {
                if let (Val::C(x, _), Val::C(y, _)) = (a, b) {
                    if w == 64 {
                        let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                        let r = match op {
                            BinOp::FAdd => x + y,
                            BinOp::FSub => x - y,
                            BinOp::FMul => x * y,
                            _ => x / y,
                        };
                        return Ok(Val::C(r.to_bits(), 64));
                    }
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        _ => x / y,
                    };
                    return Ok(Val::C(r.to_bits() as u64, 32));
                }
                return Err(X::Unsup("symbolic floating point".into()));
            }
        };
        if let (Val::C(x, _), Val::C(y, _)) = (a, b) {
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *y == 0 {
                return Err(X::Viol("ub", 0, "division by zero".into()));
            }
            return Ok(Val::C(Terms::fold(o, w, *x as u128, *y as u128) as u64, w as u8));
        }
        let x = self.t(a, w);
        let y = self.t(b, w);
        let r = self.ts.bin(o, x, y);
        Ok(self.mkv(r))
    }
    fn lanes(&mut self, v: &Val, n: u32) -> Vec<Val> {
        match v {
            Val::Agg(a) => a.to_vec(),
            Val::U => vec![Val::U; n as usize],
            _ => panic!("lanes"),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::U, _) | (_, Val::U) = (a, b) {
            return Val::U;
        }
        if let (Val::C(x, _), Val::C(y, _)) = (a, b) {
            let (sx, sy) = (sext128(*x as u128, w), sext128(*y as u128, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::C(r as u64, 1);
        }
        let x = self.t(a, w);
        let y = self.t(b, w);
        let ts = &mut self.ts;
        let r = match p {
            Pred::Eq => ts.eq(x, y),
            Pred::Ne => {
                let e = ts.eq(x, y);
                ts.not(e)
            }
            Pred::Ult => ts.bin(Op::Ult, x, y),
            Pred::Ugt => ts.bin(Op::Ult, y, x),
            Pred::Uge => {
                let e = ts.bin(Op::Ult, x, y);
                ts.not(e)
            }
            Pred::Ule => {
                let e = ts.bin(Op::Ult, y, x);
                ts.not(e)
            }
            Pred::Slt => ts.bin(Op::Slt, x, y),
            Pred::Sgt => ts.bin(Op::Slt, y, x),
            Pred::Sge => {
                let e = ts.bin(Op::Slt, x, y);
                ts.not(e)
            }
            Pred::Sle => {
                let e = ts.bin(Op::Slt, y, x);
                ts.not(e)
            }
        };
        self.mkv(r)
    }
    fn cast(&mut self, k: CastK, name: &str, fw: u32, tw: u32, v: &Val) -> R<Val> {
        Ok(match v {
            Val::U => Val::U,
            Val::C(c, _) => match k {
                CastK::Trunc => Val::C(*c & mask(tw) as u64, tw as u8),
                CastK::ZExt if tw <= 64 => Val::C(*c, tw as u8),
                CastK::SExt if tw <= 64 => Val::C((sext128(*c as u128, fw) as u128 & mask(tw)) as u64, tw as u8),
                CastK::ZExt => Val::S(self.ts.cst(*c as u128, tw)),
                CastK::SExt => Val::S(self.ts.cst(sext128(*c as u128, fw) as u128, tw)),
                CastK::Bitcast => v.clone(),
                CastK::Other => {
                    let r = match (name, fw, tw) {
                        ("uitofp", _, 64) => (*c as f64).to_bits(),
                        ("uitofp", _, 32) => (*c as f32).to_bits() as u64,
                        ("sitofp", _, 64) => (sext128(*c as u128, fw) as f64).to_bits(),
                        ("fptoui", 64, _) => f64::from_bits(*c) as u64,
                        ("fptosi", 64, _) => f64::from_bits(*c) as i64 as u64,
                        ("fpext", 32, 64) => (f32::from_bits(*c as u32) as f64).to_bits(),
                        ("fptrunc", 64, 32) => (f64::from_bits(*c) as f32).to_bits() as u64,
                        _ => return Err(X::Unsup(format!("cast {}", name))),
                    };
                    Val::C(r & mask(tw) as u64, tw as u8)
                }
            },
            Val::S(t) => {
                let r = match k {
                    CastK::Trunc => self.ts.extract(*t, 0, tw),
                    CastK::ZExt => self.ts.zext(*t, tw),
                    CastK::SExt => self.ts.sext(*t, tw),
                    CastK::Bitcast => *t,
                    CastK::Other => return Err(X::Unsup(format!("symbolic cast {}", name))),
                };
                self.mkv(r)
            }
            Val::Agg(_) => return Err(X::Unsup("aggregate cast".into())),
        })
    }
    fn elem_ty(ty: &Ty) -> (&Ty, u32) {
        match ty {
            Ty::Vec(n, t) => (t, *n),
            t => (t, 0),
        }
    }
    fn step(&mut self, st: &mut State, inst: &Inst) -> R<()> {
        match inst {
            Inst::Nop => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            Inst::Alloca { dst, size, align, count } => {
                let n = match count {
                    None => 1,
                    Some((o, _)) => self.conc(st, o)?,
                };
                let a = st.mem.alloca(size * n, *align);
                self.set(st, *dst, Val::C(a, 64));
            }
            Inst::Load { dst, ty, ptr } => {
                let p = self.get(st, ptr);
                let v = self.load(st, &p, ty)?;
                self.set(st, *dst, v);
            }
            Inst::Store { ty, val, ptr } => {
                let p = self.get(st, ptr);
                let v = self.get(st, val);
                self.store(st, &p, ty, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.get(st, base);
                let mut c = *off as u64;
                let mut symt: Option<T> = None;
                let mut undef = false;
                for (o, w, scale) in idx {
                    match self.get(st, o) {
                        Val::C(x, _) => c = c.wrapping_add((sext128(x as u128, *w) as i64).wrapping_mul(*scale) as u64),
                        Val::S(t) => {
                            let t64 = if *w < 64 { self.ts.sext(t, 64) } else { t };
                            let k = self.ts.cst(*scale as u64 as u128, 64);
                            let m = self.ts.bin(Op::Mul, t64, k);
                            symt = Some(match symt {
                                None => m,
                                Some(s) => self.ts.bin(Op::Add, s, m),
                            });
                        }
                        _ => undef = true,
                    }
                }
                let v = match (&b, symt) {
                    _ if undef => Val::U,
                    (Val::U, _) => Val::U,
                    (Val::C(x, _), None) => Val::C(x.wrapping_add(c), 64),
                    (_, s) => {
                        let mut t = self.t(&b, 64);
                        if let Some(s) = s {
                            t = self.ts.bin(Op::Add, t, s);
                        }
                        let k = self.ts.cst(c as u128, 64);
                        t = self.ts.bin(Op::Add, t, k);
                        self.mkv(t)
                    }
                };
                self.set(st, *dst, v);
            }
            Inst::Bin { dst, op, ty, a, b } => {
                if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv) {
                    // floating point is only ever evaluated concretely (fork over the values)
                    self.conc_if_sym(st, a)?;
                    self.conc_if_sym(st, b)?;
                }
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (et, n) = Self::elem_ty(ty);
                let w = et.bits();
                let v = if n > 0 {
                    let (p, q) = (self.lanes(&x, n), self.lanes(&y, n));
                    let mut r = vec![];
                    for (p, q) in p.iter().zip(q.iter()) {
                        r.push(self.binop(*op, w, p, q)?);
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                        if let Val::S(t) = &y {
                            if self.ts.lo[*t as usize] == 0 {
                                let z = self.ts.cst(0, w);
                                let e = self.ts.eq(*t, z);
                                if let Some(_) = self.sat(&st.pc, e)? {
                                    return Err(X::Viol("ub", 0, "division by zero".into()));
                                }
                            }
                        }
                    }
                    self.binop(*op, w, &x, &y)?
                };
                self.set(st, *dst, v);
            }
            Inst::ICmp { dst, p, ty, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (et, n) = Self::elem_ty(ty);
                let w = et.bits();
                let v = if n > 0 {
                    let (l, q) = (self.lanes(&x, n), self.lanes(&y, n));
                    let r = l.iter().zip(q.iter()).map(|(x, y)| self.icmp(*p, w, x, y)).collect();
                    Val::Agg(Rc::new(r))
                } else {
                    self.icmp(*p, w, &x, &y)
                };
                self.set(st, *dst, v);
            }
            Inst::FCmp { dst, p, ty, a, b } => {
                self.conc_if_sym(st, a)?;
                self.conc_if_sym(st, b)?;
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (Val::C(x, _), Val::C(y, _)) = (x, y) {
                    let (x, y) = if ty.bits() == 64 {
                        (f64::from_bits(x), f64::from_bits(y))
                    } else {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "one" => x != y && !un,
                        "ueq" => x == y || un,
                        "ult" => x < y || un,
                        "ule" => x <= y || un,
                        "ugt" => x > y || un,
                        "uge" => x >= y || un,
                        "une" => x != y,
                        "uno" => un,
                        "ord" => !un,
                        _ => return Err(X::Unsup("fcmp".into())),
                    };
                    self.set(st, *dst, Val::C(r as u64, 1));
                } else {
                    return Err(X::Unsup("symbolic fcmp".into()));
                }
            }
            Inst::Select { dst, cty, ty: _, c, a, b } => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (_, n) = Self::elem_ty(cty);
                let v = if n > 0 {
                    let (cl, l, q) = (self.lanes(&cv, n), self.lanes(&x, n), self.lanes(&y, n));
                    let mut r = vec![];
                    for i in 0..n as usize {
                        r.push(match &cl[i] {
                            Val::C(k, _) => {
                                if *k == 1 {
                                    l[i].clone()
                                } else {
                                    q[i].clone()
                                }
                            }
                            Val::S(t) => self.ite_val(*t, &l[i], &q[i]),
                            _ => Val::U,
                        });
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    match cv {
                        Val::C(1, _) => x,
                        Val::C(_, _) => y,
                        Val::S(t) => self.ite_val(t, &x, &y),
                        _ => Val::U,
                    }
                };
                self.set(st, *dst, v);
            }
            Inst::Cast { dst, k, name, from, to, a } => {
                if *k == CastK::Other {
                    self.conc_if_sym(st, a)?;
                }
                let x = self.get(st, a);
                let (fe, fnn) = Self::elem_ty(from);
                let (te, tn) = Self::elem_ty(to);
                let (fw, tw) = (fe.bits(), te.bits());
                let v = if *k == CastK::Bitcast && (fnn != tn) {
                    // repack
                    let p = if fnn > 0 { self.pack(&x, fw) } else { x };
                    if tn > 0 {
                        self.unpack(&p, tn, tw)
                    } else {
                        p
                    }
                } else if fnn > 0 {
                    let l = self.lanes(&x, fnn);
                    let mut r = vec![];
                    for e in l.iter() {
                        r.push(self.cast(*k, name, fw, tw, e)?);
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    self.cast(*k, name, fw, tw, &x)?
                };
                self.set(st, *dst, v);
            }
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = self.get(st, a);
                for &i in idx {
                    v = match v {
                        Val::Agg(x) => x[i as usize].clone(),
                        _ => Val::U,
                    };
                }
                self.set(st, *dst, v);
            }
            Inst::InsertValue { dst, ty, a, v, idx } => {
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let r = insert(&x, ty, &nv, idx);
                self.set(st, *dst, r);
            }
            Inst::ExtractElement { dst, n, a, i, .. } => {
                let i = self.conc(st, i)?;
                let x = self.get(st, a);
                let l = self.lanes(&x, *n);
                self.set(st, *dst, l[i as usize].clone());
            }
            Inst::InsertElement { dst, n, a, v, i, .. } => {
                let i = self.conc(st, i)?;
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let mut l = self.lanes(&x, *n);
                l[i as usize] = nv;
                self.set(st, *dst, Val::Agg(Rc::new(l)));
            }
            Inst::Shuffle { dst, n, a, b, mask, m } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let mut l = self.lanes(&x, *n);
                l.extend(self.lanes(&y, *n));
                let r: Vec<Val> = match mask {
                    K::Agg(v) => v
                        .iter()
                        .map(|k| match k {
                            K::Int(i) => l[*i as usize].clone(),
                            K::Zero => l[0].clone(),
                            _ => Val::U,
                        })
                        .collect(),
                    K::Zero => vec![l[0].clone(); *m as usize],
                    _ => vec![Val::U; *m as usize],
                };
                self.set(st, *dst, Val::Agg(Rc::new(r)));
            }
            Inst::Freeze { dst, ty, a } => {
                let x = self.get(st, a);
                let v = match x {
                    Val::U if !matches!(ty, Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..)) && ty.bits() <= 64 => Val::C(0, ty.bits() as u8),
                    v => v,
                };
                self.set(st, *dst, v);
            }
            Inst::FNeg { dst, ty, a } => match self.get(st, a) {
                Val::C(c, _) => {
                    let w = ty.bits();
                    self.set(st, *dst, Val::C(c ^ (1 << (w - 1)), w as u8));
                }
                _ => return Err(X::Unsup("symbolic fneg".into())),
            },
            Inst::AtomicRmw { dst, op, ty, ptr, v } => {
                let p = self.get(st, ptr);
                let old = self.load(st, &p, ty)?;
                let x = self.get(st, v);
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.binop(BinOp::Add, w, &old, &x)?,
                    "sub" => self.binop(BinOp::Sub, w, &old, &x)?,
                    "and" => self.binop(BinOp::And, w, &old, &x)?,
                    "or" => self.binop(BinOp::Or, w, &old, &x)?,
                    "xor" => self.binop(BinOp::Xor, w, &old, &x)?,
                    _ => return Err(X::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, &p, ty, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.get(st, ptr);
                let old = self.load(st, &p, ty)?;
                let c = self.get(st, cmp);
                let n = self.get(st, new);
                match (&old, &c) {
                    (Val::C(x, _), Val::C(y, _)) => {
                        let eq = x == y;
                        if eq {
                            self.store(st, &p, ty, &n)?;
                        }
                        self.set(st, *dst, Val::Agg(Rc::new(vec![old, Val::C(eq as u64, 1)])));
                    }
                    _ => return Err(X::Unsup("symbolic cmpxchg".into())),
                }
            }
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr(c, a, b) => match self.get(st, c) {
                Val::C(1, _) => self.jump(st, *a),
                Val::C(_, _) => self.jump(st, *b),
                Val::S(t) => {
                    if a == b {
                        self.jump(st, *a);
                        return Ok(());
                    }
                    let (x, y) = self.both(st, t)?;
                    let nt = self.ts.not(t);
                    match (x, y) {
                        (Some(_), None) => self.jump(st, *a),
                        (None, Some(_)) => self.jump(st, *b),
                        (Some(_), Some(m)) => {
                            // remember the model found for the other side
                            let _ = m;
                            return Err(X::Branch(vec![(vec![t], *a), (vec![nt], *b)]));
                        }
                        _ => return Err(X::Unsup("both branches infeasible".into())),
                    }
                }
                _ => return Err(X::Viol("ub", 0, "branch on an undefined value".into())),
            },
            Inst::Switch { w, v, default, cases } => match self.get(st, v) {
                Val::C(c, _) => {
                    let t = cases.iter().find(|x| x.0 as u64 == c).map(|x| x.1).unwrap_or(*default);
                    self.jump(st, t);
                }
                Val::S(t) => {
                    // group by destination
                    let mut dests: Vec<(u32, T)> = vec![];
                    let mut any = self.ts.fls;
                    for (k, b) in cases {
                        let kk = self.ts.cst(*k, *w);
                        let e = self.ts.eq(t, kk);
                        any = self.ts.or(any, e);
                        match dests.iter_mut().find(|d| d.0 == *b) {
                            Some(d) => d.1 = self.ts.or(d.1, e),
                            None => dests.push((*b, e)),
                        }
                    }
                    let dflt = self.ts.not(any);
                    match dests.iter_mut().find(|d| d.0 == *default) {
                        Some(d) => d.1 = self.ts.or(d.1, dflt),
                        None => dests.push((*default, dflt)),
                    }
                    let mut kids: Vec<(Vec<T>, u32)> = vec![];
                    let mut neg: Vec<T> = vec![];
                    for (b, c) in dests {
                        if c == self.ts.fls {
                            continue;
                        }
                        let mut cs = neg.clone();
                        cs.push(c);
                        if self.child_model(st, &cs)?.is_some() {
                            kids.push((cs, b));
                            let nc = self.ts.not(c);
                            neg.push(nc);
                        }
                    }
                    if kids.len() == 1 {
                        self.jump(st, kids[0].1);
                        return Ok(());
                    }
                    // the last one needs no positive condition beyond the negations when exhaustive
                    return Err(X::Branch(kids));
                }
                _ => return Err(X::Viol("ub", 0, "switch on an undefined value".into())),
            },
            Inst::Ret(v) => {
                let rv = match v {
                    Some((_, o)) => Some(self.get(st, o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                st.mem.pop_to(fr.sp0);
                if st.frames.is_empty() {
                    st.frames.push(fr);
                    return Err(X::Done);
                }
                if let (Some(d), Some(v)) = (fr.dst, rv) {
                    Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
                }
                st.jumped = true;
            }
            Inst::Unreachable => return Err(X::Viol("ub", 0, "reached unreachable code".into())),
            Inst::Unsupported(l) => return Err(X::Unsup(format!("unsupported instruction: {}", l.trim()))),
            Inst::Call { dst, rty, callee, args } => {
                let gi = match callee {
                    Callee::Direct(g) => *g,
                    Callee::Indirect(o) => {
                        let a = self.conc(st, o)?;
                        let id = a >> OBJ_SHIFT;
                        let g = id.wrapping_sub(16) as usize;
                        if g >= self.m.globals.len() || !matches!(self.m.globals[g].kind, GKind::Func { .. }) {
                            return Err(X::Viol("memory", 0, format!("call through a bad pointer {:#x}", a)));
                        }
                        g
                    }
                };
                return self.call(st, gi, *dst, rty, args);
            }
        }
        Ok(())
    }
    fn call(&mut self, st: &mut State, gi: usize, dst: Option<u32>, rty: &Ty, args: &[(Ty, Opn)]) -> R<()> {
        if self.targets[gi].is_none() {
            let t = crate::builtins::classify(&self.m, gi, self.cfg.hash0);
            self.targets[gi] = Some(t);
        }
        match self.targets[gi].clone().unwrap() {
            Target::Func(g) => {
                let f = self.func(g);
                let fr = st.frames.last().unwrap().clone();
                let mut regs = vec![Val::U; f.nregs as usize];
                for (i, (r, _)) in f.params.iter().enumerate() {
                    if i < args.len() {
                        regs[*r as usize] = self.opn(&fr, &args[i].1);
                    }
                }
                drop(fr);
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                if st.frames.len() > 2000 {
                    return Err(X::Viol("steps", 0, "call depth exceeds 2000".into()));
                }
                let sp0 = st.mem.sp;
                st.frames.push(Rc::new(Frame { f, b: 0, ip: 0, regs, sp0, dst }));
                Ok(())
            }
            Target::Builtin(b) => {
                let v = self.builtin(st, b, gi, rty, args)?;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (dst, v) {
                    fr.regs[d as usize] = v;
                }
                fr.ip += 1;
                Ok(())
            }
            Target::Panic(k) => {
                let msg = self.panic_msg(st, gi, args);
                if k == "nounwind" {
                    return Err(X::Viol("ub", 0, format!("non-unwinding panic: {}", msg)));
                }
                Err(X::Panic(msg))
            }
            Target::Unknown => Err(X::Unsup(format!("call to external function {}", self.m.globals[gi].name))),
        }
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        let (id, off) = self.valid(st, p, n, false).ok()?;
        let o = self.obj(st, id)?;
        Some(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }
    fn panic_msg(&mut self, st: &State, gi: usize, args: &[(Ty, Opn)]) -> String {
        let name = self.m.globals[gi].name.to_string();
        let mut msg = String::new();
        let vals: Vec<Val> = args.iter().map(|a| self.get(st, &a.1)).collect();
        if name.contains("panic_fmt") || name.contains("panic_nounwind_fmt") {
            if let (Some(Val::C(p, _)), Some(Val::C(l, _))) = (vals.get(0), vals.get(1)) {
                if l & 1 == 1 {
                    msg = self.cstr(st, *p, l >> 1).unwrap_or_default();
                }
            }
        } else if let (Some(Val::C(p, _)), Some(Val::C(l, _))) = (vals.get(0), vals.get(1)) {
            if *l < 1000 {
                msg = self.cstr(st, *p, *l).unwrap_or_default();
            }
        }
        // location: a pointer to {ptr,len,line,col}
        for v in vals.iter().rev() {
            if let Val::C(p, _) = v {
                if let Ok((id, off)) = self.valid(st, *p, 24, false) {
                    let o = self.obj(st, id).unwrap();
                    if o.kind != OK::Const || o.sym.is_some() || off != 0 || o.size != 24 {
                        continue;
                    }
                    let rd = |a: usize, n: usize| {
                        let mut v = 0u64;
                        for k in (0..n).rev() {
                            v = v << 8 | o.data[a + k] as u64;
                        }
                        v
                    };
                    let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                    if fl < 4096 {
                        if let Some(f) = self.cstr(st, fp, fl) {
                            let f = f.trim_end_matches('\0').to_string();
                            return format!("{} ({}:{})", msg, f, line);
                        }
                    }
                }
            }
        }
        format!("{} [{}]", msg, name)
    }
    pub fn builtin_conc(&mut self, st: &State, o: &Opn) -> R<u64> {
        self.conc(st, o)
    }
    fn builtin(&mut self, st: &mut State, b: &'static str, gi: usize, rty: &Ty, args: &[(Ty, Opn)]) -> R<Option<Val>> {
        macro_rules! a {
            ($i:expr) => {
                self.get(st, &args[$i].1)
            };
        }
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &args[$i].1)?
            };
        }
        let w = if args.is_empty() { 0 } else { Self::elem_ty(&args[0].0).0.bits() };
        Ok(match b {
            "nop" => None,
            "vk_sym" => {
                let bits = c!(0) as u32;
                let k = st.nsym;
                st.nsym += 1;
                let t = self.ts.get_var(k, bits);
                let z = self.ts.zext(t, 64);
                Some(self.mkv(z))
            }
            "vk_param" => {
                let i = c!(0) as usize;
                Some(Val::C(self.cfg.params.get(i).copied().unwrap_or(0), 64))
            }
            "vk_assume" => {
                let v = a!(0);
                match v {
                    Val::C(0, _) => return Err(X::Dead),
                    Val::C(_, _) => {}
                    Val::S(t) => {
                        let t = self.low_bit(t);
                        match self.child_model(st, &[t])? {
                            Some(m) => {
                                st.model = m;
                                if t != self.ts.tru {
                                    st.pc.push(t);
                                }
                            }
                            None => return Err(X::Dead),
                        }
                    }
                    _ => return Err(X::Viol("ub", 0, "assume on undef".into())),
                }
                None
            }
            "vk_check" => {
                let id = c!(1) as u32;
                self.checks += 1;
                match a!(0) {
                    Val::C(0, _) => {
                        self.report(st, "check", id, format!("check {} failed", id));
                        return Err(X::Dead);
                    }
                    Val::C(_, _) => {}
                    Val::S(t) => {
                        self.checks_sym += 1;
                        let t = self.low_bit(t);
                        let nt = self.ts.not(t);
                        if let Some(m) = self.child_model(st, &[nt])? {
                            let s2 = State { model: m, ..st.clone() };
                            self.report(&s2, "check", id, format!("check {} failed", id));
                            match self.child_model(st, &[t])? {
                                Some(m) => {
                                    st.model = m;
                                    st.pc.push(t);
                                }
                                None => return Err(X::Dead),
                            }
                        }
                    }
                    _ => return Err(X::Viol("ub", 0, "check on undef".into())),
                }
                None
            }
            "vk_cover" => {
                let id = c!(0) as u32;
                *self.covers.entry(id).or_insert(0) += 1;
                None
            }
            "vk_cover_if" => {
                // reached and satisfiable together with the condition
                let id = c!(1) as u32;
                match a!(0) {
                    Val::C(0, _) => {}
                    Val::C(_, _) => *self.covers.entry(id).or_insert(0) += 1,
                    Val::S(t) => {
                        if self.covers.get(&id).is_none() {
                            let t = self.low_bit(t);
                            if self.child_model(st, &[t])?.is_some() {
                                *self.covers.entry(id).or_insert(0) += 1;
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            "vk_observe" => {
                let v = a!(0);
                Rc::make_mut(&mut st.obs).push(v);
                None
            }
            "vk_panic_ok" => {
                let v = a!(0);
                st.panic_ok = match v {
                    Val::S(t) => {
                        let t = self.low_bit(t);
                        self.mkv(t)
                    }
                    v => v,
                };
                None
            }
            "vk_concrete" => Some(Val::C(c!(0), 64)),
            "vk_split" => {
                let v = c!(0);
                st.tag = (st.tag ^ v.wrapping_add(1)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
                Some(Val::C(v, 64))
            }
            "vk_nomerge" => {
                st.nomerge = c!(0) != 0 || !self.cfg.merge;
                None
            }
            "vk_and" | "vk_or" => {
                let (x, y) = (a!(0), a!(1));
                let bw = args[0].0.bits();
                let v = self.binop(if b == "vk_and" { BinOp::And } else { BinOp::Or }, bw, &x, &y)?;
                Some(v)
            }
            "vk_ite" => {
                let (cv, x, y) = (a!(0), a!(1), a!(2));
                Some(match cv {
                    Val::C(0, _) => y,
                    Val::C(_, _) => x,
                    Val::S(t) => {
                        let t = self.low_bit(t);
                        self.ite_val(t, &x, &y)
                    }
                    _ => Val::U,
                })
            }
            "alloc" | "alloc_zeroed" | "malloc" => {
                let n = c!(0);
                if n >= 1 << OBJ_SHIFT {
                    return Err(X::Unsup(format!("allocation of {} bytes", n)));
                }
                let al = if b == "malloc" { 16 } else { c!(1) };
                Some(Val::C(st.mem.alloc(n, al, b == "alloc_zeroed"), 64))
            }
            "calloc" => {
                let n = c!(0) * c!(1);
                Some(Val::C(st.mem.alloc(n, 16, true), 64))
            }
            "dealloc" => {
                let p = c!(0);
                let n = c!(1);
                let id = p >> OBJ_SHIFT;
                match st.mem.get(id) {
                    Some(o) if o.kind == OK::Heap && p & ((1 << OBJ_SHIFT) - 1) == 0 => {
                        if o.size != n {
                            return Err(X::Viol("memory", 0, format!("dealloc with size {} of a {}-byte allocation", n, o.size)));
                        }
                    }
                    _ => return Err(X::Viol("memory", 0, "dealloc of a bad pointer".into())),
                }
                let f = FREED.with(|f| f.clone());
                st.mem.put(id, Some(f));
                None
            }
            "realloc" => {
                let p = c!(0);
                let (old, al, n) = (c!(1), c!(2), c!(3));
                if n >= 1 << OBJ_SHIFT {
                    return Err(X::Unsup(format!("allocation of {} bytes", n)));
                }
                let id = p >> OBJ_SHIFT;
                match st.mem.get(id) {
                    Some(o) if o.kind == OK::Heap && o.size == old => {}
                    _ => return Err(X::Viol("memory", 0, "realloc of a bad pointer".into())),
                }
                let q = st.mem.alloc(n, al, false);
                self.copy(st, q, p, old.min(n))?;
                let f = FREED.with(|f| f.clone());
                st.mem.put(id, Some(f));
                Some(Val::C(q, 64))
            }
            "memcpy" | "memcpy_r" => {
                let n = c!(2);
                if n == 0 {
                    return Ok(if b == "memcpy_r" { Some(a!(0)) } else { None });
                }
                let (d, s) = (a!(0), a!(1));
                match (&d, &s) {
                    (Val::C(d, _), Val::C(s, _)) => self.copy(st, *d, *s, n)?,
                    _ => {
                        // symbolic address: copy through the generic load/store path
                        if n > 64 {
                            c!(0);
                            c!(1);
                        }
                        let ty = Ty::Arr(n, Rc::new(Ty::Int(8)));
                        let v = self.load(st, &s, &ty)?;
                        self.store(st, &d, &ty, &v)?;
                    }
                }
                if b == "memcpy_r" {
                    Some(d)
                } else {
                    None
                }
            }
            "memset" => {
                let n = c!(2);
                if n > 0 {
                    let d = c!(0);
                    let v = a!(1);
                    let (id, off) = self.valid(st, d, n, true).map_err(|e| X::Viol("memory", 0, e))?;
                    for k in 0..n as usize {
                        self.write_scalar(st, id, off + k, 8, &v);
                    }
                }
                None
            }
            "bcmp" | "memcmp" => {
                let n = c!(2);
                if n == 0 {
                    return Ok(Some(Val::C(0, 32)));
                }
                let (p, q) = (a!(0), a!(1));
                let ty = Ty::Arr(n, Rc::new(Ty::Int(8)));
                let x = self.load(st, &p, &ty)?;
                let y = self.load(st, &q, &ty)?;
                let (x, y) = (self.lanes(&x, n as u32), self.lanes(&y, n as u32));
                if b == "bcmp" {
                    let mut e = self.ts.tru;
                    for (p, q) in x.iter().zip(y.iter()) {
                        let (p, q) = (self.t(p, 8), self.t(q, 8));
                        let k = self.ts.eq(p, q);
                        e = self.ts.and(e, k);
                    }
                    let z = self.ts.cst(0, 32);
                    let o = self.ts.cst(1, 32);
                    let r = self.ts.ite(e, z, o);
                    Some(self.mkv(r))
                } else {
                    let mut r = self.ts.cst(0, 32);
                    for (p, q) in x.iter().zip(y.iter()).rev() {
                        let (p, q) = (self.t(p, 8), self.t(q, 8));
                        let lt = self.ts.bin(Op::Ult, p, q);
                        let gt = self.ts.bin(Op::Ult, q, p);
                        let m1 = self.ts.cst(0xffff_ffff, 32);
                        let p1 = self.ts.cst(1, 32);
                        let k = self.ts.ite(gt, p1, r);
                        r = self.ts.ite(lt, m1, k);
                    }
                    Some(self.mkv(r))
                }
            }
            "strlen" => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    match self.load(st, &Val::C(p + n, 64), &Ty::Int(8))? {
                        Val::C(0, _) => break,
                        Val::C(_, _) => n += 1,
                        _ => return Err(X::Unsup("symbolic strlen".into())),
                    }
                }
                Some(Val::C(n, 64))
            }
            "lifetime" => {
                if let Val::C(p, _) = self.get(st, &args[args.len() - 1].1) {
                    let id = p >> OBJ_SHIFT;
                    if id >= STACK_ID && p & ((1 << OBJ_SHIFT) - 1) == 0 {
                        if let Some(o) = st.mem.get_mut(id) {
                            let n = o.size as usize;
                            if n > 0 {
                                o.write_u(0, n);
                            }
                        }
                    }
                }
                None
            }
            "id0" => Some(a!(0)),
            "is_constant" => Some(Val::C(0, 1)),
            "randkeys" => Some(Val::Agg(Rc::new(vec![Val::C(0x0123456789abcdef, 64), Val::C(0xfedcba9876543210, 64)]))),
            "hash0" => Some(Val::C(0, 64)),
            "zero" => match rty {
                Ty::Int(w) => Some(Val::C(0, *w as u8)),
                Ty::Ptr => Some(Val::C(0, 64)),
                _ => None,
            },
            "trap" => return Err(X::Viol("ub", 0, "trap".into())),
            _ => {
                // vector forms: lane-wise
                if let Ty::Vec(n, _) = &args[0].0 {
                    if b.starts_with("reduce_") {
                        let x = a!(0);
                        let l = self.lanes(&x, *n);
                        let mut r = l[0].clone();
                        for e in &l[1..] {
                            r = match b {
                                "reduce_add" => self.binop(BinOp::Add, w, &r, e)?,
                                "reduce_and" => self.binop(BinOp::And, w, &r, e)?,
                                "reduce_or" => self.binop(BinOp::Or, w, &r, e)?,
                                "reduce_xor" => self.binop(BinOp::Xor, w, &r, e)?,
                                "reduce_mul" => self.binop(BinOp::Mul, w, &r, e)?,
                                "reduce_umax" => self.intrin("umax", w, &[r, e.clone()])?,
                                "reduce_umin" => self.intrin("umin", w, &[r, e.clone()])?,
                                "reduce_smax" => self.intrin("smax", w, &[r, e.clone()])?,
                                "reduce_smin" => self.intrin("smin", w, &[r, e.clone()])?,
                                _ => return Err(X::Unsup(b.into())),
                            };
                        }
                        return Ok(Some(r));
                    }
                    if b == "movmsk" {
                        let x = a!(0);
                        let l = self.lanes(&x, *n);
                        let mut t = None;
                        for e in l.iter() {
                            let e = self.t(e, w);
                            let s = self.ts.extract(e, w - 1, 1);
                            t = Some(match t {
                                None => s,
                                Some(p) => self.ts.concat(s, p),
                            });
                        }
                        let z = self.ts.zext(t.unwrap(), 32);
                        return Ok(Some(self.mkv(z)));
                    }
                    let n = *n;
                    let mut cols: Vec<Vec<Val>> = vec![];
                    for i in 0..args.len() {
                        let x = a!(i);
                        cols.push(match &args[i].0 {
                            Ty::Vec(..) => self.lanes(&x, n),
                            _ => vec![x; n as usize],
                        });
                    }
                    let mut r = vec![];
                    for i in 0..n as usize {
                        let v: Vec<Val> = cols.iter().map(|c| c[i].clone()).collect();
                        r.push(self.intrin(b, w, &v)?);
                    }
                    return Ok(Some(Val::Agg(Rc::new(r))));
                }
                let v: Vec<Val> = (0..args.len()).map(|i| a!(i)).collect();
                if b.ends_with("cmp3") {
                    let (x, y) = (self.t(&v[0], w), self.t(&v[1], w));
                    let o = if b == "ucmp3" { Op::Ult } else { Op::Slt };
                    let rw = rty.bits();
                    let lt = self.ts.bin(o, x, y);
                    let gt = self.ts.bin(o, y, x);
                    let m1 = self.ts.cst(mask(rw), rw);
                    let p1 = self.ts.cst(1, rw);
                    let z = self.ts.cst(0, rw);
                    let k = self.ts.ite(gt, p1, z);
                    let r = self.ts.ite(lt, m1, k);
                    return Ok(Some(self.mkv(r)));
                }
                let _ = gi;
                Some(self.intrin(b, w, &v)?)
            }
        })
    }
    fn low_bit(&mut self, t: T) -> T {
        if self.ts.w(t) == 1 {
            t
        } else {
            self.ts.extract(t, 0, 1)
        }
    }
    fn intrin(&mut self, b: &str, w: u32, v: &[Val]) -> R<Val> {
        if v.iter().any(|x| matches!(x, Val::U)) {
            return Ok(match b {
                "uadd_o" | "sadd_o" | "usub_o" | "ssub_o" | "umul_o" | "smul_o" => Val::Agg(Rc::new(vec![Val::U, Val::U])),
                _ => Val::U,
            });
        }
        let x = self.t(&v[0], w);
        let y = if v.len() > 1 && !matches!(b, "ctlz" | "cttz" | "abs") { self.t(&v[1], w) } else { x };
        let ts = &mut self.ts;
        let r = match b {
            "umax" | "umin" => {
                let c = ts.bin(Op::Ult, x, y);
                if b == "umax" {
                    ts.ite(c, y, x)
                } else {
                    ts.ite(c, x, y)
                }
            }
            "smax" | "smin" => {
                let c = ts.bin(Op::Slt, x, y);
                if b == "smax" {
                    ts.ite(c, y, x)
                } else {
                    ts.ite(c, x, y)
                }
            }
            "abs" => {
                let z = ts.cst(0, w);
                let c = ts.bin(Op::Slt, x, z);
                let n = ts.bin(Op::Sub, z, x);
                ts.ite(c, n, x)
            }
            "uadd_o" | "sadd_o" | "usub_o" | "ssub_o" | "umul_o" | "smul_o" => {
                let signed = b.starts_with('s');
                let op = match &b[1..4] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let res = ts.bin(op, x, y);
                let ov;
                if op == Op::Mul {
                    if !signed && ts.hi[x as usize].checked_mul(ts.hi[y as usize]).map_or(false, |p| p <= mask(w)) {
                        ov = ts.fls;
                    } else if w <= 64 {
                        let (ex, ey) = if signed { (ts.sext(x, 2 * w), ts.sext(y, 2 * w)) } else { (ts.zext(x, 2 * w), ts.zext(y, 2 * w)) };
                        let p = ts.bin(Op::Mul, ex, ey);
                        let back = if signed { ts.sext(res, 2 * w) } else { ts.zext(res, 2 * w) };
                        let e = ts.eq(p, back);
                        ov = ts.not(e);
                    } else {
                        return Err(X::Unsup("wide mul overflow".into()));
                    }
                } else if !signed {
                    if op == Op::Add {
                        if ts.hi[x as usize].checked_add(ts.hi[y as usize]).map_or(false, |p| p <= mask(w)) {
                            ov = ts.fls;
                        } else {
                            ov = ts.bin(Op::Ult, res, x);
                        }
                    } else {
                        ov = ts.bin(Op::Ult, x, y);
                    }
                } else {
                    let (ex, ey) = (ts.sext(x, w + 1), ts.sext(y, w + 1));
                    let p = ts.bin(op, ex, ey);
                    let back = ts.sext(res, w + 1);
                    let e = ts.eq(p, back);
                    ov = ts.not(e);
                }
                let a = self.mkv(res);
                let o = self.mkv(ov);
                return Ok(Val::Agg(Rc::new(vec![a, o])));
            }
            "usub_sat" => {
                let c = ts.bin(Op::Ult, x, y);
                let z = ts.cst(0, w);
                let s = ts.bin(Op::Sub, x, y);
                ts.ite(c, z, s)
            }
            "uadd_sat" => {
                let s = ts.bin(Op::Add, x, y);
                let c = ts.bin(Op::Ult, s, x);
                let m = ts.cst(mask(w), w);
                ts.ite(c, m, s)
            }
            "ctpop" => {
                let mut s = ts.cst(0, w);
                for i in 0..w {
                    let e = ts.extract(x, i, 1);
                    let z = if w > 1 { ts.zext(e, w) } else { e };
                    s = ts.bin(Op::Add, s, z);
                }
                s
            }
            "ctlz" | "cttz" => {
                let mut r = ts.cst(w as u128, w);
                let one = ts.tru;
                if b == "ctlz" {
                    for i in 0..w {
                        let e = ts.extract(x, i, 1);
                        let c = ts.eq(e, one);
                        let k = ts.cst((w - 1 - i) as u128, w);
                        r = ts.ite(c, k, r);
                    }
                } else {
                    for i in (0..w).rev() {
                        let e = ts.extract(x, i, 1);
                        let c = ts.eq(e, one);
                        let k = ts.cst(i as u128, w);
                        r = ts.ite(c, k, r);
                    }
                }
                r
            }
            "bswap" => {
                let mut t = ts.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let e = ts.extract(x, i * 8, 8);
                    t = ts.concat(t, e);
                }
                t
            }
            "bitreverse" => {
                let mut t = ts.extract(x, 0, 1);
                for i in 1..w {
                    let e = ts.extract(x, i, 1);
                    t = ts.concat(t, e);
                }
                t
            }
            "fshl" | "fshr" => {
                let s = self.t(&v[2], w);
                let ts = &mut self.ts;
                let wm = ts.cst(w as u128, w);
                let s = ts.bin(Op::URem, s, wm);
                let inv = ts.bin(Op::Sub, wm, s);
                let z = ts.cst(0, w);
                let e = ts.eq(s, z);
                if b == "fshl" {
                    let h = ts.bin(Op::Shl, x, s);
                    let l = ts.bin(Op::LShr, y, inv);
                    let o = ts.bin(Op::Or, h, l);
                    ts.ite(e, x, o)
                } else {
                    let l = ts.bin(Op::LShr, y, s);
                    let h = ts.bin(Op::Shl, x, inv);
                    let o = ts.bin(Op::Or, h, l);
                    ts.ite(e, y, o)
                }
            }
            _ => return Err(X::Unsup(format!("intrinsic {}", b))),
        };
        Ok(self.mkv(r))
    }
}

fn insert(x: &Val, ty: &Ty, nv: &Val, idx: &[u32]) -> Val {
    if idx.is_empty() {
        return nv.clone();
    }
    let mut v: Vec<Val> = match x {
        Val::Agg(a) => a.to_vec(),
        _ => vec![Val::U; ty.nelems()],
    };
    let i = idx[0] as usize;
    v[i] = insert(&v[i], ty.elem(i).0, nv, &idx[1..]);
    Val::Agg(Rc::new(v))
}

pub fn init(o: &mut Obj, off: usize, ty: &Ty, k: &K) {
    match (k, ty) {
        (K::Zero, _) | (K::Undef, _) => {}
        (K::Bytes(b), _) => o.data[off..off + b.len()].copy_from_slice(b),
        (K::Agg(v), _) => {
            for (i, x) in v.iter().enumerate() {
                let (t, eo) = ty.elem(i);
                init(o, off + eo as usize, t, x);
            }
        }
        (K::Int(n), _) => {
            for i in 0..ty.store_size() as usize {
                o.data[off + i] = if i < 16 { (n >> (8 * i)) as u8 } else { 0 };
            }
        }
    }
}
