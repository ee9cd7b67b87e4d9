//! Object memory: every allocation lives in its own 16 MiB address window.
use crate::ir::OBJ_SHIFT;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete value, bit width (<= 64)
    C(u64, u8),
    S(T),
    Agg(Rc<Vec<Val>>),
    U,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OK {
    Heap,
    Stack,
    Global,
    Const,
    Func,
    Freed,
}

pub const UNINIT: u64 = 1;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: OK,
    pub data: Vec<u8>,
    pub sym: Option<Vec<u64>>,
}

impl Obj {
    pub fn new(size: u64, align: u64, kind: OK, uninit: bool) -> Obj {
        Obj {
            size,
            align,
            kind,
            data: vec![0; size as usize],
            sym: if uninit && size > 0 { Some(vec![UNINIT; size as usize]) } else { None },
        }
    }
    #[inline]
    pub fn code(&self, i: usize) -> u64 {
        match &self.sym {
            None => 0,
            Some(s) => s[i],
        }
    }
    /// read n bytes at off as a bit-vector of 8n bits
    pub fn read(&self, ts: &mut Terms, off: usize, n: usize) -> Val {
        let conc = match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|&c| c == 0),
        };
        if conc {
            if n <= 8 {
                let mut v = 0u64;
                for k in (0..n).rev() {
                    v = v << 8 | self.data[off + k] as u64;
                }
                return Val::C(v, 8 * n as u8);
            }
            let mut t = None;
            let mut k = 0;
            while k < n {
                let m = (n - k).min(16);
                let mut v = 0u128;
                for j in (0..m).rev() {
                    v = v << 8 | self.data[off + k + j] as u128;
                }
                let c = ts.cst(v, (m * 8) as u32);
                t = Some(match t {
                    None => c,
                    Some(l) => ts.concat(c, l),
                });
                k += m;
            }
            return Val::S(t.unwrap());
        }
        let s = self.sym.as_ref().unwrap();
        if s[off..off + n].iter().all(|&c| c == UNINIT) {
            return Val::U;
        }
        // runs
        let mut t: Option<T> = None;
        let mut k = 0;
        while k < n {
            let c = s[off + k];
            let piece;
            let mut len = 1;
            if c <= UNINIT {
                let mut v = if c == 0 { self.data[off + k] as u128 } else { 0 };
                while k + len < n && s[off + k + len] <= UNINIT && len < 16 {
                    if s[off + k + len] == 0 {
                        v |= (self.data[off + k + len] as u128) << (8 * len);
                    }
                    len += 1;
                }
                piece = ts.cst(v, 8 * len as u32);
            } else {
                let tt = ((c >> 8) - 1) as T;
                let b = (c & 0xff) as u32;
                while k + len < n && s[off + k + len] == c + len as u64 {
                    len += 1;
                }
                piece = ts.extract(tt, b * 8, 8 * len as u32);
            }
            t = Some(match t {
                None => piece,
                Some(l) => ts.concat(piece, l),
            });
            k += len;
        }
        let t = t.unwrap();
        if n <= 8 {
            if let Some(c) = ts.is_const(t) {
                return Val::C(c as u64, 8 * n as u8);
            }
        }
        Val::S(t)
    }
    pub fn write_c(&mut self, off: usize, n: usize, v: u64) {
        for k in 0..n {
            self.data[off + k] = if k < 8 { (v >> (8 * k)) as u8 } else { 0 };
        }
        if let Some(s) = &mut self.sym {
            for k in 0..n {
                s[off + k] = 0;
            }
        }
    }
    fn symv(&mut self) -> &mut Vec<u64> {
        let n = self.size as usize;
        self.sym.get_or_insert_with(|| vec![0; n])
    }
    pub fn write_u(&mut self, off: usize, n: usize) {
        let s = self.symv();
        for k in 0..n {
            s[off + k] = UNINIT;
        }
    }
    /// t has width 8n
    pub fn write_t(&mut self, ts: &Terms, off: usize, n: usize, t: T) {
        if let Some(c) = ts.is_const(t) {
            for k in 0..n {
                self.data[off + k] = (c >> (8 * k)) as u8;
            }
            if let Some(s) = &mut self.sym {
                for k in 0..n {
                    s[off + k] = 0;
                }
            }
            return;
        }
        let s = self.symv();
        for k in 0..n {
            s[off + k] = ((t as u64 + 1) << 8) | k as u64;
        }
    }
}

const CH: usize = 16;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone, Default)]
pub struct Table {
    pub chunks: Vec<Rc<Chunk>>,
    pub len: usize,
}
impl Table {
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH).and_then(|c| c[i % CH].as_ref())
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= i / CH {
            self.chunks.push(Rc::new(Default::default()));
        }
        Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = o;
        if i >= self.len {
            self.len = i + 1;
        }
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i / CH)?;
        if c[i % CH].is_none() {
            return None;
        }
        Rc::make_mut(c)[i % CH].as_mut().map(Rc::make_mut)
    }
}

pub const STACK_ID: u64 = 1 << 30;

#[derive(Clone, Default)]
pub struct Mem {
    pub heap: Table,
    pub stack: Table,
    pub next: u64,
    pub sp: u64,
    pub live_heap: u64,
}

thread_local! {
    pub static FREED: Rc<Obj> = Rc::new(Obj::new(0, 1, OK::Freed, false));
}

impl Mem {
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= STACK_ID {
            self.stack.get((id - STACK_ID) as usize)
        } else {
            self.heap.get(id as usize)
        }
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= STACK_ID {
            self.stack.get_mut((id - STACK_ID) as usize)
        } else {
            self.heap.get_mut(id as usize)
        }
    }
    pub fn put(&mut self, id: u64, o: Option<Rc<Obj>>) {
        if id >= STACK_ID {
            self.stack.set((id - STACK_ID) as usize, o)
        } else {
            self.heap.set(id as usize, o)
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, zero: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        self.heap.set(id as usize, Some(Rc::new(Obj::new(size, align, OK::Heap, !zero))));
        self.live_heap += 1;
        id << OBJ_SHIFT
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let id = self.sp;
        self.sp += 1;
        self.stack.set(id as usize, Some(Rc::new(Obj::new(size, align, OK::Stack, true))));
        (STACK_ID + id) << OBJ_SHIFT
    }
    pub fn pop_to(&mut self, sp: u64) {
        for i in sp..self.sp {
            self.stack.set(i as usize, None);
        }
        self.sp = sp;
    }
}
