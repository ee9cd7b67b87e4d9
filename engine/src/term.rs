//! Hash-consed bit-vector terms with local simplification.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // k = low bit
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    /// unsigned interval per node
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    /// number of const leaves if the node is an ite-tree of constants (0 = not)
    pub tzs: Vec<u8>,
    pub leaves: Vec<u32>,
    tab: HashMap<Node, T, Bh>,
    xcache: HashMap<(T, u32, u32), T, Bh>,
    pub vars: Vec<(T, u32)>,
    pub tru: T,
    pub fls: T,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type Bh = std::hash::BuildHasherDefault<Fx>;

const LEAF_MAX: u32 = 48;

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![],
            lo: vec![],
            hi: vec![],
            leaves: vec![],
            tzs: vec![],
            tab: HashMap::default(),
            xcache: HashMap::default(),
            vars: vec![],
            tru: 0,
            fls: 0,
        };
        t.fls = t.cst(0, 1);
        t.tru = t.cst(1, 1);
        t
    }
    pub fn show(&self, t: T, d: u32) -> String {
        let n = self.nodes[t as usize];
        if n.op == Op::Const { return format!("{:#x}", n.k); }
        if d == 0 { return format!("t{}", t); }
        let f = |x: T| self.show(x, d - 1);
        format!("({:?}.{} {} {} {} {})", n.op, n.w, if n.a == 0 { "_".into() } else { f(n.a) }, if n.b == 0 { "_".into() } else { f(n.b) }, if n.c == 0 { "_".into() } else { f(n.c) }, n.k)
    }
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    pub fn is_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, node: Node) -> T {
        if let Some(&t) = self.tab.get(&node) {
            return t;
        }
        let id = self.nodes.len() as T;
        let (lo, hi) = self.range_of(&node);
        let lv = match node.op {
            Op::Const => 1,
            Op::Ite => {
                let x = self.leaves[node.b as usize];
                let y = self.leaves[node.c as usize];
                if x == 0 || y == 0 || x + y > LEAF_MAX {
                    0
                } else {
                    x + y
                }
            }
            _ => 0,
        };
        let z = self.tz_of(&node).min(node.w);
        self.tzs.push(z as u8);
        self.nodes.push(node);
        self.lo.push(lo);
        self.hi.push(hi);
        self.leaves.push(lv);
        self.tab.insert(node, id);
        id
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |t: T| (self.lo[t as usize], self.hi[t as usize]);
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Ite => {
                let (a, b) = r(n.b);
                let (c, d) = r(n.c);
                (a.min(c), b.max(d))
            }
            Op::ZExt => r(n.a),
            Op::And => {
                let (_, b) = r(n.a);
                let (_, d) = r(n.b);
                (0, b.min(d))
            }
            Op::Or | Op::Xor => {
                let (_, b) = r(n.a);
                let (_, d) = r(n.b);
                let x = b | d;
                let bits = 128 - x.leading_zeros();
                (0, mask(bits).min(m))
            }
            Op::Add => {
                let (a, b) = r(n.a);
                let (c, d) = r(n.b);
                match b.checked_add(d) {
                    Some(s) if s <= m => (a + c, s),
                    _ => {
                        // adding a "negative" constant that cannot borrow
                        if let Op::Const = self.nodes[n.b as usize].op {
                            let neg = (m - c).wrapping_add(1) & m;
                            if neg <= a && neg > 0 {
                                return (a - neg, b - neg);
                            }
                        }
                        (0, m)
                    }
                }
            }
            Op::Sub => {
                let (a, b) = r(n.a);
                let (c, d) = r(n.b);
                if a >= d {
                    (a - d, b - c)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (a, b) = r(n.a);
                let (c, d) = r(n.b);
                match b.checked_mul(d) {
                    Some(s) if s <= m => (a * c, s),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = r(n.a);
                let (c, d) = r(n.b);
                if c > 0 {
                    (a / d, b / c)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (_, b) = r(n.a);
                let (c, d) = r(n.b);
                if c > 0 {
                    (0, b.min(d - 1))
                } else {
                    (0, m)
                }
            }
            Op::LShr => {
                let (a, b) = r(n.a);
                if let Op::Const = self.nodes[n.b as usize].op {
                    let k = self.nodes[n.b as usize].k;
                    if k < n.w as u128 {
                        return (a >> k, b >> k);
                    }
                    return (0, 0);
                }
                (0, b)
            }
            Op::Shl => {
                let (a, b) = r(n.a);
                if let Op::Const = self.nodes[n.b as usize].op {
                    let k = self.nodes[n.b as usize].k;
                    if k < n.w as u128 && b <= (m >> k) {
                        return (a << k, b << k);
                    }
                }
                (0, m)
            }
            Op::Concat => {
                let (a, b) = r(n.a);
                let wb = self.w(n.b);
                let (c, d) = r(n.b);
                ((a << wb) | c.min(mask(wb)), (b << wb) | d)
                    .into_sorted(a == b, mask(wb), a, b, wb)
            }
            Op::Extract => {
                let (a, b) = r(n.a);
                if n.k == 0 && b <= m {
                    (a, b)
                } else {
                    (0, m.min(b >> n.k))
                }
            }
            _ => (0, m),
        }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> T {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, w: u32) -> T {
        let k = self.vars.len() as u128;
        let t = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k });
        self.vars.push((t, w));
        t
    }
    pub fn get_var(&mut self, k: usize, w: u32) -> T {
        while self.vars.len() <= k {
            self.vars.push((u32::MAX, 0));
        }
        if self.vars[k].0 != u32::MAX {
            assert_eq!(self.vars[k].1, w, "symbolic input {} re-created with another width", k);
            return self.vars[k].0;
        }
        let t = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: k as u128 });
        self.vars[k] = (t, w);
        t
    }
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        match n.op {
            Op::Const => self.cst(!n.k, n.w),
            Op::Not => n.a,
            _ => self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 }),
        }
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        (self.nodes[a as usize].op == Op::Not && self.nodes[a as usize].a == b)
            || (self.nodes[b as usize].op == Op::Not && self.nodes[b as usize].a == a)
    }
    /// map a unary constant function over an ite tree of constants
    fn map_leaves(&mut self, t: T, f: &mut dyn FnMut(&mut Terms, T) -> T) -> T {
        let mut memo: HashMap<T, T, Bh> = HashMap::default();
        self.map_leaves_rec(t, f, &mut memo)
    }
    fn map_leaves_rec(
        &mut self,
        t: T,
        f: &mut dyn FnMut(&mut Terms, T) -> T,
        memo: &mut HashMap<T, T, Bh>,
    ) -> T {
        let n = self.n(t);
        if n.op == Op::Const {
            return f(self, t);
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let x = self.map_leaves_rec(n.b, f, memo);
        let y = self.map_leaves_rec(n.c, f, memo);
        let r = self.ite(n.a, x, y);
        memo.insert(t, r);
        r
    }
    pub fn is_tree(&self, t: T) -> bool {
        self.leaves[t as usize] > 1
    }
    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sext128(x, w), sext128(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sext128(x, w), sext128(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let a = sext128(x, w);
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (a >> s) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Slt => (sext128(x, w) < sext128(y, w)) as u128,
            _ => unreachable!(),
        };
        match op {
            Op::Eq | Op::Ult | Op::Slt => r,
            _ => r & m,
        }
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(Self::fold(op, w, x, y), rw);
        }
        // commutative: constant to the right, else order by id
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        // constant-ite-tree pushing
        if let Some(_) = cb {
            if self.is_tree(a) {
                return self.map_leaves(a, &mut |s, x| s.bin(op, x, b));
            }
        } else if ca.is_some() && self.is_tree(b) {
            return self.map_leaves(b, &mut |s, x| s.bin(op, a, x));
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(k) = self.is_const(n.b) {
                            let c = self.cst(k.wrapping_add(y), w);
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                // (x - y) + y
                let n = self.n(a);
                if n.op == Op::Sub && n.b == b {
                    return n.a;
                }
                let n = self.n(b);
                if n.op == Op::Sub && n.b == a {
                    return n.a;
                }
                // normalise (x + k) + y -> (x + y) + k
                let n = self.n(a);
                if cb.is_none() && n.op == Op::Add && self.is_const(n.b).is_some() {
                    let s = self.bin(Op::Add, n.a, b);
                    return self.bin(Op::Add, s, n.b);
                }
                let n = self.n(b);
                if n.op == Op::Add && self.is_const(n.b).is_some() {
                    let s = self.bin(Op::Add, a, n.a);
                    return self.bin(Op::Add, s, n.b);
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(y) = cb {
                    let c = self.cst((y.wrapping_neg()) & m, w);
                    return self.bin(Op::Add, a, c);
                }
                let n = self.n(a);
                if n.op == Op::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                    if let Some(k) = self.is_const(n.b) {
                        let s = self.bin(Op::Sub, n.a, b);
                        let kk = self.cst(k, w);
                        return self.bin(Op::Add, s, kk);
                    }
                }
                let n = self.n(b);
                if n.op == Op::Add {
                    if let Some(k) = self.is_const(n.b) {
                        let s = self.bin(Op::Sub, a, n.a);
                        let kk = self.cst(k.wrapping_neg(), w);
                        return self.bin(Op::Add, s, kk);
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if self.hi[a as usize] < k {
                        return self.cst(0, w);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 && self.hi[a as usize] < k {
                        return a;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr {
                        return self.cst(0, w);
                    }
                    if op == Op::AShr && self.hi[a as usize] <= (m >> 1) {
                        return self.bin(Op::LShr, a, b);
                    }
                    let n = self.n(a);
                    if op == Op::LShr {
                        if self.hi[a as usize] >> k == 0 {
                            return self.cst(0, w);
                        }
                        // (concat/zext) >> k  -> extract
                        match n.op {
                            Op::ZExt => {
                                let iw = self.w(n.a);
                                if k < iw as u128 {
                                    let e = self.extract(n.a, k as u32, iw - k as u32);
                                    return self.zext(e, w);
                                }
                                return self.cst(0, w);
                            }
                            Op::Concat => {
                                let e = self.extract(a, k as u32, w - k as u32);
                                return self.zext(e, w);
                            }
                            Op::Shl => {
                                if let Some(j) = self.is_const(n.b) {
                                    if j == k && self.hi[n.a as usize] <= (m >> k) {
                                        return n.a;
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    if op == Op::Shl && n.op == Op::Shl {
                        if let Some(j) = self.is_const(n.b) {
                            let c = self.cst(j + k, w);
                            if j + k < w as u128 {
                                return self.bin(Op::Shl, n.a, c);
                            }
                        }
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if a == b {
                    return a;
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.fls;
                    }
                    // absorption: a & (a & x), a & (a | x), a & (!a | x)
                    for (p, q) in [(a, b), (b, a)] {
                        let n = self.n(q);
                        if n.op == Op::And && (n.a == p || n.b == p) {
                            return q;
                        }
                        if n.op == Op::Or && (n.a == p || n.b == p) {
                            return p;
                        }
                        if n.op == Op::Or && self.is_not_of(n.a, p) {
                            return self.bin(Op::And, p, n.b);
                        }
                        if n.op == Op::Or && self.is_not_of(n.b, p) {
                            return self.bin(Op::And, p, n.a);
                        }
                        if n.op == Op::And && (self.is_not_of(n.a, p) || self.is_not_of(n.b, p)) {
                            return self.fls;
                        }
                    }
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    if n.op == Op::And {
                        if let Some(j) = self.is_const(n.b) {
                            let c = self.cst(j & k, w);
                            return self.bin(Op::And, n.a, c);
                        }
                    }
                    // low mask
                    let bits = 128 - k.leading_zeros();
                    if k == mask(bits) {
                        if self.hi[a as usize] <= k {
                            return a;
                        }
                        if bits < w {
                            let e = self.extract(a, 0, bits);
                            return self.zext(e, w);
                        }
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let c = self.cst(k, iw);
                        let e = self.bin(Op::And, n.a, c);
                        return self.zext(e, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.tru;
                    }
                    for (p, q) in [(a, b), (b, a)] {
                        let n = self.n(q);
                        if n.op == Op::Or && (n.a == p || n.b == p) {
                            return q;
                        }
                        if n.op == Op::And && (n.a == p || n.b == p) {
                            return p;
                        }
                        if n.op == Op::And && self.is_not_of(n.a, p) {
                            return self.bin(Op::Or, p, n.b);
                        }
                        if n.op == Op::And && self.is_not_of(n.b, p) {
                            return self.bin(Op::Or, p, n.a);
                        }
                        if n.op == Op::Or && (self.is_not_of(n.a, p) || self.is_not_of(n.b, p)) {
                            return self.tru;
                        }
                    }
                }
                // disjoint zext / shl -> concat:  zext(x) | (y << k)
                if w > 1 {
                    for (p, q) in [(a, b), (b, a)] {
                        let n = self.n(q);
                        if n.op == Op::Shl {
                            if let Some(k) = self.is_const(n.b) {
                                if k > 0 && k < w as u128 && self.hi[p as usize] <= mask(k as u32) {
                                    let lo = self.extract(p, 0, k as u32);
                                    let hi = self.extract(n.a, 0, w - k as u32);
                                    return self.concat(hi, lo);
                                }
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if cb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru;
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if self.is_not_of(a, b) {
                        return self.fls;
                    }
                }
                if self.hi[a as usize] < self.lo[b as usize] || self.hi[b as usize] < self.lo[a as usize] {
                    return self.fls;
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if k > mask(iw) {
                                return self.fls;
                            }
                            let c = self.cst(k, iw);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let kk = k & mask(iw);
                            if (sext128(kk, iw) as u128) & m == k {
                                let c = self.cst(kk, iw);
                                return self.bin(Op::Eq, n.a, c);
                            }
                            return self.fls;
                        }
                        Op::Concat => {
                            let wl = self.w(n.b);
                            let ch = self.cst(k >> wl, w - wl);
                            let cl = self.cst(k, wl);
                            let x = self.bin(Op::Eq, n.a, ch);
                            if x == self.fls {
                                return x;
                            }
                            let y = self.bin(Op::Eq, n.b, cl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(j) = self.is_const(n.b) {
                                let c = self.cst(k.wrapping_sub(j), w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(j) = self.is_const(n.b) {
                                let c = self.cst(k ^ j, w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, n.a, n.b);
                            }
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, n.a, n.b),
                        Op::Not => {
                            let c = self.cst(!k, w);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Shl => {
                            if let Some(j) = self.is_const(n.b) {
                                if self.hi[n.a as usize] <= (m >> j) {
                                    if k & mask(j as u32) != 0 {
                                        return self.fls;
                                    }
                                    let c = self.cst(k >> j, w);
                                    return self.bin(Op::Eq, n.a, c);
                                }
                            }
                        }
                        Op::Ite => {
                            // eq(ite(c, K, y), k)
                            if let Some(x) = self.is_const(n.b) {
                                let e = self.bin(Op::Eq, n.c, b);
                                return if x == k {
                                    self.bin(Op::Or, n.a, e)
                                } else {
                                    let nc = self.not(n.a);
                                    self.bin(Op::And, nc, e)
                                };
                            }
                            if let Some(y) = self.is_const(n.c) {
                                let e = self.bin(Op::Eq, n.b, b);
                                return if y == k {
                                    let nc = self.not(n.a);
                                    self.bin(Op::Or, nc, e)
                                } else {
                                    self.bin(Op::And, n.a, e)
                                };
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        if wa == wb {
                            return self.bin(Op::Eq, na.a, nb.a);
                        }
                        let mw = wa.max(wb);
                        let x = self.zext(na.a, mw);
                        let y = self.zext(nb.a, mw);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.fls;
                }
                if self.hi[a as usize] < self.lo[b as usize] {
                    return self.tru;
                }
                if self.lo[a as usize] >= self.hi[b as usize] {
                    return self.fls;
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::And, na, b);
                }
                if cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let e = self.bin(Op::Eq, a, b);
                    return self.not(e);
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
                if na.op == Op::ZExt {
                    if let Some(k) = cb {
                        let iw = self.w(na.a);
                        // k <= mask(iw) by interval test above
                        if k <= mask(iw) {
                            let c = self.cst(k, iw);
                            return self.bin(Op::Ult, na.a, c);
                        }
                    }
                }
                if nb.op == Op::ZExt {
                    if let Some(k) = ca {
                        let iw = self.w(nb.a);
                        if k <= mask(iw) {
                            let c = self.cst(k, iw);
                            return self.bin(Op::Ult, c, nb.a);
                        }
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.fls;
                }
                let half = 1u128 << (w - 1);
                if self.hi[a as usize] < half && self.hi[b as usize] < half {
                    return self.bin(Op::Ult, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: T, x: T, y: T) -> T {
        debug_assert_eq!(self.w(x), self.w(y));
        if x == y {
            return x;
        }
        if let Some(k) = self.is_const(c) {
            return if k == 1 { x } else { y };
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, y, x);
        }
        if self.w(x) == 1 {
            if x == self.tru || x == c {
                return self.bin(Op::Or, c, y);
            }
            if x == self.fls {
                let nc = self.not(c);
                return self.bin(Op::And, nc, y);
            }
            if y == self.tru {
                let nc = self.not(c);
                return self.bin(Op::Or, nc, x);
            }
            if y == self.fls || y == c {
                return self.bin(Op::And, c, x);
            }
        }
        // same-condition collapse
        let nx = self.n(x);
        if nx.op == Op::Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        let ny = self.n(y);
        if ny.op == Op::Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        // ite(c, x, ite(d, x, z)) -> ite(c|d, x, z)
        if ny.op == Op::Ite && ny.b == x {
            let d = self.bin(Op::Or, c, ny.a);
            return self.ite(d, x, ny.c);
        }
        if ny.op == Op::Ite && ny.c == x {
            // ite(c, x, ite(d, z, x)) -> ite(!c & d, z, x)
            let ncn = self.not(c);
            let d = self.bin(Op::And, ncn, ny.a);
            return self.ite(d, ny.b, x);
        }
        if nx.op == Op::Ite && nx.c == y {
            // ite(c, ite(d, z, y), y) -> ite(c & d, z, y)
            let d = self.bin(Op::And, c, nx.a);
            return self.ite(d, nx.b, y);
        }
        if nx.op == Op::Ite && nx.b == y {
            let nd = self.not(nx.a);
            let d = self.bin(Op::And, c, nd);
            return self.ite(d, nx.c, y);
        }
        if nx.op == Op::ZExt && ny.op == Op::ZExt && self.w(nx.a) == self.w(ny.a) {
            let i = self.ite(c, nx.a, ny.a);
            return self.zext(i, nx.w);
        }
        self.mk(Node { op: Op::Ite, w: nx.w, a: c, b: x, c: y, k: 0 })
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => self.cst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.is_tree(a) => self.map_leaves(a, &mut |s, x| s.zext(x, w)),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.cst(sext128(n.k, n.w) as u128, w);
        }
        if self.is_tree(a) {
            return self.map_leaves(a, &mut |s, x| s.sext(x, w));
        }
        if n.w > 1 && self.hi[a as usize] <= mask(n.w) >> 1 {
            return self.zext(a, w);
        }
        if n.w == 1 {
            let m = self.cst(mask(w), w);
            let z = self.cst(0, w);
            return self.ite(a, m, z);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        if n.op == Op::Const {
            return self.cst(n.k >> lo, w);
        }
        if let Some(&t) = self.xcache.get(&(a, lo, w)) {
            return t;
        }
        let r = self.extract_uncached(a, lo, w);
        self.xcache.insert((a, lo, w), r);
        r
    }
    fn extract_uncached(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.is_tree(a) {
                    return self.map_leaves(a, &mut |s, x| s.extract(x, lo, w));
                }
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::LShr => {
                if let Some(k) = self.is_const(n.b) {
                    if k + (lo + w) as u128 <= n.w as u128 {
                        return self.extract(n.a, lo + k as u32, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = self.is_const(n.b) {
                    if lo as u128 >= k {
                        return self.extract(n.a, lo - k as u32, w);
                    }
                    if (lo + w) as u128 <= k {
                        return self.cst(0, w);
                    }
                }
            }
            _ => {}
        }
        if self.hi[a as usize] >> lo == 0 {
            return self.cst(0, w);
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    /// a = high part, b = low part
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.cst((na.k << nb.w) | nb.k, w);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u32, w);
        }
        // zext(x) high over extract low of the same node
        if na.op == Op::ZExt {
            let inner = self.concat(na.a, b);
            return self.zext(inner, w);
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Ite && nb.op == Op::Const && self.is_tree(a) {
            return self.map_leaves(a, &mut |s, x| s.concat(x, b));
        }
        if nb.op == Op::Ite && na.op == Op::Const && self.is_tree(b) {
            return self.map_leaves(b, &mut |s, x| s.concat(a, x));
        }
        // re-associate to expose extract adjacency: concat(concat(p,q), b)
        if na.op == Op::Concat {
            let q = self.n(na.b);
            if q.op == Op::Extract && nb.op == Op::Extract && q.a == nb.a && q.k == nb.k + nb.w as u128 {
                let low = self.concat(na.b, b);
                return self.concat(na.a, low);
            }
        }
        self.mk(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Op::Eq, a, b)
    }
    /// number of trailing zero bits known
    #[inline]
    pub fn tz(&self, t: T) -> u32 {
        self.tzs[t as usize] as u32
    }
    /// trailing zero bits that every value of the (new) node is known to have
    fn tz_of(&self, n: &Node) -> u32 {
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Shl => {
                if let Some(k) = self.is_const(n.b) {
                    self.tz(n.a) + k as u32
                } else {
                    0
                }
            }
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Add | Op::Sub => self.tz(n.a).min(self.tz(n.b)),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            Op::ZExt => {
                let z = self.tz(n.a);
                z
            }
            Op::Concat => {
                let z = self.tz(n.b);
                if z == self.w(n.b) {
                    z + self.tz(n.a)
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    /// evaluate under a variable assignment; memo is per model
    pub fn eval(&self, t: T, vals: &[u64], memo: &mut HashMap<T, u128, Bh>) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return (*vals.get(n.k as usize).unwrap_or(&0)) as u128 & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let m = mask(n.w);
        let r = match n.op {
            Op::Not => !self.eval(n.a, vals, memo) & m,
            Op::Ite => {
                if self.eval(n.a, vals, memo) == 1 {
                    self.eval(n.b, vals, memo)
                } else {
                    self.eval(n.c, vals, memo)
                }
            }
            Op::Concat => {
                let h = self.eval(n.a, vals, memo);
                let l = self.eval(n.b, vals, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval(n.a, vals, memo) >> n.k) & m,
            Op::ZExt => self.eval(n.a, vals, memo),
            Op::SExt => {
                let x = self.eval(n.a, vals, memo);
                (sext128(x, self.w(n.a)) as u128) & m
            }
            op => {
                let x = self.eval(n.a, vals, memo);
                let y = self.eval(n.b, vals, memo);
                Self::fold(op, self.w(n.a), x, y)
            }
        };
        memo.insert(t, r);
        r
    }
}

trait IntoSorted {
    fn into_sorted(self, same_hi: bool, lowmask: u128, a: u128, b: u128, wb: u32) -> (u128, u128);
}
impl IntoSorted for (u128, u128) {
    fn into_sorted(self, same_hi: bool, lowmask: u128, a: u128, b: u128, wb: u32) -> (u128, u128) {
        if same_hi {
            self
        } else {
            (a << wb, (b << wb) | lowmask)
        }
    }
}
