//! Post-dominators (merge points) and register liveness.
use crate::ir::*;

pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(Inst::Br(x)) => vec![*x],
        Some(Inst::CondBr(_, a, c)) => vec![*a, *c],
        Some(Inst::Switch { default, cases, .. }) => {
            let mut v = vec![*default];
            v.extend(cases.iter().map(|c| c.1));
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}

fn opn_uses(o: &Opn, f: &mut dyn FnMut(u32)) {
    if let Opn::Reg(r) = o {
        f(*r)
    }
}

pub fn uses(i: &Inst, f: &mut dyn FnMut(u32)) {
    match i {
        Inst::Alloca { count, .. } => {
            if let Some((c, _)) = count {
                opn_uses(c, f)
            }
        }
        Inst::Load { ptr, .. } => opn_uses(ptr, f),
        Inst::Store { val, ptr, .. } => {
            opn_uses(val, f);
            opn_uses(ptr, f)
        }
        Inst::Gep { base, idx, .. } => {
            opn_uses(base, f);
            for x in idx {
                opn_uses(&x.0, f)
            }
        }
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::FCmp { a, b, .. } | Inst::Shuffle { a, b, .. } => {
            opn_uses(a, f);
            opn_uses(b, f)
        }
        Inst::Select { c, a, b, .. } => {
            opn_uses(c, f);
            opn_uses(a, f);
            opn_uses(b, f)
        }
        Inst::Cast { a, .. } | Inst::Freeze { a, .. } | Inst::FNeg { a, .. } | Inst::ExtractValue { a, .. } => opn_uses(a, f),
        Inst::Call { callee, args, .. } => {
            if let Callee::Indirect(o) = callee {
                opn_uses(o, f)
            }
            for (_, a) in args {
                opn_uses(a, f)
            }
        }
        Inst::InsertValue { a, v, .. } => {
            opn_uses(a, f);
            opn_uses(v, f)
        }
        Inst::ExtractElement { a, i, .. } => {
            opn_uses(a, f);
            opn_uses(i, f)
        }
        Inst::InsertElement { a, v, i, .. } => {
            opn_uses(a, f);
            opn_uses(v, f);
            opn_uses(i, f)
        }
        Inst::AtomicRmw { ptr, v, .. } => {
            opn_uses(ptr, f);
            opn_uses(v, f)
        }
        Inst::CmpXchg { ptr, cmp, new, .. } => {
            opn_uses(ptr, f);
            opn_uses(cmp, f);
            opn_uses(new, f)
        }
        Inst::CondBr(c, ..) => opn_uses(c, f),
        Inst::Switch { v, .. } => opn_uses(v, f),
        Inst::Ret(Some((_, v))) => opn_uses(v, f),
        _ => {}
    }
}

pub fn def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Alloca { dst, .. }
        | Inst::Load { dst, .. }
        | Inst::Gep { dst, .. }
        | Inst::Bin { dst, .. }
        | Inst::ICmp { dst, .. }
        | Inst::FCmp { dst, .. }
        | Inst::Select { dst, .. }
        | Inst::Cast { dst, .. }
        | Inst::ExtractValue { dst, .. }
        | Inst::InsertValue { dst, .. }
        | Inst::ExtractElement { dst, .. }
        | Inst::InsertElement { dst, .. }
        | Inst::Shuffle { dst, .. }
        | Inst::Freeze { dst, .. }
        | Inst::FNeg { dst, .. }
        | Inst::AtomicRmw { dst, .. }
        | Inst::CmpXchg { dst, .. } => Some(*dst),
        Inst::Call { dst, .. } => *dst,
        _ => None,
    }
}

pub fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, s) in succ.iter().enumerate() {
        for &x in s {
            pred[x as usize].push(i);
        }
    }
    // blocks that can reach a return
    let mut good = vec![false; n];
    let mut st: Vec<usize> = (0..n).filter(|&i| matches!(f.blocks[i].insts.last(), Some(Inst::Ret(_)))).collect();
    for &i in &st {
        good[i] = true;
    }
    while let Some(i) = st.pop() {
        for &p in &pred[i] {
            if !good[p] {
                good[p] = true;
                st.push(p);
            }
        }
    }
    // post order on the reverse graph from the virtual exit (index n)
    let exits: Vec<usize> = (0..n).filter(|&i| matches!(f.blocks[i].insts.last(), Some(Inst::Ret(_)))).collect();
    let mut order = vec![]; // post-order
    let mut seen = vec![false; n];
    for &e in &exits {
        if seen[e] {
            continue;
        }
        let mut stack = vec![(e, 0usize)];
        seen[e] = true;
        while let Some((b, k)) = stack.pop() {
            if k < pred[b].len() {
                stack.push((b, k + 1));
                let p = pred[b][k];
                if !seen[p] {
                    seen[p] = true;
                    stack.push((p, 0));
                }
            } else {
                order.push(b);
            }
        }
    }
    order.push(n); // exit last in post-order
    let mut num = vec![usize::MAX; n + 1];
    for (i, &b) in order.iter().enumerate() {
        num[b] = i;
    }
    let mut ip = vec![usize::MAX; n + 1];
    ip[n] = n;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().rev() {
            if b == n {
                continue;
            }
            let mut new = usize::MAX;
            let mut consider = |s: usize, ip: &Vec<usize>| {
                if ip[s] == usize::MAX {
                    return;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut x, mut y) = (new, s);
                    while x != y {
                        while num[x] < num[y] {
                            x = ip[x];
                        }
                        while num[y] < num[x] {
                            y = ip[y];
                        }
                    }
                    new = x;
                }
            };
            if matches!(f.blocks[b].insts.last(), Some(Inst::Ret(_))) {
                consider(n, &ip);
            }
            for &s in &succ[b] {
                if good[s as usize] {
                    consider(s as usize, &ip);
                }
            }
            if new != usize::MAX && ip[b] != new {
                ip[b] = new;
                changed = true;
            }
        }
    }
    f.ipdom = (0..n)
        .map(|b| {
            if ip[b] == usize::MAX {
                -2
            } else if ip[b] == n {
                -1
            } else {
                ip[b] as i32
            }
        })
        .collect();
    // liveness (after phis)
    let words = (f.nregs as usize + 63) / 64;
    let mut usev = vec![vec![0u64; words]; n];
    let mut defv = vec![vec![0u64; words]; n];
    let mut phid = vec![vec![0u64; words]; n];
    for b in 0..n {
        for i in &f.blocks[b].insts {
            uses(i, &mut |r| {
                let (w, k) = (r as usize / 64, r % 64);
                if defv[b][w] >> k & 1 == 0 {
                    usev[b][w] |= 1 << k;
                }
            });
            if let Some(d) = def(i) {
                defv[b][d as usize / 64] |= 1 << (d % 64);
            }
        }
        for p in &f.blocks[b].phis {
            phid[b][p.dst as usize / 64] |= 1 << (p.dst % 64);
        }
    }
    let mut live = usev.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &succ[b] {
                let s = s as usize;
                for w in 0..words {
                    out[w] |= live[s][w] & !phid[s][w];
                }
                for p in &f.blocks[s].phis {
                    for (v, pb) in &p.ins {
                        if *pb as usize == b {
                            if let Opn::Reg(r) = v {
                                out[*r as usize / 64] |= 1 << (*r % 64);
                            }
                        }
                    }
                }
            }
            for w in 0..words {
                let nv = usev[b][w] | (out[w] & !defv[b][w]);
                if nv != live[b][w] {
                    live[b][w] = nv;
                    changed = true;
                }
            }
        }
    }
    f.live_in = live
        .into_iter()
        .map(|l| {
            let mut v = vec![];
            for (w, mut x) in l.into_iter().enumerate() {
                while x != 0 {
                    let k = x.trailing_zeros();
                    v.push(w as u32 * 64 + k);
                    x &= x - 1;
                }
            }
            v
        })
        .collect();
}
