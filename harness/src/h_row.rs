//! Rows as permutations: validation, arithmetic, predicates.
use crate::util::*;
use std::convert::TryFrom;

fn bells_vec(v: &[usize]) -> Vec<Bell> {
    let mut b = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        b.push(Bell::from_index(v[i]));
        i += 1;
    }
    b
}
/// n bells of any value; on most larger stages only five of them vary, the others being in a fixed order (a rotation,
/// rounds or backrounds)
fn some_bells(n: usize, bits: u64) -> Vec<usize> {
    if wholly(n) { return sym_vec(n, bits); }
    let mut v: Vec<usize> = (0..n).map(|i| match n % 3 { 0 => (i + 5) % n, 1 => i, _ => n - 1 - i }).collect();
    let at: &[usize] = if n > 100 { &[n - 1 - n / 3] } else { &[0, n / 3, n / 2 + 1, n - 2, n - 1] };
    for at in at { v[*at] = sym(bits); }
    v
}
/// The hash is beyond the solver on 12 whole bells, but not on 16
fn few(n: usize) -> Vec<usize> {
    if n == 16 { sym_perm_all(n) } else { sym_perm(n) }
}
/// The cycle lengths from the given parameter on, ended by 99
pub fn cycle_param(from: u64) -> Vec<usize> {
    let mut c = vec![];
    while param(from + c.len() as u64) != 99 { c.push(param(from + c.len() as u64)); }
    c
}
pub fn lcm(c: &[usize]) -> usize {
    let mut l = 1;
    while c.iter().any(|x| l % x != 0) { l += 1; }
    l
}
/// An order of the bells in which k of them (every other one) are arbitrarily rearranged
pub fn labels(c: &[usize], k: usize) -> (Vec<usize>, usize) {
    let n: usize = c.iter().sum();
    let mut v: Vec<usize> = (0..n).rev().collect();
    if k > 0 {
        let q = sym_perm(k);
        let gap = if 2 * k <= n { 2 } else { 1 };
        let old: Vec<usize> = (0..k).map(|i| v[gap * i]).collect();
        for i in 0..k { v[gap * i] = sel(&old, q[i]); }
    }
    (v, n)
}
/// The e-th power of the row with these cycles, running through the bells in the order of `lab`
pub fn cycle_row(c: &[usize], lab: &[usize], e: usize) -> Vec<usize> {
    let n = lab.len();
    let mut img = vec![0; n];
    let mut at = 0;
    for l in c {
        for i in 0..*l { img[at + i] = lab[at + (i + e) % l]; }
        at += l;
    }
    (0..n).map(|p| {
        let mut r = 0u64;
        for i in 0..n { r = vk_ite(lab[i] == p, img[i] as u64, r); }
        r as usize
    }).collect()
}
/// Does some bell other than the one at `i` equal `x`? / how often does x occur
fn occurs(v: &[usize], x: usize) -> usize {
    let mut c = 0usize;
    let mut i = 0;
    while i < v.len() {
        c += (v[i] == x) as usize;
        i += 1;
    }
    c
}
/// The error must be a true statement about the input
fn error_is_true(e: &InvalidRowError, v: &[usize], stage: usize, may_miss: bool) -> bool {
    match e {
        InvalidRowError::NoBells => v.is_empty() && stage == 0,
        InvalidRowError::DuplicateBell(b) => occurs(v, b.index()) >= 2,
        InvalidRowError::BellOutOfStage(b, s) => {
            (s.num_bells() == stage) & (b.index() >= stage) & (occurs(v, b.index()) >= 1)
        }
        InvalidRowError::MissingBell(b) => {
            let mut bigger = false;
            let mut i = 0;
            while i < v.len() {
                bigger |= v[i] > b.index();
                i += 1;
            }
            may_miss && ((occurs(v, b.index()) == 0) & bigger & (b.index() < stage))
        }
    }
}

crate::harness! {
// ---- validation -------------------------------------------------------------------------------
// params: n, width of each symbolic bell index, iterator?
fn h_from_vec() {
    let n = param(0);
    let v = some_bells(n, param(1) as u64);
    let valid = is_perm(&v) && n > 0;
    let bells = bells_vec(&v);
    let r = if param(2) == 0 { RowBuf::from_vec(bells) } else { RowBuf::from_bell_iter(bells.into_iter()) };
    match r {
        Ok(r) => {
            vk_cover(1);
            vk_check(valid, 1);
            vk_check(row_is(&r, &v), 2);
            vk_check(r.stage().num_bells() == n, 3);
            vk_observe(1);
        }
        Err(e) => {
            vk_cover(2);
            vk_check(!valid, 4);
            vk_check(error_is_true(&e, &v, n, false), 5);
            vk_observe(0);
        }
    }
}
// params: number of bells, stage, width
fn h_from_vec_stage() {
    let k = param(0);
    let n = param(1);
    let v = some_bells(k, param(2) as u64);
    let stage = Stage::new(n);
    // valid iff the bells are a permutation of 0..k, and k <= stage
    let valid = is_perm(&v) & (k <= n);
    match RowBuf::from_vec_with_stage(bells_vec(&v), stage) {
        Ok(r) => {
            vk_cover(1);
            vk_check(valid, 1);
            vk_check(r.stage() == stage, 2);
            let s = r.slice();
            let mut i = 0;
            let mut ok = true;
            while i < n {
                ok &= s[i].index() == if i < k { v[i] } else { i };
                i += 1;
            }
            vk_check(ok, 3);
        }
        Err(e) => {
            vk_cover(2);
            vk_check(!valid, 4);
            vk_check(error_is_true(&e, &v, n, true), 5);
        }
    }
}

// ---- arithmetic -------------------------------------------------------------------------------
// params: n.   (a*b)[i] = a[b[i]], for every way of multiplying
fn h_mul() {
    let n = param(0);
    let a = sym_perm_all(n);
    let b = sym_perm_all(n);
    let (ra, rb) = (row_of(&a), row_of(&b));
    let mut want = vec![0usize; n];
    let mut i = 0;
    while i < n { want[i] = a[b[i]]; i += 1; }
    let (xa, xb): (&Row, &Row) = (&ra, &rb);
    vk_check(row_is(&(&ra * &rb), &want), 1);
    vk_check(row_is(&(xa * xb), &want), 2);
    vk_check(row_is(&(&ra * xb), &want), 3);
    vk_check(row_is(&(xa * &rb), &want), 4);
    vk_check(match ra.mul_result(&rb) { Ok(r) => row_is(&r, &want), Err(_) => false }, 5);
    vk_check(row_is(unsafe { &ra.mul_unchecked(&rb) }, &want), 6);
    let mut out = RowBuf::rounds(Stage::new(n));
    vk_check(ra.mul_into_row(&rb, &mut out).is_ok() & row_is(&out, &want), 8);
    let p = &ra * &rb;
    // the operands are untouched, and the product is again a row
    vk_check(row_is(&ra, &a) & row_is(&rb, &b), 9);
    if n <= 6 { vk_check(is_perm(&want), 10); }
    observe_row(&p);
}
// params: n, stage of the old contents of the output buffer
fn h_mul_into() {
    let n = param(0);
    let a = sym_perm_all(n);
    let b = sym_perm_all(n);
    let (ra, rb) = (row_of(&a), row_of(&b));
    let mut want = vec![0usize; n];
    let mut i = 0;
    while i < n { want[i] = a[b[i]]; i += 1; }
    let mut out = RowBuf::backrounds(Stage::new(param(1)));
    vk_check(ra.mul_into(&rb, &mut out).is_ok() & row_is(&out, &want), 1);
    let mut out = RowBuf::backrounds(Stage::new(param(1)));
    unsafe { ra.mul_into_unchecked(&rb, &mut out) };
    vk_check(row_is(&out, &want), 2);
    let mut o2 = RowBuf::backrounds(Stage::new(param(1)));
    ra.copy_into(&mut o2);
    vk_check(row_is(&o2, &a), 3);
    o2.overwrite_from(&rb);
    vk_check(row_is(&o2, &b), 4);
    observe_row(&out);
}
// params: n, m (m != n) -- a stage mismatch is always reported, never computed
fn h_mul_stage() {
    let (n, m) = (param(0), param(1));
    let (a, b) = (sym_perm(n), sym_perm(m));
    let (ra, rb) = (row_of(&a), row_of(&b));
    let c = sym_perm(m);
    vk_check(ra.mul_result(&rb).is_err(), 1);
    let mut out = row_of(&c);
    vk_check(ra.mul_into(&rb, &mut out).is_err() & row_is(&out, &c), 2);
    vk_check(ra.mul_into_row(&rb, &mut out).is_err() & row_is(&out, &c), 3);
    vk_check(ra.mul_into_row(&ra, &mut out).is_err() & row_is(&out, &c), 4);
    vk_check(ra.inv_into(&mut out).is_err() & row_is(&out, &c), 5);
    vk_check(Row::solve_ax_equals_b(&ra, &rb).is_err(), 6);
    vk_check(Row::solve_xa_equals_b(&ra, &rb).is_err(), 7);
    let mut acc = RowAccumulator::new(row_of(&a));
    vk_check(acc.accumulate(&rb).is_err() & row_is(acc.total(), &a), 8);
    vk_check(acc.pre_accumulate(&rb).is_err() & row_is(acc.total(), &a), 9);
    vk_panic_ok(true);
    if param(2) == 0 {
        let _ = &ra * &rb;
    } else {
        acc *= &rb;
    }
    vk_check(false, 10); // the operator must panic
}
// params: n, m = stage of the old contents of the buffer given to inv_into_buf
fn h_inv() {
    let n = param(0);
    let a = sym_perm_all(n);
    let ra = row_of(&a);
    let (x, y) = (ra.inv(), !&ra);
    let z = !(&*ra);
    let mut ok = true;
    let mut i = 0;
    while i < n {
        // a[inv[i]] = i  and  inv[a[i]] = i
        ok &= a[x.slice()[i].index()] == i;
        ok &= x.slice()[a[i]].index() == i;
        i += 1;
    }
    vk_check(ok & (x.stage() == ra.stage()), 1);
    vk_check((x == y) & (x == z), 2);
    let mut buf = RowBuf::queens(Stage::new(param(1)));
    ra.inv_into_buf(&mut buf);
    vk_check(buf == x, 3);
    let mut out = RowBuf::backrounds(Stage::new(n));
    vk_check(ra.inv_into(&mut out).is_ok() & (out == x), 4);
    vk_check(row_is(&ra, &a), 5);
    observe_row(&x);
}
// params: n.   a * ax = b,  xa * a = b
fn h_solve() {
    let n = param(0);
    let (a, b) = (sym_perm(n), sym_perm(n));
    let (ra, rb) = (row_of(&a), row_of(&b));
    let x = Row::solve_ax_equals_b(&ra, &rb).unwrap();
    let y = Row::solve_xa_equals_b(&ra, &rb).unwrap();
    #[allow(deprecated)]
    let t = ra.tranposition_to(&rb).unwrap();
    #[allow(deprecated)]
    let u = unsafe { ra.tranposition_to_unchecked(&rb) };
    let (xs, ys) = (x.slice(), y.slice());
    let mut ok1 = xs.len() == n;
    let mut ok2 = ys.len() == n;
    let mut i = 0;
    while i < n {
        ok1 &= a[xs[i].index()] == b[i];
        ok2 &= ys[a[i]].index() == b[i];
        i += 1;
    }
    vk_check(ok1, 1);
    vk_check(ok2, 2);
    vk_check((t == y) & (u == y), 3);
    observe_row(&x);
    observe_row(&y);
}
// params: n, e  -- r^e and r^-e
fn h_pow() {
    let (n, e) = (param(0), param(1));
    let a = sym_perm(n);
    let ra = row_of(&a);
    let mut want: Vec<usize> = (0..n).collect();
    let mut k = 0;
    while k < e {
        let mut i = 0;
        while i < n { want[i] = a[want[i]]; i += 1; }
        k += 1;
    }
    let p = ra.pow_u(e);
    vk_check(row_is(&p, &want), 1);
    vk_check(row_is(&ra.pow_i(e as isize), &want), 2);
    let q = ra.pow_i(-(e as isize));
    // q is the inverse of p
    let mut ok = q.stage().num_bells() == n;
    let mut i = 0;
    while i < n { ok &= q.slice()[want[i]].index() == i; i += 1; }
    vk_check(ok, 3);
    observe_row(&q);
}
// params: n.  closure = [r, r^2, ..., r^k = rounds], closure_from_rounds = [r^0, .., r^(k-1)],
// where k is the order of r
fn h_closure() {
    let n = param(0);
    let a = sym_perm(n);
    let ra = row_of(&a);
    let c = ra.closure();
    let d = ra.closure_from_rounds();
    vk_check(c.len() == d.len(), 1);
    let mut cur: Vec<usize> = (0..n).collect();
    let mut k = 0;
    let mut ok = true;
    let mut okd = true;
    while k < c.len() {
        // no power before the last is rounds
        if k > 0 { let mut r = true; let mut i = 0; while i < n { r &= cur[i] == i; i += 1; } ok &= !r; }
        okd &= row_is(&d[k], &cur);
        let mut i = 0;
        while i < n { cur[i] = a[cur[i]]; i += 1; }
        ok &= row_is(&c[k], &cur);
        k += 1;
    }
    let mut i = 0;
    while i < n { ok &= cur[i] == i; i += 1; }
    vk_check(ok, 2);
    vk_check(okd, 3);
    vk_observe(c.len() as u64);
}
// params: how many bells are labelled arbitrarily, top exponent, step, cycle lengths (until 99): every exponent from
// 0 to the top in that step, positive and negative, of every row with these cycles through arbitrarily chosen bells
fn h_pow_cycles() {
    let c = cycle_param(3);
    let (lab, n) = labels(&c, param(0));
    let a = cycle_row(&c, &lab, 1);
    let ra = row_of(&a);
    let e = sym(16);
    vk_assume(e <= param(1));
    let e = vk_split(e as u64) as usize * param(2);
    vk_check(row_is(&ra.pow_u(e), &cycle_row(&c, &lab, e)), 1);
    vk_check(row_is(&ra.pow_i(e as isize), &cycle_row(&c, &lab, e)), 2);
    let order = lcm(&c);
    vk_check(row_is(&ra.pow_i(-(e as isize)), &cycle_row(&c, &lab, order - e % order)), 3);
    vk_check(row_is(&ra, &a) & (n == a.len()), 4);
}
// params: how many bells are labelled arbitrarily, cycle lengths (until 99)
fn h_closure_cycles() {
    let c = cycle_param(1);
    let (lab, _) = labels(&c, param(0));
    let ra = row_of(&cycle_row(&c, &lab, 1));
    let (x, y) = (ra.closure(), ra.closure_from_rounds());
    let order = lcm(&c);
    vk_check((x.len() == order) & (y.len() == order), 1);
    let mut ok = true;
    for k in 0..order {
        ok &= row_is(&x[k], &cycle_row(&c, &lab, k + 1));
        ok &= row_is(&y[k], &cycle_row(&c, &lab, k));
    }
    vk_check(ok, 2);
}
// ---- parity -----------------------------------------------------------------------------------
fn h_parity() {
    let n = param(0);
    let (a, b) = (sym_perm(n), sym_perm(n));
    let inv = |v: &[usize]| { let mut c = false; let mut i = 0; while i < n { let mut j = i + 1; while j < n { c ^= v[i] > v[j]; j += 1; } i += 1; } c };
    let pa = row_of(&a).parity();
    let pb = row_of(&b).parity();
    vk_check((pa == Parity::Odd) == inv(&a), 1);
    let pab = (&row_of(&a) * &row_of(&b)).parity();
    vk_check(pab == pa * pb, 2);
    vk_check(pa.zero_or_one() == inv(&a) as u8, 4);
    vk_check(pa.plus_or_minus() == if inv(&a) { '-' } else { '+' }, 5);
    vk_observe(pa as u64);
}
fn h_parity_one() {
    let n = param(0);
    let mut a = sym_perm(n);
    // one path per row on the large stages
    if !wholly(n) { let mut i = 0; while i < n { a[i] = vk_split(a[i] as u64) as usize; i += 1; } }
    let mut c = false; let mut i = 0; while i < n { let mut j = i + 1; while j < n { c ^= a[i] > a[j]; j += 1; } i += 1; }
    let pa = row_of(&a).parity();
    vk_check((pa == Parity::Odd) == c, 1);
    vk_observe(pa as u64);
}
// ---- predicates and accessors -----------------------------------------------------------------
fn h_predicates() {
    let n = param(0);
    let a = sym_perm_all(n);
    let ra = row_of(&a);
    let (mut r, mut b, mut es) = (true, true, 1usize);
    let mut i = 0;
    while i < n {
        r &= a[i] == i;
        b &= a[i] == n - 1 - i;
        es = vk_ite(a[i] != i, i as u64 + 1, es as u64) as usize;
        i += 1;
    }
    vk_check(ra.is_rounds() == r, 1);
    vk_check(ra.is_backrounds() == b, 2);
    vk_check(ra.effective_stage().num_bells() == es, 3);
    vk_check(ra.stage().num_bells() == n, 4);
    vk_check((ra == RowBuf::rounds(Stage::new(n))) == r, 5);
    vk_check((ra == RowBuf::backrounds(Stage::new(n))) == b, 6);
    vk_observe(es as u64);
    vk_observe(r as u64);
}
// params: n; a symbolic bell (any 64-bit index) and a symbolic place
fn h_place_of() {
    let n = param(0);
    let a = if n == 16 { sym_perm(n) } else { sym_perm_all(n) };
    let x = sym(64);
    let ra = row_of(&a);
    match ra.place_of(Bell::from_index(x)) {
        Some(p) => { vk_cover(1); vk_check(p < n, 1); vk_check(ra.slice()[p].index() == x, 2); vk_observe(p as u64); vk_check(ra[p].index() == x, 4); }
        None => { vk_cover(2); vk_check(x >= n, 3); vk_observe(99); }
    }
}
fn h_fixed_bells() {
    let n = param(0);
    let a = sym_perm(n);
    let ra = row_of(&a);
    let f: Vec<Bell> = ra.fixed_bells().collect();
    // exactly the bells at home, in order
    let mut k = 0;
    let mut i = 0;
    while i < n {
        if a[i] == i {
            vk_check(k < f.len() && f[k].index() == i, 1);
            k += 1;
        }
        i += 1;
    }
    vk_check(k == f.len(), 2);
    vk_observe(k as u64);
}
// params: n, m: extend_to_stage; iteration; conversions
fn h_extend() {
    let (n, m) = (param(0), param(1));
    let a = sym_perm(n);
    let mut r = row_of(&a);
    vk_panic_ok(m < n);
    r.extend_to_stage(Stage::new(m));
    vk_check(m >= n, 1);
    let s = r.slice();
    let mut ok = s.len() == m;
    let mut i = 0;
    while i < m { ok &= s[i].index() == if i < n { a[i] } else { i }; i += 1; }
    vk_check(ok, 2);
    observe_row(&r);
}
fn h_convert() {
    let n = param(0);
    let a = sym_perm(n);
    let r = row_of(&a);
    vk_check(row_is(&r.to_rc(), &a), 1);
    vk_check(row_is(&r.to_arc(), &a), 2);
    let o: RowBuf = (*r).to_owned();
    vk_check(row_is(&o, &a), 3);
    let it: Vec<usize> = r.bell_iter().map(|b| b.index()).collect();
    let mut ok = it.len() == n;
    let mut i = 0;
    while i < n { ok &= it[i] == a[i]; ok &= r[i].index() == a[i]; ok &= unsafe { r.get_bell_unchecked(i) }.index() == a[i]; i += 1; }
    vk_check(ok, 4);
    let v = r.into_bell_vec();
    let mut ok = v.len() == n;
    let mut i = 0;
    while i < n { ok &= v[i].index() == a[i]; i += 1; }
    vk_check(ok, 5);
}
// params: n, symbolic places (8 bits): swap keeps a row a row; out of range panics
fn h_swap() {
    let n = param(0);
    let a = sym_perm_all(n);
    let (x, y) = (sym(8), sym(8));
    let mut r = row_of(&a);
    vk_panic_ok((x >= n) | (y >= n));
    r.swap(x, y);
    vk_check((x < n) & (y < n), 1);
    let s = r.slice();
    let mut ok = s.len() == n;
    let mut i = 0;
    while i < n {
        let e = vk_ite(i == x, a[y] as u64, vk_ite(i == y, a[x] as u64, a[i] as u64)) as usize;
        ok &= s[i].index() == e;
        i += 1;
    }
    vk_check(ok, 2);
}
// params: n concrete; constructors
fn h_constructors() {
    let n = param(0);
    let s = Stage::new(n);
    let (r, b, q) = (RowBuf::rounds(s), RowBuf::backrounds(s), RowBuf::queens(s));
    let i = sym(8);
    vk_assume(i < n);
    vk_check((r.stage() == s) & (b.stage() == s) & (q.stage() == s), 1);
    vk_check(r[i].index() == i, 2);
    vk_check(b[i].index() == n - 1 - i, 3);
    let half = (n + 1) / 2;
    let want = vk_ite(i < half, 2 * i as u64, (i.wrapping_sub(half) as u64).wrapping_mul(2).wrapping_add(1)) as usize;
    vk_check(q[i].index() == want, 4);
    vk_check(r.is_rounds() & b.is_backrounds(), 5);
}
// ---- hashing / equality / ordering --------------------------------------------------------------
fn h_fast_hash() {
    let n = param(0);
    if n > 16 {
        // more than 16 bells do not fit into 64 bits: then only equal rows must agree
        let a = few(n);
        let (r, s) = (row_of(&a), row_of(&a));
        vk_check(r.fast_hash() == s.fast_hash(), 2);
        return;
    }
    let (a, b) = (few(n), few(n));
    let (ha, hb) = (row_of(&a).fast_hash(), row_of(&b).fast_hash());
    let mut eq = true;
    let mut i = 0;
    while i < n { eq &= a[i] == b[i]; i += 1; }
    vk_check((ha == hb) == eq, 1);
    vk_observe(ha as u64);
}
// params: n, m.  == is equality of bell sequences; Ord is lexicographic; Hash feeds equal bytes
fn h_eq_ord() {
    let (n, m) = (param(0), param(1));
    let (a, b) = (sym_perm(n), sym_perm(m));
    let (ra, rb) = (row_of(&a), row_of(&b));
    let mut eq = true; // of the common prefix
    let mut lt = false;
    let mut i = 0;
    while i < n && i < m { lt |= eq & (a[i] < b[i]); eq &= a[i] == b[i]; i += 1; }
    lt |= eq & (n < m);
    eq &= n == m;
    vk_check((ra == rb) == eq, 1);
    vk_check((*ra == *rb) == eq, 2);
    vk_check((ra == *rb) == eq, 3);
    vk_check((*ra == rb) == eq, 4);
    vk_check((ra < rb) == lt, 5);
    vk_check((*ra < *rb) == lt, 6);
    vk_check((ra.cmp(&rb) == std::cmp::Ordering::Equal) == eq, 7);
}
// Hash must agree with Eq, and RowBuf with Row (they are Borrow of one another)
fn h_hash() {
    use std::hash::{Hash, Hasher};
    struct Rec(Vec<u8>);
    impl Hasher for Rec {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
    }
    let (n, m) = (param(0), param(1));
    let (a, b) = (sym_perm(n), sym_perm(m));
    let (ra, rb) = (row_of(&a), row_of(&b));
    let mut h = [Rec(vec![]), Rec(vec![]), Rec(vec![])];
    ra.hash(&mut h[0]);
    (*ra).hash(&mut h[1]);
    rb.hash(&mut h[2]);
    let same = |x: &[u8], y: &[u8]| {
        if x.len() != y.len() { return false; }
        let mut ok = true; let mut i = 0; while i < x.len() { ok &= x[i] == y[i]; i += 1; } ok
    };
    vk_check(same(&h[0].0, &h[1].0), 1);
    vk_check((ra == rb) <= same(&h[0].0, &h[2].0), 2);
}
// ---- sets of rows -------------------------------------------------------------------------------
// params: n, sizes of three sets (0xff = absent)
fn h_cartesian() {
    let n = param(0);
    let k = param(1); // number of sets
    let mut sets: Vec<Vec<Vec<usize>>> = vec![];
    let mut i = 0;
    while i < k {
        let mut s = vec![];
        let mut j = 0;
        while j < param(2 + i as u64) { s.push(sym_perm(n)); j += 1; }
        sets.push(s);
        i += 1;
    }
    let rows: Vec<Vec<RowBuf>> = sets.iter().map(|s| s.iter().map(|r| row_of(r)).collect()).collect();
    let out = Row::multi_cartesian_product(rows.iter().map(|s| s.iter())).unwrap();
    // the result holds exactly the products x_1 * ... * x_k, as a multiset
    let mut want: Vec<Vec<usize>> = if k == 0 { vec![] } else { vec![(0..n).collect()] };
    for s in &sets {
        let mut nw = vec![];
        for x in &want { for y in s { nw.push((0..n).map(|i| x[y[i]]).collect()); } }
        want = nw;
    }
    vk_check(out.len() == want.len(), 1);
    for w in &want {
        let mut in_out = 0usize;
        let mut in_want = 0usize;
        for o in &out { in_out += row_is(o, w) as usize; }
        for o in &want { let mut e = true; for i in 0..n { e &= o[i] == w[i]; } in_want += e as usize; }
        vk_check(in_out == in_want, 2);
    }
    vk_observe(out.len() as u64);
}
// params: n, m: mixed stages are rejected wherever they appear
fn h_cartesian_stage() {
    let (n, m, pos) = (param(0), param(1), param(2));
    let mut rows: Vec<Vec<RowBuf>> = vec![];
    let mut i = 0;
    while i < 2 {
        let mut s = vec![];
        let mut j = 0;
        while j < 2 { s.push(row_of(&sym_perm(if i * 2 + j == pos { m } else { n }))); j += 1; }
        rows.push(s);
        i += 1;
    }
    let r = Row::multi_cartesian_product(rows.iter().map(|s| s.iter()));
    vk_check(r.is_err() == (n != m), 1);
    let f: Vec<&Row> = rows.iter().flatten().map(|r| &**r).collect();
    let g = Row::least_group_containing(f.iter().copied());
    vk_check(g.is_err() == (n != m), 2);
    let h = Row::is_group(f.iter().copied());
    vk_check(h.is_err() == (n != m), 3);
}
// params: how many rows (up to 4), their stages, then for the product of sets the size of the first set
fn h_group_stages() {
    let k = param(0);
    let mut rows = vec![];
    let mut same = true;
    let mut i = 0;
    while i < k { let n = param(1 + i as u64); same &= n == param(1); rows.push(row_of(&sym_perm(n))); i += 1; }
    vk_check(Row::is_group(rows.iter().map(|r| &**r)).is_err() == !same, 1);
    vk_check(Row::least_group_containing(rows.iter().map(|r| &**r)).is_err() == !same, 2);
    // (an empty set makes the product empty, and the rows after it don't matter)
    let a = param(1 + k as u64);
    let r = Row::multi_cartesian_product([&rows[..a], &rows[a..]].iter().map(|s| s.iter()));
    vk_check(r.is_err() == !same, 3);
    vk_observe(same as u64);
}
// params: n, k rows
fn h_is_group() {
    let (n, k) = (param(0), param(1));
    let mut v = vec![];
    let mut i = 0;
    while i < k { v.push(sym_perm(n)); i += 1; }
    let rows: Vec<RowBuf> = v.iter().map(|r| row_of(r)).collect();
    let got = Row::is_group(rows.iter().map(|r| &**r)).unwrap();
    // reference: non-empty and closed under multiplication (finite, hence a group)
    let mut closed = k > 0;
    for x in &v { for y in &v {
        let mut found = false;
        for z in &v {
            let mut e = true;
            let mut i = 0;
            while i < n { e &= x[y[i]] == z[i]; i += 1; }
            found |= e;
        }
        closed &= found;
    } }
    vk_cover_if(closed, 1);
    vk_check(got == closed, 1);
    vk_observe(got as u64);
}
fn h_least_group() {
    let (n, k) = (param(0), param(1));
    let mut v = vec![];
    let mut i = 0;
    while i < k { v.push(sym_perm(n)); i += 1; }
    let rows: Vec<RowBuf> = v.iter().map(|r| row_of(r)).collect();
    let g = Row::least_group_containing(rows.iter().map(|r| &**r)).unwrap();
    let g: Vec<RowBuf> = g.into_iter().collect();
    // contains every generator
    for x in &v { let mut f = false; for r in &g { f |= row_is(r, x); } vk_check(f, 1); }
    // closed under right multiplication by generators (so it contains every finite product, i.e.
    // the generated group) ...
    for r in &g { for x in &v {
        let mut f = false;
        for q in &g { let mut e = true; let mut i = 0; while i < n { e &= r.slice()[x[i]] == q.slice()[i]; i += 1; } f |= e; }
        vk_check(f, 2);
    } }
    // ... without repeats, and least: no more elements than the generated group has.  The group
    // is computed independently as the closure over all n! rows.
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n { let mut nx = vec![]; for p in &perms { for b in 0..n { if !p.contains(&b) { let mut q = p.clone(); q.push(b); nx.push(q); } } } perms = nx; }
    let mut member = vec![false; perms.len()];
    for (i, p) in perms.iter().enumerate() { member[i] = p.iter().enumerate().all(|(i, b)| i == *b) && k > 0; }
    // closure by at most |S_n| rounds; a chain of subgroups/cosets of S_3, S_4 saturates earlier
    for _ in 0..param(2) {
        let old = member.clone();
        for (i, p) in perms.iter().enumerate() {
            for x in &v {
                for (j, q) in perms.iter().enumerate() {
                    let mut e = true;
                    let mut t = 0;
                    while t < n { e &= vk_sel(p, x[t]) == q[t]; t += 1; }
                    member[j] |= old[i] & e;
                }
            }
        }
    }
    let mut size = 0usize;
    for m in &member { size += *m as usize; }
    vk_check(g.len() == size, 3);
    vk_observe(g.len() as u64);
}
// ---- RowAccumulator -----------------------------------------------------------------------------
// params: n, number of operations
fn h_accumulator() {
    let (n, k) = (param(0), param(1));
    let a = sym_perm(n);
    let mut model = a.clone();
    let mut acc = RowAccumulator::new(row_of(&a));
    let mut s = 0;
    while s < k {
        let op = sym(3);
        let b = sym_perm(n);
        let rb = row_of(&b);
        let bad = RowBuf::backrounds(Stage::new(if s % 2 == 0 { n + 1 } else if n > 1 { n - 1 } else { 2 * n + 1 }));
        match vk_concrete(op as u64) {
            // a refused operation changes nothing, now or later
            4 | 6 => vk_check(acc.accumulate(&bad).is_err(), 3),
            5 | 7 => vk_check(acc.pre_accumulate(&bad).is_err(), 4),
            0 => { acc.accumulate(&rb).unwrap(); model = (0..n).map(|i| model[b[i]]).collect(); }
            1 => { acc.pre_accumulate(&rb).unwrap(); model = (0..n).map(|i| b[model[i]]).collect(); }
            2 => { acc.set(&rb); model = b; }
            _ => { acc *= &rb; model = (0..n).map(|i| model[b[i]]).collect(); }
        }
        vk_check(row_is(acc.total(), &model), 1);
        s += 1;
    }
    if k < 5 && sym(1) == 1 {
        // set to a row of another stage, it is of that stage from then on
        let m = if sym(1) == 1 { n + 1 } else if n > 1 { n - 1 } else { n + 3 };
        let (b, c) = (fixed_perm(m, 1), fixed_perm(m, 2));
        acc.set(&row_of(&b));
        vk_check(row_is(acc.total(), &b), 5);
        vk_check(acc.accumulate(&RowBuf::rounds(Stage::new(n))).is_err(), 6);
        vk_check(row_is(acc.total(), &b), 7);
        vk_check(acc.pre_accumulate(&row_of(&c)).is_ok(), 8);
        model = (0..m).map(|i| c[b[i]]).collect();
    }
    let t = acc.into_total();
    vk_check(row_is(&t, &model), 2);
    observe_row(&t);
}
}
/// A row of stage n: rounds rotated by k, with its first and last bells exchanged
fn fixed_perm(n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
    v.swap(0, n - 1);
    v
}
/// p[i] for a concrete table and a symbolic index, without branching
fn vk_sel(p: &[usize], i: usize) -> usize {
    let mut r = 0u64;
    let mut k = 0;
    while k < p.len() {
        r = vk_ite(i == k, p[k] as u64, r);
        k += 1;
    }
    r as usize
}
#[allow(dead_code)]
fn _unused() { let _ = Stage::try_from(1usize); }
