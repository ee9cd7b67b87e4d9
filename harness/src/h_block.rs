//! Blocks of rows with annotations.
use crate::h_ssv::*;
use crate::util::*;

/// A block whose rows are the model's and whose annotations are `base`, `base + 1`, ...
pub fn block_of(m: &Model, n: usize, base: usize) -> AnnotBlock<usize> {
    AnnotBlock::with_annots_from_indices(ssv_of(m, n), |i| base + i).unwrap()
}
/// Rows (the last being left over) and annotations are exactly these, through every accessor
pub fn block_is(b: &AnnotBlock<usize>, m: &Model, annots: &[usize], n: usize) -> bool {
    let k = annots.len();
    if m.len() != k + 1 || b.len() != k || b.is_empty() != (k == 0) || b.stage().num_bells() != n { return false; }
    let mut ok = ssv_is(b.row_vec(), m, n);
    ok &= b.annots().len() == k && b.rows().len() == k && b.all_rows().len() == k + 1;
    if !(b.annots().len() == k && b.rows().len() == k) { return false; }
    let mut i = 0;
    for ar in b.annot_rows() {
        if i >= k { return false; }
        ok &= row_is(ar.row(), &m[i]) & (*ar.annot() == annots[i]);
        ok &= match (b.get_row(i), b.get_annot(i)) { (Some(r), Some(a)) => row_is(r, &m[i]) & (*a == annots[i]), _ => false };
        ok &= match b.get_annot_row(i) { Some(x) => row_is(x.row(), &m[i]) & (*x.annot() == annots[i]), _ => false };
        i += 1;
    }
    ok &= i == k;
    ok &= row_is(b.first_row(), &m[0]) & row_is(b.leftover_row(), &m[k]);
    ok &= b.first_annot_row().is_some() == (k > 0);
    ok &= match b.get_row(k) { Some(r) => row_is(r, &m[k]), None => false };
    ok & b.get_annot(k).is_none() & b.get_annot_row(k).is_none() & b.get_row(k + 1).is_none()
}
fn inverse(v: &[usize]) -> Vec<usize> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut r = 0u64;
        let mut j = 0;
        while j < v.len() { r = vk_ite(v[j] == i, j as u64, r); j += 1; }
        out.push(r as usize);
        i += 1;
    }
    out
}
/// rows `m` transposed to start from `to`
fn from_row(to: &[usize], m: &[Vec<usize>]) -> Model {
    premul(&compose(to, &inverse(&m[0])), m)
}

crate::harness! {
// params: stage, rows including the left-over one
fn h_block_read() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let an: Vec<usize> = (0..k - 1).map(|i| 7 + i).collect();
    let b = block_of(&m, n, 7);
    vk_check(block_is(&b, &m, &an, n), 1);
    let mut d: AnnotBlock<usize> = AnnotBlock::with_default_annots(ssv_of(&m, n));
    vk_check(block_is(&d, &m, &vec![0; k - 1], n), 2);
    let mut i = 0;
    while i + 1 < k { *d.get_annot_mut(i).unwrap() = 7 + i; i += 1; }
    vk_check(d.get_annot_mut(k - 1).is_none(), 10);
    vk_check(d == b, 3);
    let e: AnnotBlock<usize> = AnnotBlock::empty(Stage::new(n));
    vk_check(block_is(&e, &vec![(0..n).collect()], &[], n), 4);
    vk_check(AnnotBlock::with_annots_from_indices(SameStageVec::new(Stage::new(n)), |i| i).is_none(), 5);
    let c = b.clone_map_annots_with_index(|i, a| i * 100 + *a);
    vk_check(block_is(&c, &m, &(0..k - 1).map(|i| i * 101 + 7).collect::<Vec<_>>(), n), 6);
    let c = b.clone().map_annots_with_index(|i, a| i * 100 + a);
    vk_check(block_is(&c, &m, &(0..k - 1).map(|i| i * 101 + 7).collect::<Vec<_>>(), n), 7);
    let c = b.clone().map_annots(|a| a * 2);
    vk_check(block_is(&c, &m, &(0..k - 1).map(|i| 14 + 2 * i).collect::<Vec<_>>(), n), 8);
    // the largest effective stage of any row (left-over one included)
    let mut es = 1;
    for r in &m { es = es.max(row_of(r).effective_stage().num_bells()); }
    vk_check(b.effective_stage().num_bells() == es, 9);
    observe_row(b.leftover_row());
    vk_check(ssv_is(&b.into_row_vec(), &m, n), 11);
}
// params: stage, rows
fn h_block_path() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let b = block_of(&m, n, 0);
    let x = sym(8);
    let bell = Bell::from_index(x);
    match (b.path_of(bell), b.full_path_of(bell)) {
        (Some((p, l)), Some(f)) => {
            vk_cover(1);
            vk_check(x < n && p.len() == k - 1 && f.len() == k, 1);
            let mut i = 0;
            while i < k {
                let at = if i + 1 < k { p[i] } else { l };
                vk_check((at < n) & (f[i] == at) & (sel(&m[i], at) == x), 2);
                vk_observe(at as u64);
                i += 1;
            }
        }
        (None, None) => { vk_cover(2); vk_check(x >= n, 3); vk_observe(99); }
        _ => vk_check(false, 4),
    }
}
// params: stage, rows of one, rows of other (both including left-over)
fn h_block_extend() {
    let (n, k, x) = (param(0), param(1), param(2));
    let (m, o) = (sym_rows_few(n, k), sym_rows_few(n, x));
    let mut b = block_of(&m, n, 100);
    let other = block_of(&o, n, 200);
    vk_check(b.extend(&other).is_ok(), 1);
    let mut want = m[..k - 1].to_vec();
    want.extend(from_row(&m[k - 1], &o));
    let mut an: Vec<usize> = (0..k - 1).map(|i| 100 + i).collect();
    an.extend((0..x - 1).map(|i| 200 + i));
    vk_check(block_is(&b, &want, &an, n), 2);
    observe_row(b.leftover_row());
}
// params: stage, rows of one, rows of other, kind of range
fn h_block_extend_range() {
    let (n, k, x, kind) = (param(0), param(1), param(2), param(3));
    let (m, o) = (sym_rows_few(n, k), sym_rows_few(n, x));
    let len = x - 1;
    let (lo, hi, range) = sym_range(kind, len);
    let mut b = block_of(&m, n, 100);
    let other = block_of(&o, n, 200);
    let r = match kind {
        0 => b.extend_range(&other, ..),
        1 => b.extend_range(&other, lo..),
        2 => b.extend_range(&other, ..hi),
        3 => b.extend_range(&other, lo..hi),
        4 => b.extend_range(&other, ..=hi - 1),
        5 => b.extend_range(&other, lo..=hi - 1),
        _ => b.extend_range(&other, range),
    };
    vk_check(r.is_ok(), 1);
    let mut want = m[..k - 1].to_vec();
    want.extend(from_row(&m[k - 1], &o[lo..hi + 1]));
    let mut an: Vec<usize> = (0..k - 1).map(|i| 100 + i).collect();
    an.extend((lo..hi).map(|i| 200 + i));
    vk_check(block_is(&b, &want, &an, n), 2);
    vk_observe(b.len() as u64);
    // and within one block
    let mut b = block_of(&o, n, 100);
    match kind {
        0 => b.extend_from_within(..),
        1 => b.extend_from_within(lo..),
        2 => b.extend_from_within(..hi),
        3 => b.extend_from_within(lo..hi),
        4 => b.extend_from_within(..=hi - 1),
        5 => b.extend_from_within(lo..=hi - 1),
        _ => b.extend_from_within(range),
    }
    let mut want = o[..x - 1].to_vec();
    want.extend(from_row(&o[x - 1], &o[lo..hi + 1]));
    let mut an: Vec<usize> = (0..x - 1).map(|i| 100 + i).collect();
    an.extend((lo..hi).map(|i| 100 + i));
    vk_check(block_is(&b, &want, &an, n), 3);
}
// params: stage, rows
fn h_block_split() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows_few(n, k);
    let i = if k > 40 { sym_upto(k + 1) } else { vk_sym(64) as usize };
    let an: Vec<usize> = (0..k - 1).map(|i| 5 + i).collect();
    let within = i < k;
    let i = if n > 12 && within { vk_split(i as u64) as usize } else { i };
    let b = block_of(&m, n, 5);
    match b.split(i) {
        Some((p, q)) => {
            vk_cover(1);
            vk_check(within, 1);
            let i = vk_concrete(i as u64) as usize;
            vk_check(block_is(&p, &m[..i + 1].to_vec(), &an[..i], n), 2);
            vk_check(block_is(&q, &m[i..].to_vec(), &an[i..], n), 3);
            vk_observe(p.len() as u64);
            // putting them together again
            let mut p = p;
            vk_check(p.extend(&q).is_ok(), 4);
            vk_check(block_is(&p, &m, &an, n), 5);
        }
        None => { vk_cover(2); vk_check(!within, 6); vk_observe(99); }
    }
}
// params: stage, rows
fn h_block_premul() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows_few(n, k);
    let t = sym_perm_few(n, k);
    let an: Vec<usize> = (0..k - 1).collect();
    let mut b = block_of(&m, n, 0);
    vk_check(b.pre_multiply(&row_of(&t)).is_ok(), 1);
    vk_check(block_is(&b, &premul(&t, &m), &an, n), 2);
    observe_row(b.leftover_row());
}
// params: stage, other stage
fn h_block_stage() {
    let (n, x) = (param(0), param(1));
    let (m, o) = (sym_rows(n, 3), sym_rows(x, 3));
    let an = [0, 1];
    let mut b = block_of(&m, n, 0);
    let other = block_of(&o, x, 0);
    vk_check(b.extend(&other).is_err() & block_is(&b, &m, &an, n), 1);
    vk_check(b.extend_range(&other, 1..).is_err() & block_is(&b, &m, &an, n), 2);
    // nothing to add makes no difference
    vk_check(b.extend_range(&other, 1..1).is_err() & block_is(&b, &m, &an, n), 5);
    vk_check(b.extend_range(&other, 2..).is_err() & block_is(&b, &m, &an, n), 6);
    vk_check(b.extend(&AnnotBlock::empty(Stage::new(x))).is_err() & block_is(&b, &m, &an, n), 7);
    vk_check(b.extend(&block_of(&o[..1].to_vec(), x, 0)).is_err() & block_is(&b, &m, &an, n), 8);
    let mut e: AnnotBlock<usize> = AnnotBlock::empty(Stage::new(n));
    vk_check(e.extend(&other).is_err() & e.extend(&AnnotBlock::empty(Stage::new(x))).is_err() & e.pre_multiply(&row_of(&o[0])).is_err(), 9);
    vk_check(block_is(&e, &vec![(0..n).collect()], &[], n) & e.repeat_iter(row_of(&o[0])).is_err(), 10);
    vk_check(b.pre_multiply(&row_of(&o[0])).is_err() & block_is(&b, &m, &an, n), 3);
    vk_check(b.repeat_iter(row_of(&o[0])).is_err(), 4);
    vk_observe(b.len() as u64);
}
// params: stage, rows, steps.  Repeating any block from any row
fn h_block_repeat() {
    let (n, k, steps) = (param(0), param(1), param(2));
    let m = sym_rows_few(n, k);
    let start = sym_perm_few(n, k);
    let b = block_of(&m, n, 50);
    let mut it = match b.repeat_iter(row_of(&start)) { Ok(i) => i, Err(_) => { vk_check(false, 1); return; } };
    let mut it2 = it.clone();
    let first = start.clone();
    let mut head = start;
    let mut out = RowBuf::rounds(Stage::new(if n > 1 { n - 1 } else { 2 }));
    let mut s = 0;
    if k == 1 { vk_check(it.next().is_none() && it.next().is_none() && it2.next_into(&mut out).is_none(), 2); return; }
    while s < steps {
        let i = s % (k - 1);
        let want = compose(&head, &m[i]);
        // a copy goes on from where the original is
        if s == steps / 2 { it2 = it.clone(); }
        match it.next() {
            Some((r, j, a)) => { vk_check(row_is(&r, &want) & (j == i) & (*a == 50 + i), 3); }
            None => vk_check(false, 4),
        }
        match it2.next_into(&mut out) {
            Some((j, a)) => { vk_check(row_is(&out, &want) & (j == i) & (*a == 50 + i), 5); }
            None => vk_check(false, 6),
        }
        if i + 2 == k { head = compose(&head, &m[k - 1]); }
        s += 1;
    }
    observe_row(&out);
    // skipping ahead
    if param(3) > 0 {
        let skip = param(3) + param(4); // the first few are not skipped
        let mut it = b.repeat_iter(row_of(&first)).unwrap();
        let mut head = first.clone();
        let mut s = 0;
        while s < skip {
            if s < param(4) { vk_check(match it.next() { Some((r, j, _)) => row_is(&r, &compose(&head, &m[s % (k - 1)])) & (j == s % (k - 1)), None => false }, 11); }
            s += 1;
            if s % (k - 1) == 0 { head = compose(&head, &m[k - 1]); }
        }
        let (lo, hi) = it.size_hint();
        vk_check(lo <= usize::MAX && hi.map_or(true, |h| h == usize::MAX), 7);
        vk_check(match it.nth(param(3)) { Some((r, j, a)) => row_is(&r, &compose(&head, &m[skip % (k - 1)])) & (j == skip % (k - 1)) & (*a == 50 + j), None => false }, 8);
        if (skip + 1) % (k - 1) == 0 { head = compose(&head, &m[k - 1]); }
        let i = (skip + 1) % (k - 1);
        vk_check(match it.next() { Some((r, j, a)) => row_is(&r, &compose(&head, &m[i])) & (j == i) & (*a == 50 + i), None => false }, 9);
        let i = (skip + 2) % (k - 1);
        if i == 0 { head = compose(&head, &m[k - 1]); }
        vk_check(match it.next_into(&mut out) { Some((j, a)) => row_is(&out, &compose(&head, &m[i])) & (j == i) & (*a == 50 + i), None => false }, 10);
    }
}
// params: stage, operations.  Any sequence of operations keeps the block equal to the model
fn h_block_ops() {
    let (n, k) = (param(0), param(1));
    let mut m = sym_rows(n, 3);
    let mut an = vec![0, 1];
    let mut b = block_of(&m, n, 0);
    let mut i = 0;
    while i < k {
        let op = sym(3);
        vk_assume(op < 6);
        let arg = sym_rows(n, 2);
        match vk_split(op as u64) {
            0 => {
                vk_check(b.extend(&block_of(&arg, n, 10 * i)).is_ok(), 1);
                let l = m.pop().unwrap();
                m.extend(from_row(&l, &arg));
                an.push(10 * i);
            }
            1 => { vk_check(b.pre_multiply(&row_of(&arg[0])).is_ok(), 2); m = premul(&arg[0], &m); }
            2 => {
                let lo = an.len() / 2;
                b.extend_from_within(lo..);
                let l = m.pop().unwrap();
                let x = m[lo..].iter().cloned().chain(std::iter::once(l.clone())).collect::<Vec<_>>();
                m.extend(from_row(&l, &x));
                let t = an[lo..].to_vec();
                an.extend(t);
            }
            3 => {
                let at = (an.len() + 1) / 2;
                let (x, y) = b.split(at).unwrap();
                b = if i % 2 == 0 { x } else { y };
                if i % 2 == 0 { m.truncate(at + 1); an.truncate(at); } else { m.drain(..at); an.drain(..at); }
            }
            4 => {
                let c = b.clone();
                let hi = an.len() / 2;
                vk_check(b.extend_range(&c, ..hi).is_ok(), 3);
                let l = m.pop().unwrap();
                let x = if hi == m.len() { let mut y = m.clone(); y.push(l.clone()); y } else { m[..hi + 1].to_vec() };
                m.extend(from_row(&l, &x));
                let t = an[..hi].to_vec();
                an.extend(t);
            }
            _ => { b = b.map_annots_with_index(|i, a| i + 3 * a); for j in 0..an.len() { an[j] = j + 3 * an[j]; } }
        }
        i += 1;
    }
    vk_check(block_is(&b, &m, &an, n), 4);
    vk_observe(b.len() as u64);
}
}
