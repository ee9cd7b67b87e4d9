//! SameStageVec against a plain vector of rows.
use crate::util::*;
use std::ops::Bound;

pub type Model = Vec<Vec<usize>>;
/// `k` arbitrary rows of stage `n`; in lists of more than 40, only those at either end and in the middle are arbitrary
pub fn sym_rows(n: usize, k: usize) -> Model {
    let mut m = vec![];
    let mut i = 0;
    while i < k {
        let vary = k <= 40 || i < 2 || i + 2 >= k || i == k / 2 || i == 33;
        m.push(if vary { sym_perm(n) } else { fixed_row(n, i) });
        i += 1;
    }
    m
}
/// As sym_rows, but in lists of more than 40 the arbitrary rows are each one of four
pub fn sym_rows_few(n: usize, k: usize) -> Model {
    if k <= 40 { return sym_rows(n, k); }
    let mut m = vec![];
    let mut i = 0;
    while i < k {
        let vary = i < 2 || i + 2 >= k || i == k / 2 || i == 33;
        m.push(if vary { four_rows(fixed_row(n, i)) } else { fixed_row(n, i) });
        i += 1;
    }
    m
}
/// An arbitrary row, or one of four for use with lists of more than 40
pub fn sym_perm_few(n: usize, k: usize) -> Vec<usize> {
    if k <= 40 { sym_perm(n) } else { four_rows(fixed_row(n, 3)) }
}
/// The row, or the row with its first two, last two or both pairs of bells exchanged
fn four_rows(mut v: Vec<usize>) -> Vec<usize> {
    let n = v.len();
    for (i, j) in [(0, 1), (n - 2, n - 1)] {
        let b = sym(1) == 1;
        let (x, y) = (v[i], v[j]);
        v[i] = vk_ite(b, y as u64, x as u64) as usize;
        v[j] = vk_ite(b, x as u64, y as u64) as usize;
    }
    v
}
/// A fixed row which differs from those with nearby numbers: a rotation, every other time backwards
fn fixed_row(n: usize, i: usize) -> Vec<usize> {
    (0..n).map(|j| { let b = (j + i + i / n) % n; if i % 2 == 0 { b } else { n - 1 - b } }).collect()
}
pub fn ssv_of(m: &Model, n: usize) -> SameStageVec {
    let mut bells = vec![];
    for r in m { for b in r { bells.push(Bell::from_index(*b)); } }
    unsafe { SameStageVec::from_bell_vec_unchecked(bells, Stage::new(n)) }
}
/// The rows, read one by one, are exactly those of the model
pub fn ssv_is(v: &SameStageVec, m: &Model, n: usize) -> bool {
    if v.len() != m.len() || v.stage().num_bells() != n || v.is_empty() != m.is_empty() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < m.len() {
        ok &= match v.get(i) { Some(r) => row_is(r, &m[i]), None => false };
        i += 1;
    }
    ok & v.get(m.len()).is_none()
}
/// lhs * row
pub fn compose(a: &[usize], b: &[usize]) -> Vec<usize> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() { out.push(sel(a, b[i])); i += 1; }
    out
}
pub fn premul(a: &[usize], m: &[Vec<usize>]) -> Model {
    let mut out = vec![];
    for r in m { out.push(compose(a, r)); }
    out
}
pub fn sym_upto(n: usize) -> usize {
    if n > 40 {
        // either end, around the middle and around the powers of two below
        let t = if n > 256 { 256 } else if n > 128 { 128 } else if n > 64 { 64 } else { 32 };
        let at = [0, 1, n / 2, t - 1, t, t + 1, n - 1, n];
        return at[vk_split(sym(3) as u64) as usize];
    }
    let x = sym(width(n + 1));
    vk_assume(x <= n);
    vk_concrete(x as u64) as usize
}

fn check_parsed_rows(s: &[u8]) {
    let text = as_str(s);
    // the lines, parsed on their own
    let mut lines: Vec<&[u8]> = s.split(|c| *c == b'\n').collect();
    if lines.len() > 1 && lines[lines.len() - 1].is_empty() { lines.pop(); }
    let mut bad = 0;          // first line that is not a row
    let mut diff = 0;         // first line of another stage than the first
    let mut rows: Vec<RowBuf> = vec![];
    let mut j = 0;
    while j < lines.len() {
        let l = lines[j];
        let l = if !l.is_empty() && l[l.len() - 1] == b'\r' { &l[..l.len() - 1] } else { l };
        match RowBuf::parse(as_str(l)) {
            Ok(r) => { if diff == 0 && !rows.is_empty() && rows[0].stage() != r.stage() { diff = j + 1; } rows.push(r); }
            Err(_) => { if bad == 0 { bad = j + 1; } }
        }
        j += 1;
    }
    match SameStageVec::parse(text) {
        Ok(v) => {
            vk_cover(1);
            vk_check(bad == 0 && diff == 0, 1);
            vk_check(v.len() == rows.len(), 2);
            let mut i = 0;
            while i < rows.len() { vk_check(v.get(i).map_or(false, |r| r == rows[i].as_row()), 3); i += 1; }
            vk_observe(i as u64);
        }
        Err(e) => {
            vk_cover(2);
            vk_check(bad > 0 || diff > 0, 4);
            match e {
                bellframe::row::same_stage_vec::ParseError::InvalidRow { line_num, .. } => { vk_check(line_num == bad, 5); }
                bellframe::row::same_stage_vec::ParseError::IncompatibleStages { line_num, first_stage, different_stage } => {
                    vk_cover(3);
                    vk_check(line_num == diff && first_stage == rows[0].stage() && different_stage != first_stage, 6);
                }
                _ => {}
            }
            vk_observe(99);
        }
    }
    // blocks read the same text: the last row is left over
    match Block::parse(text) {
        Ok(b) => { vk_check(bad == 0 && diff == 0 && b.len() + 1 == rows.len(), 7); }
        Err(_) => vk_check(bad > 0 || diff > 0, 8),
    }
}
/// A range of each kind: 0 .., 1 a.., 2 ..b, 3 a..b, 4 ..=b, 5 a..=b, and after an excluded start 6 .., 7 ..b, 8 ..=b
pub fn sym_range(kind: usize, len: usize) -> (usize, usize, (Bound<usize>, Bound<usize>)) {
    let lo = if matches!(kind, 1 | 3 | 5 | 6 | 7 | 8) { sym_upto(len) } else { 0 };
    let hi = if matches!(kind, 2 | 3 | 7) { sym_upto(len) } else if matches!(kind, 4 | 5 | 8) { let h = sym_upto(len); vk_assume(h < len); h + 1 } else { len };
    vk_assume(lo <= hi);
    if kind > 5 { vk_assume(lo > 0); }
    let s = match kind { 1 | 3 | 5 => Bound::Included(lo), 6 | 7 | 8 => Bound::Excluded(lo - 1), _ => Bound::Unbounded };
    let e = match kind { 2 | 3 | 7 => Bound::Excluded(hi), 4 | 5 | 8 => Bound::Included(hi - 1), _ => Bound::Unbounded };
    (lo, hi, (s, e))
}
crate::harness! {
// params: stage, rows
fn h_ssv_read() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let stage = Stage::new(n);
    let mut v = if k % 2 == 0 { SameStageVec::new(stage) } else { SameStageVec::with_capacity(stage, k) };
    vk_check(v.is_empty() && v.len() == 0 && v.first().is_none() && v.last().is_none() && v.get(0).is_none(), 1);
    vk_check(v.first_mut().is_none() && v.last_mut().is_none() && v.pop().is_none(), 20);
    let mut i = 0;
    while i < k { vk_check(v.push(&row_of(&m[i])).is_ok(), 2); i += 1; }
    vk_check(ssv_is(&v, &m, n), 3);
    vk_check(v == ssv_of(&m, n), 4);
    let mut i = 0;
    for r in &v { vk_check(i < k && row_is(r, &m[i]), 5); i += 1; }
    vk_check(i == k, 6);
    let mut it = v.iter();
    let mut i = k;
    while i > 0 { i -= 1; vk_check(it.len() == i + 1, 7); vk_check(match it.next_back() { Some(r) => row_is(r, &m[i]), None => false }, 8); }
    vk_check(it.next_back().is_none() && it.next().is_none() && it.len() == 0, 9);
    // jumping ahead from either end, also past the other end
    let mut j = 0;
    while j <= k + 2 {
        let left = if j < k { k - j - 1 } else { 0 };
        let mut it = v.iter();
        vk_check(match it.nth(j) { Some(r) => j < k && row_is(r, &m[j]), None => j >= k }, 21);
        vk_check(it.len() == left && it.size_hint() == (left, Some(left)), 22);
        vk_check(match it.next() { Some(r) => left > 0 && row_is(r, &m[j + 1]), None => left == 0 }, 23);
        let mut it = v.iter();
        vk_check(match it.nth_back(j) { Some(r) => j < k && row_is(r, &m[k - 1 - j]), None => j >= k }, 24);
        vk_check(it.len() == left, 25);
        vk_check(match it.next_back() { Some(r) => left > 0 && row_is(r, &m[k - 2 - j]), None => left == 0 }, 26);
        vk_check(v.iter().take(j).len() == j.min(k), 27);
        vk_check(v.iter().skip(j).count() == k - j.min(k), 28);
        vk_check(v.iter().step_by(j + 1).count() == (k + j) / (j + 1), 29);
        vk_check(match v.iter().skip(j).last() { Some(r) => j < k && row_is(r, &m[k - 1]), None => j >= k }, 30);
        j += 1;
    }
    let rs: Vec<&Row> = v.iter().collect();
    vk_check(rs.len() == k && (k == 0 || row_is(rs[k - 1], &m[k - 1])), 31);
    vk_check(v.iter().enumerate().fold(true, |a, (i, r)| a & row_is(r, &m[i])), 32);
    vk_check(v.iter().rev().enumerate().fold(true, |a, (i, r)| a & row_is(r, &m[k - 1 - i])), 33);
    if k >= 2 {
        let mut it = v.iter();
        vk_check(match (it.next(), it.next_back()) { (Some(a), Some(b)) => row_is(a, &m[0]) & row_is(b, &m[k - 1]), _ => false }, 10);
        vk_check(it.len() == k - 2, 11);
        vk_check(v.iter().rev().count() == k && v.iter().nth(1).map_or(false, |r| row_is(r, &m[1])), 12);
    }
    if k > 0 {
        vk_check(row_is(v.first().unwrap(), &m[0]) & row_is(v.last().unwrap(), &m[k - 1]), 13);
        vk_check(row_is(&v[k - 1], &m[k - 1]), 14);
        observe_row(v.last().unwrap());
        // writing through get_mut changes that row only
        let j = sym_upto(k - 1);
        let (p, q) = (sym_upto(n - 1), sym_upto(n - 1));
        let mut w = v.clone();
        w.get_mut(j).unwrap().swap(p, q);
        let mut mm = m.clone();
        mm[j].swap(p, q);
        vk_check(ssv_is(&w, &mm, n), 15);
        w.first_mut().unwrap().swap(p, q);
        mm[0].swap(p, q);
        w.last_mut().unwrap().swap(p, q);
        mm[k - 1].swap(p, q);
        vk_check(ssv_is(&w, &mm, n), 16);
    }
}
// params: stage, rows; an arbitrary index of 64 bits
fn h_ssv_get() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let mut v = ssv_of(&m, n);
    let i = vk_sym(64) as usize;
    let inside = i < k;
    vk_check(v.get(i).is_some() == inside, 1);
    vk_check(v.get_mut(i).is_some() == inside, 2);
    vk_cover_if(inside, 1);
    vk_cover_if(!inside, 2);
    let within = i <= k;
    vk_check(v.split(i).is_some() == within, 3);
    vk_observe(inside as u64);
}
// params: stage, rows
fn h_ssv_path() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let v = ssv_of(&m, n);
    let b = sym(8);
    match v.path_of(Bell::from_index(b)) {
        None => { vk_cover(1); vk_check(b >= n, 1); vk_observe(99); }
        Some(p) => {
            vk_cover(2);
            vk_check(b < n, 2);
            vk_check(p.len() == k, 3);
            let mut i = 0;
            while i < k { vk_check((p[i] < n) & (sel(&m[i], p[i]) == b), 4); vk_observe(p[i] as u64); i += 1; }
        }
    }
}
// params: stage, rows, added rows
fn h_ssv_extend() {
    let (n, k, x) = (param(0), param(1), param(2));
    let (m, a) = (sym_rows(n, k), sym_rows(n, x));
    let mut want = m.clone();
    want.extend(a.iter().cloned());
    let other = ssv_of(&a, n);
    let mut v = ssv_of(&m, n);
    vk_check(v.extend(a.iter().map(|r| row_of(r))).is_ok(), 1);
    vk_check(ssv_is(&v, &want, n), 2);
    let mut v = ssv_of(&m, n);
    vk_check(v.extend_from_buf(&other).is_ok(), 3);
    vk_check(ssv_is(&v, &want, n), 4);
    vk_check(ssv_is(&other, &a, n), 5);
    // rows of another stage at the end of the list: nothing is added
    let stranger = RowBuf::backrounds(Stage::new(n + 1));
    let mut w = ssv_of(&m, n);
    vk_check(w.extend(a.iter().map(|r| row_of(r)).chain(std::iter::once(stranger))).is_err(), 11);
    vk_check(ssv_is(&w, &m, n), 12);
    // taking them off again gives them back, last first
    let mut i = x;
    while i > 0 { i -= 1; vk_check(match v.pop() { Some(r) => row_is(&r, &a[i]), None => false }, 6); }
    vk_check(ssv_is(&v, &m, n), 7);
    if k > 0 { vk_check(match v.pop() { Some(r) => row_is(&r, &m[k - 1]), None => false }, 8); vk_check(v.len() == k - 1, 9); }
    if x > 0 { observe_row(other.get(0).unwrap()); let s = SameStageVec::from_row_buf(row_of(&a[0])); vk_check(ssv_is(&s, &vec![a[0].clone()], n), 10); }
}
// params: stage, rows, other rows, kind of range (see sym_range)
fn h_ssv_transposed() {
    let (n, k, x, kind) = (param(0), param(1), param(2), param(3));
    let (m, a) = (sym_rows_few(n, k), sym_rows_few(n, x));
    let t = sym_perm_few(n, k.max(x));
    let (lo, hi, range) = sym_range(kind, x);
    let mut want = m.clone();
    want.extend(premul(&t, &a[lo..hi]));
    let mut v = ssv_of(&m, n);
    let other = ssv_of(&a, n);
    let tr = row_of(&t);
    let r = match kind {
        0 => v.extend_range_transposed(&tr, &other, ..),
        1 => v.extend_range_transposed(&tr, &other, lo..),
        2 => v.extend_range_transposed(&tr, &other, ..hi),
        3 => v.extend_range_transposed(&tr, &other, lo..hi),
        4 => v.extend_range_transposed(&tr, &other, ..=hi - 1),
        5 => v.extend_range_transposed(&tr, &other, lo..=hi - 1),
        _ => v.extend_range_transposed(&tr, &other, range),
    };
    vk_check(r.is_ok(), 1);
    vk_check(ssv_is(&v, &want, n), 2);
    // the same within one vector
    let mut v = ssv_of(&a, n);
    let mut want = a.clone();
    want.extend(premul(&t, &a[lo..hi]));
    let r = match kind {
        0 => v.extend_transposed_from_within(.., &tr),
        1 => v.extend_transposed_from_within(lo.., &tr),
        2 => v.extend_transposed_from_within(..hi, &tr),
        3 => v.extend_transposed_from_within(lo..hi, &tr),
        4 => v.extend_transposed_from_within(..=hi - 1, &tr),
        5 => v.extend_transposed_from_within(lo..=hi - 1, &tr),
        _ => v.extend_transposed_from_within(range, &tr),
    };
    vk_check(r.is_ok(), 3);
    vk_check(ssv_is(&v, &want, n), 4);
    if kind < 6 {
        // the same as a pair of bounds
        let mut v = ssv_of(&a, n);
        vk_check(v.extend_transposed_from_within(range, &tr).is_ok(), 10);
        vk_check(ssv_is(&v, &want, n), 11);
    }
    if kind == 0 {
        let mut v = ssv_of(&m, n);
        vk_check(v.extend_transposed(&tr, &other).is_ok(), 5);
        let mut want = m.clone();
        want.extend(premul(&t, &a));
        vk_check(ssv_is(&v, &want, n), 6);
        let all = premul(&t, &a);
        vk_check(match other.pre_multiplied(&tr) { Ok(p) => ssv_is(&p, &all, n), Err(_) => false }, 7);
        let mut v = ssv_of(&a, n);
        vk_check(v.pre_multiply(&tr).is_ok(), 8);
        vk_check(ssv_is(&v, &all, n), 9);
    }
    observe_row(&tr);
}
// params: stage, rows
fn h_ssv_split() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let i = sym_upto(k + 1);
    match ssv_of(&m, n).split(i) {
        Some((a, b)) => {
            vk_cover(1);
            vk_check(i <= k, 1);
            vk_check(ssv_is(&a, &m[..i].to_vec(), n) & ssv_is(&b, &m[i..].to_vec(), n), 2);
            vk_observe(a.len() as u64);
        }
        None => { vk_cover(2); vk_check(i > k, 3); vk_observe(99); }
    }
}
// params: stage, another stage, operation.  Rows of another stage are refused; nothing changes
fn h_ssv_stage() {
    let (n, x, op) = (param(0), param(1), param(2));
    let m = sym_rows(n, 2);
    let o = sym_rows(x, 2);
    let held = if vk_param(3) == 1 { m[..0].to_vec() } else { m.clone() };
    let mut v = ssv_of(&held, n);
    let other = ssv_of(&o, x);
    let (row, own) = (row_of(&o[0]), row_of(&m[0]));
    let r = match op {
        0 => v.push(&row),
        1 => v.extend(vec![own, row]),
        11 => v.extend(vec![own.clone(), own.clone(), own.clone(), own.clone(), own.clone(), own.clone(), own, row.clone(), row]),
        12 => v.extend(vec![row, own]),
        13 => v.extend_from_buf(&SameStageVec::new(Stage::new(x))),
        14 => v.extend_transposed(&row, &SameStageVec::new(Stage::new(x))),
        15 => v.extend_range_transposed(&own, &other, 1..1),
        2 => v.extend_from_buf(&other),
        3 => v.extend_transposed(&row, &ssv_of(&m, n)),
        4 => v.extend_transposed(&row, &other),
        5 => v.extend_transposed(&own, &other),
        6 => v.extend_range_transposed(&own, &other, 0..1),
        7 => v.extend_transposed_from_within(.., &row),
        8 => v.pre_multiply(&row),
        9 => v.pre_multiplied(&row).map(|_| ()),
        _ => v.extend_range_transposed(&row, &other, 1..),
    };
    vk_check(r.is_err(), 1);
    vk_check(ssv_is(&v, &held, n), 2);
    vk_check(v.stage().num_bells() == n, 3);
    vk_observe(v.len() as u64);
}
// params: stage, operations.  Any sequence of operations keeps it equal to the model
fn h_ssv_ops() {
    let (n, k) = (param(0), param(1));
    let mut m = sym_rows(n, 1);
    let mut v = ssv_of(&m, n);
    let mut i = 0;
    while i < k {
        let op = sym(3);
        vk_assume(op < 6);
        let arg = sym_perm(n);
        let row = row_of(&arg);
        match vk_split(op as u64) {
            0 => { vk_check(v.push(&row).is_ok(), 1); m.push(arg); }
            1 => { let (x, y) = (v.pop(), m.pop()); vk_check(match (x, y) { (Some(x), Some(y)) => row_is(&x, &y), (None, None) => true, _ => false }, 2); }
            2 => { vk_check(v.pre_multiply(&row).is_ok(), 3); m = premul(&arg, &m); }
            3 => { vk_check(v.extend_transposed_from_within(.., &row).is_ok(), 4); let x = premul(&arg, &m); m.extend(x); }
            4 => {
                let c = v.clone();
                vk_check(v.extend_range_transposed(&row, &c, m.len() / 2..).is_ok(), 5);
                let x = premul(&arg, &m[m.len() / 2..]);
                m.extend(x);
            }
            _ => {
                let at = m.len() / 2;
                let (a, b) = v.split(at).unwrap();
                v = b;
                vk_check(v.extend_from_buf(&a).is_ok(), 6);
                let t = m.split_off(at);
                let h = std::mem::replace(&mut m, t);
                m.extend(h);
            }
        }
        i += 1;
    }
    vk_check(ssv_is(&v, &m, n), 7);
    let mut j = 0;
    for r in &v { vk_check(j < m.len() && row_is(r, &m[j]), 8); j += 1; }
    vk_observe(v.len() as u64);
}
// params: characters, most lines, first character class.  Every text of bell names, spaces and line ends.
fn h_ssv_parse() {
    let (k, bells) = (param(0), param(1));
    let mut s: Vec<u8> = vec![];
    let mut i = 0;
    while i < k {
        let t = sym(2);
        let b = sym(width(bells));
        vk_assume(b < bells);
        match vk_split(t as u64) {
            0 => { let mut c = 0; let mut j = 0; while j < bells { c = vk_ite(b == j, NAMES[j] as u64, c); j += 1; } s.push(c as u8); }
            1 => s.push(b'\n'),
            2 => s.push(b' '),
            _ => s.extend_from_slice(b"\r\n"),
        }
        i += 1;
    }
    check_parsed_rows(&s);
}
// params: which text, 0 replace / 1 insert.  Several rows with one character changed
fn h_ssv_parse_edit() {
    let t = ["1234\n2143\n2413", "123\n132\n", "12345678\r\n21436587\r\n", "1\n1\n1"][param(0)];
    let s = edit_ascii(t.as_bytes(), param(1) == 1);
    check_parsed_rows(&s);
}
// params: bells, lines, how they end (0 line feed / 1 carriage return too), last line ended.  Many rows, one of whose characters is arbitrary
fn h_ssv_parse_long() {
    let (n, k) = (param(0), param(1));
    let line = sym_upto(k - 1);
    let at = if vk_split(sym(1) as u64) == 0 { 0 } else { n - 1 };
    let c = sym(7) as u8;
    let mut s: Vec<u8> = vec![];
    let mut i = 0;
    while i < k {
        let r = fixed_row(n, i);
        let mut j = 0;
        while j < n { s.push(if i == line && j == at { c } else { NAMES[r[j]] }); j += 1; }
        if i + 1 < k || param(3) == 1 { s.extend_from_slice(if param(2) == 1 { b"\r\n" } else { b"\n" }); }
        i += 1;
    }
    check_parsed_rows(&s);
}
}
