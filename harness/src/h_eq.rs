//! Equality, hashing and copying of everything but rows.
use crate::h_block::*;
use crate::h_mask::{mask_of, sym_mask};
use crate::h_method::sym_class;
use crate::h_music::{normal, regex_of, sym_elems, El};
use crate::h_pn::{pn_from_places, sym_pn};
use crate::h_ssv::*;
use crate::util::*;
use std::hash::{Hash, Hasher};

/// Records everything written to it
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
}
fn hashed<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Rec(vec![]);
    x.hash(&mut h);
    h.0
}
fn same_bytes(x: &[u8], y: &[u8]) -> bool {
    if x.len() != y.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < x.len() { ok &= x[i] == y[i]; i += 1; }
    ok
}
/// Equal exactly when `want`, whichever side is asked; equals hash alike; a copy is equal
fn laws<T: Eq + Hash + Clone>(a: &T, b: &T, want: bool) {
    let e = a == b;
    vk_cover_if(e, 1);
    vk_cover_if(!e, 2);
    vk_check(e == want, 901);
    vk_check((a != b) == !want, 902);
    vk_check((b == a) == want, 903);
    vk_check(a == a, 904);
    let (ha, hb) = (hashed(a), hashed(b));
    vk_check(!want | same_bytes(&ha, &hb), 905);
    let c = a.clone();
    vk_check(c == *a, 906);
    vk_check(same_bytes(&hashed(&c), &ha), 907);
    vk_check((c == *b) == want, 908);
    vk_observe(e as u64);
}
fn rows_equal(a: &Model, n: usize, b: &Model, m: usize) -> bool {
    if n != m || a.len() != b.len() { return false; }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { let mut i = 0; while i < n { ok &= x[i] == y[i]; i += 1; } }
    ok
}

crate::harness! {
// params: stage and rows of one list, of the other, further capacity of the other
fn h_eq_ssv() {
    let (n, k, m, j) = (param(0), param(1), param(2), param(3));
    let (a, b) = (sym_rows(n, k), sym_rows(m, j));
    let x = ssv_of(&a, n);
    // the other has been longer
    let mut y = SameStageVec::with_capacity(Stage::new(m), j + 3 + param(4));
    for r in &b { y.push(&row_of(r)).unwrap(); }
    y.push(&RowBuf::backrounds(Stage::new(m))).unwrap();
    y.pop();
    let want = rows_equal(&a, n, &b, m);
    laws(&x, &y, want);
    // changing a copy leaves the original be
    let mut c = x.clone();
    c.push(&RowBuf::rounds(Stage::new(n))).unwrap();
    vk_check(c != x && ssv_is(&x, &a, n), 1);
    if k > 0 && n > 1 {
        let mut c = x.clone();
        c.get_mut(k - 1).unwrap().swap(0, n - 1);
        vk_check(c != x, 2);
        vk_check(ssv_is(&x, &a, n), 3);
        c.get_mut(k - 1).unwrap().swap(0, n - 1);
        vk_check(c == x, 4);
    }
}
// params: stage and rows of one block, of the other.  Annotations are arbitrary
fn h_eq_block() {
    let (n, k, m, j) = (param(0), param(1), param(2), param(3));
    let (a, b) = (sym_rows(n, k + 1), sym_rows(m, j + 1));
    let (p, q) = (sym_vec(k, 8), sym_vec(j, 8));
    let x = AnnotBlock::with_annots_from_indices(ssv_of(&a, n), |i| p[i]).unwrap();
    let y = AnnotBlock::with_annots_from_indices(ssv_of(&b, m), |i| q[i]).unwrap();
    let mut want = rows_equal(&a, n, &b, m);
    if k == j { let mut i = 0; while i < k { want &= p[i] == q[i]; i += 1; } }
    laws(&x, &y, want);
    if k > 0 {
        // rows with their annotations, one by one
        let (u, v) = (x.get_annot_row(k - 1).unwrap(), y.get_annot_row(j.max(1) - 1));
        if let Some(v) = v {
            let (r, s) = (&a[k - 1], &b[j - 1]);
            laws(&u, &v, rows_equal(&vec![r.clone()], n, &vec![s.clone()], m) & (p[k - 1] == q[j - 1]));
        }
        let mut c = x.clone();
        *c.get_annot_mut(k - 1).unwrap() ^= 1;
        vk_check(c != x && block_is(&x, &a, &p, n), 1);
        *c.get_annot_mut(k - 1).unwrap() ^= 1;
        vk_check(c == x, 2);
    }
    // without annotations
    let (x, y) = (x.map_annots(|_| ()), y.map_annots(|_| ()));
    laws(&x, &y, rows_equal(&a, n, &b, m));
}
// params: stage and bits of one change, of the other
fn h_eq_pn() {
    let (n, m) = (param(0), param(2));
    let ((x, a), (y, b)) = (sym_pn(n, param(1) as u64), sym_pn(m, param(3) as u64));
    laws(&x, &y, n == m && a == b);
    // the change by which one row becomes the next is the same however it was come by
    let z = PlaceNot::pn_between(&RowBuf::rounds(Stage::new(n)), &x.transposition()).unwrap();
    laws(&x, &z, true);
}
// params: stage and bits of the changes, changes in one block, in the other
fn h_eq_pnblock() {
    let (n, bits, k, j) = (param(0), param(1) as u64, param(2), param(3));
    let mut sides = vec![];
    for len in [k, j] {
        let (mut pns, mut made) = (vec![], vec![]);
        let mut i = 0;
        while i < len { let (p, m) = sym_pn(n, bits); pns.push(p); made.push(m); i += 1; }
        sides.push((PnBlock::from_vec(pns).unwrap(), made));
    }
    laws(&sides[0].0, &sides[1].0, sides[0].1 == sides[1].1);
}
// params: places of one mask, of the other
fn h_eq_mask() {
    let (n, m) = (param(0), param(1));
    let (a, b) = (sym_mask(n), sym_mask(m));
    let (x, y) = (mask_of(&a), mask_of(&b));
    let mut want = n == m;
    let mut i = 0;
    while want_len(n, m) && i < n { want &= a[i] == b[i]; i += 1; }
    laws(&x, &y, want);
    // built place by place instead
    let mut z = Mask::empty(Stage::new(n));
    let mut i = 0;
    while i < n { if (a[i] < n) { z.set_bell(Bell::from_index(a[i]), i).unwrap(); } i += 1; }
    vk_check(z == x && same_bytes(&hashed(&z), &hashed(&x)), 1);
}
// params: elements of one pattern, of the other, bells
fn h_eq_regex() {
    let (a, b) = (sym_elems(param(0), param(2)), sym_elems(param(1), param(2)));
    let (x, y) = (regex_of(&a), regex_of(&b));
    let (p, q) = (normal(&a), normal(&b));
    let mut want = p.len() == q.len();
    if want {
        for (e, f) in p.iter().zip(&q) {
            want &= match (e, f) { (El::B(c), El::B(d)) => c == d, (El::Any, El::Any) | (El::Glob, El::Glob) => true, _ => false };
        }
    }
    laws(&x, &y, want);
}
// ---- the unchecked forms, given what they ask for
// params: bells
fn h_unchecked_row() {
    use std::borrow::{Borrow, BorrowMut};
    let n = param(0);
    let (a, b) = (sym_perm(n), sym_perm(n));
    let (ra, rb) = (row_of(&a), row_of(&b));
    let bells: Vec<Bell> = ra.bell_iter().collect();
    vk_check(row_is(unsafe { Row::from_slice_unchecked(&bells) }, &a), 1);
    vk_check(row_is(&unsafe { RowBuf::from_bell_iter_unchecked(bells.iter().copied()) }, &a), 2);
    let mut out = row_of(&sym_perm(n));
    unsafe { ra.mul_into_row_unchecked(&rb, &mut out) };
    vk_check(row_is(&out, &compose(&a, &b)), 3);
    vk_check(row_is(&unsafe { ra.mul_unchecked(&rb) }, &compose(&a, &b)), 4);
    // changing the row through a borrow of any kind changes the row
    let i = if n > 8 { n / 2 } else { sym_upto(n - 1) };
    let mut w = a.clone();
    w.swap(i, n - 1);
    let mut c = bells.clone();
    unsafe { Row::from_mut_slice_unchecked(&mut c) }.swap(i, n - 1);
    let mut ok = c.len() == n;
    let mut j = 0;
    while j < n { ok &= c[j].index() == w[j]; j += 1; }
    vk_check(ok, 5);
    let mut r = ra.clone();
    r.as_mut_row().swap(i, n - 1);
    vk_check(row_is(&r, &w) && row_is(r.as_row(), &w) && row_is(&ra, &a), 6);
    AsMut::<Row>::as_mut(&mut r).swap(n - 1, i);
    vk_check(row_is(&r, &a) && row_is(AsRef::<Row>::as_ref(&r), &a), 7);
    BorrowMut::<Row>::borrow_mut(&mut r).swap(i, n - 1);
    vk_check(row_is(Borrow::<Row>::borrow(&r), &w), 8);
    (&mut *r).swap(i, n - 1);
    vk_check(row_is(&*r, &a), 9);
    vk_check(row_is(&r.as_row().to_owned(), &a), 10);
    observe_row(&r);
}
// params: stage, bits of a change (0: one of a few, with places running from the front, in the middle or everywhere)
fn h_unchecked_pn() {
    let n = param(0);
    let (p, made) = if param(1) > 0 { sym_pn(n, param(1) as u64) } else {
        // one or two pairs of bells change over (or none), every other place is made
        let (i, j) = if n > 12 && n <= 40 { let at = [0, 1, n / 2, n / 2 - 1, 7, 8, n - 3, n - 2]; (at[vk_split(sym(3) as u64) as usize], at[vk_split(sym(3) as u64) as usize]) } else { (sym_upto(n - 2), sym_upto(n - 2)) };
        let none = vk_split(sym(1) as u64) == 1;
        vk_assume(j == i || j > i + 1 || i > j + 1);
        let made: Vec<bool> = (0..n).map(|x| none || !(x == i || x == i + 1 || x == j || x == j + 1)).collect();
        let places: Vec<usize> = (0..n).filter(|i| made[*i]).collect();
        (pn_from_places(&places, n), made)
    };
    let a = sym_perm(n);
    let want = crate::h_pn::apply(&made, &a);
    let mut r = row_of(&a);
    unsafe { p.permute_unchecked(&mut r) };
    vk_check(row_is(&r, &want), 1);
    vk_check(row_is(&unsafe { p.permute_new_unchecked(&row_of(&a)) }, &want), 2);
    let x = unsafe { PnBlock::from_vec_unchecked(vec![p.clone(), p.clone()]) };
    vk_check(PnBlock::from_vec(vec![p.clone(), p.clone()]).map_or(false, |y| x == y), 3);
    // all the places it makes, given in order, are the change itself
    let places: Vec<usize> = (0..n).filter(|i| made[*i]).collect();
    vk_cover_if(!places.is_empty(), 1);
    if !places.is_empty() { vk_check(unsafe { PlaceNot::from_sorted_slice(&places, Stage::new(n)) }.map_or(false, |q| q == p), 4); }
}
// params: places
fn h_unchecked_mask() {
    let n = param(0);
    let a = sym_mask(n);
    let (mut x, mut y) = (Mask::empty(Stage::new(n)), Mask::empty(Stage::new(n)));
    let (mut f, mut g) = (Mask::empty(Stage::new(n)), Mask::empty(Stage::new(n)));
    let mut i = 0;
    while i < n {
        if a[i] < n {
            let b = Bell::from_index(a[i]);
            unsafe { x.set_bell_unchecked(b, i) };
            y.set_bell(b, i).unwrap();
            unsafe { f.fix_unchecked(b) };
            g.fix(b).unwrap();
        }
        i += 1;
    }
    vk_check(x == y, 1);
    vk_check(x == mask_of(&a), 2);
    vk_check(f == g, 3);
}
// params: elements, bells
fn h_unchecked_regex() {
    let a = sym_elems(param(0), param(1));
    let x = regex_of(&a);
    let els: Vec<bellframe::music::RegexElem> = x.elems().to_vec();
    vk_check(unsafe { bellframe::music::Regex::from_elems_unchecked(els.iter().copied()) } == x, 1);
    vk_check(unsafe { bellframe::music::Regex::from_vec_unchecked(els.clone()) } == x, 2);
    vk_check(bellframe::music::Regex::from_elems(els.iter().copied()) == x, 3);
    vk_check(bellframe::music::Regex::from_vec(els) == x, 4);
}
fn h_eq_class() {
    let (a, b) = (sym_class(), sym_class());
    laws(&a, &b, a.class() == b.class() && a.is_jump() == b.is_jump() && a.is_little() == b.is_little() && a.is_differential() == b.is_differential());
    laws(&a.class(), &b.class(), a.class() as u8 == b.class() as u8);
}
fn h_eq_small() {
    let (i, j) = (sym(8), sym(8));
    vk_assume((i > 0) & (j > 0));
    laws(&Bell::from_index(i), &Bell::from_index(j), i == j);
    laws(&Stage::new(i), &Stage::new(j), i == j);
    vk_check((Stage::new(i) < Stage::new(j)) == (i < j), 1);
    vk_check((Stage::new(i) >= Stage::new(j)) == (i >= j), 2);
    vk_check(Stage::new(i).cmp(&Stage::new(j)) == i.cmp(&j), 3);
    vk_check(Bell::from_index(i).cmp(&Bell::from_index(j)) == i.cmp(&j), 4);
    vk_check((Bell::from_index(i) > Bell::from_index(j)) == (i > j), 5);
    let (p, q) = (Parity::from_number(i), Parity::from_number(j));
    laws(&p, &q, i % 2 == j % 2);
}
}
fn want_len(n: usize, m: usize) -> bool { n == m }
