//! Masks.
use crate::util::*;
use bellframe::music::Regex;

/// A mask of `n` places: entry `n` means "any bell here"
pub fn sym_mask(n: usize) -> Vec<usize> {
    if !wholly(n) {
        // as sym_perm, a third of the places being open, and the rearranged ones open or not
        let mut v = sym_perm(n);
        let mut i = 0;
        while i < n {
            if i == 0 || i == n / 3 || i == n / 2 + 1 || i == n - 1 { v[i] = vk_ite(sym(1) == 1, n as u64, v[i] as u64) as usize; }
            else if i % 3 == 1 && n % 2 == 0 { v[i] = n; }
            i += 1;
        }
        return v;
    }
    let v = sym_vec(n, width(n + 1));
    let mut ok = true;
    let mut i = 0;
    while i < n {
        ok &= v[i] <= n;
        let mut j = 0;
        while j < i { ok &= (v[i] != v[j]) | (v[i] == n); j += 1; }
        i += 1;
    }
    vk_assume(ok);
    v
}
pub fn mask_of(v: &[usize]) -> Mask {
    let n = v.len();
    if n > 33 {
        // there are no names for so many bells
        let mut m = Mask::empty(Stage::new(n));
        let mut i = 0;
        while i < n { if v[i] < n { m.set_bell(Bell::from_index(v[i]), i).unwrap(); } i += 1; }
        return m;
    }
    let mut s = vec![];
    let mut i = 0;
    while i < n {
        let mut c = b'x' as u64;
        let mut j = 0;
        while j < n { c = vk_ite(v[i] == j, NAMES[j] as u64, c); j += 1; }
        s.push(c as u8);
        i += 1;
    }
    Mask::parse(as_str(&s))
}
pub fn fits(v: &[usize], r: &[usize]) -> bool {
    let n = v.len();
    let mut ok = r.len() == n;
    let mut i = 0;
    while i < n && i < r.len() { ok &= (v[i] == n) | (v[i] == r[i]); i += 1; }
    ok
}
/// The mask specifies exactly these bells at these places
fn mask_is(m: &Mask, v: &[usize]) -> bool {
    let n = v.len();
    let mut ok = m.stage().num_bells() == n;
    let open: Vec<usize> = m.unspecified_places().collect();
    let mut i = 0;
    let mut k = 0usize;
    while i < n {
        let mut listed = false;
        for o in &open { listed |= *o == i; }
        ok &= listed == (v[i] == n);
        k += (v[i] == n) as usize;
        // the place of each bell
        let mut at = 9999u64;
        let mut j = 0;
        while j < n { at = vk_ite(v[j] == i, j as u64, at); j += 1; }
        ok &= match m.place_of(Bell::from_index(i)) { Some(p) => p as u64 == at, None => at == 9999 };
        i += 1;
    }
    ok &= open.len() == k;
    let mut i = 1;
    while i < open.len() { ok &= open[i - 1] < open[i]; i += 1; }
    ok & (m.is_empty() == (k == n))
}

fn check_parsed_mask(v: &[u8]) {
    let mask = Mask::parse(as_str(v));
    // the places, in order
    let mut want = vec![];
    let mut i = 0;
    while i < v.len() {
        let b = bell_of_char(v[i] as u32);
        let any = (v[i] == b'x') | (v[i] == b'X') | (v[i] == b'.');
        if vk_or(b < 255, any) { want.push(vk_ite(any, 255, b as u64) as usize); }
        i += 1;
    }
    if !want.is_empty() {
        vk_cover(1);
        vk_check(mask.stage().num_bells() == want.len(), 1);
        let open: Vec<usize> = mask.unspecified_places().collect();
        let mut n = 0;
        for i in 0..want.len() {
            let mut l = false;
            for o in &open { l |= *o == i; }
            vk_check(l == (want[i] == 255), 2);
            n += (want[i] == 255) as usize;
            if want[i] < 255 {
                // the first place of the bell that is there
                let p = mask.place_of(Bell::from_index(want[i]));
                vk_check(match p { Some(p) => (p <= i) && want[p] == want[i], None => false }, 3);
            }
        }
        vk_check(n == open.len(), 4);
        vk_observe(n as u64);
    }
}

crate::harness! {
// params: places, row's stage
fn h_mask_matches() {
    let (n, m) = (param(0), param(1));
    let v = sym_mask(n);
    let mask = mask_of(&v);
    let r = sym_perm(m);
    let row = row_of(&r);
    let want = fits(&v, &r);
    vk_check(mask.matches(&row) == want, 1);
    vk_check(mask_is(&mask, &v), 2);
    vk_cover_if(want, 1);
    vk_cover_if(!want, 2);
    let s = mask.to_string();
    if n <= 33 { vk_check(Mask::parse(&s) == mask, 3); }
    let re: Regex = mask.into();
    vk_check(re.matches(&row) == want, 4);
    vk_observe(want as u64);
}
// params: places.  Exactly the complete masks are rows
fn h_mask_row() {
    let n = param(0);
    let v = sym_mask(n);
    let mask = mask_of(&v);
    let mut full = true;
    let mut i = 0;
    while i < n { full &= v[i] < n; i += 1; }
    match mask.as_row() {
        Some(r) => { vk_cover(1); vk_check(full, 1); vk_check(row_is(&r, &v), 2); vk_check(Mask::full_row(&r) == mask, 3); vk_check(mask.matches(&r), 5); }
        None => { vk_cover(2); vk_check(!full, 4); }
    }
    let stage = Stage::new(n);
    vk_check(mask_is(&Mask::empty(stage), &vec![n; n]), 6);
    vk_observe(full as u64);
}
// params: characters.  Whatever is parsed, `as_row` gives nothing but valid rows
fn h_mask_raw() {
    let k = param(0);
    let v = sym_ascii(k);
    let mask = Mask::parse(as_str(&v));
    if let Some(r) = mask.as_row() {
        vk_cover(1);
        let mut idx = vec![];
        for b in r.bell_iter() { idx.push(b.index()); }
        vk_check(is_perm(&idx) && idx.len() > 0, 1);
        vk_observe(idx.len() as u64);
    }
}
// params: places.  Comparing and combining two masks
fn h_mask_pair() {
    let n = param(0);
    let (v, w) = (sym_mask(n), sym_mask(n));
    let (a, b) = (mask_of(&v), mask_of(&w));
    let r = sym_perm(n);
    let row = row_of(&r);
    let (ma, mb) = (fits(&v, &r), fits(&w, &r));
    // subset: everything b specifies, a specifies the same
    let mut sub = true;
    let mut comp = true;
    let mut i = 0;
    while i < n {
        sub &= (w[i] == n) | (w[i] == v[i]);
        let mut j = 0;
        while j < n {
            // different bells in one place, or one bell in different places
            comp &= !((i == j) & (v[i] < n) & (w[i] < n) & (v[i] != w[i]));
            comp &= !((i != j) & (v[i] < n) & (v[i] == w[j]));
            j += 1;
        }
        i += 1;
    }
    let got = a.is_subset_of(&b);
    vk_check(got == sub, 1);
    vk_check(!got | !ma | mb, 2);
    vk_check(a.is_compatible_with(&b) == comp, 3);
    vk_check(comp | !(ma & mb), 4);
    match a.combine(&b) {
        Some(c) => {
            vk_cover(1);
            vk_check(comp, 5);
            vk_check(c.matches(&row) == (ma & mb), 6);
            let both: Vec<usize> = (0..n).map(|i| vk_ite(v[i] < n, v[i] as u64, w[i] as u64) as usize).collect();
            vk_check(mask_is(&c, &both), 7);
        }
        None => { vk_cover(2); vk_check(!comp, 8); }
    }
    vk_check((a == b) == (sub & b.is_subset_of(&a)), 9);
    vk_observe(sub as u64);
    vk_observe(comp as u64);
}
// params: places, other places
fn h_mask_stage() {
    let (n, m) = (param(0), param(1));
    let (a, b) = (mask_of(&sym_mask(n)), mask_of(&sym_mask(m)));
    vk_check(!a.is_subset_of(&b) & !b.is_subset_of(&a), 1);
    vk_check(!a.is_compatible_with(&b) & !b.is_compatible_with(&a), 2);
    vk_check(a.combine(&b).is_none() & b.combine(&a).is_none(), 3);
    vk_panic_ok(true);
    let r = row_of(&sym_perm(m));
    if param(2) == 0 { let _ = &a * &*r; } else { let _ = &*r * &a; }
    vk_check(false, 4);
}
// params: places.   m matches s  <=>  m*r matches s*r  <=>  r*m matches r*s
fn h_mask_mul() {
    let n = param(0);
    let v = sym_mask(n);
    let mask = mask_of(&v);
    let (r, s) = (sym_perm(n), sym_perm(n));
    let (rr, rs) = (row_of(&r), row_of(&s));
    let want = fits(&v, &s);
    let m = &mask * &*rr;
    let mut w = vec![];
    let mut i = 0;
    while i < n { w.push(sel(&v, r[i])); i += 1; }
    vk_check(mask_is(&m, &w), 1);
    vk_check(m.matches(&(&rs * &rr)) == want, 2);
    let m = &*rr * &mask;
    let mut w = vec![];
    let mut i = 0;
    while i < n { w.push(vk_ite(v[i] == n, n as u64, sel(&r, v[i]) as u64) as usize); i += 1; }
    vk_check(mask_is(&m, &w), 3);
    vk_check(m.matches(&(&rr * &rs)) == want, 4);
    vk_observe(want as u64);
}
// params: places; setting an arbitrary bell at an arbitrary place
fn h_mask_set() {
    let n = param(0);
    let v = sym_mask(n);
    let mut mask = mask_of(&v);
    let (b, p) = (sym(width(n)), sym(width(n)));
    vk_assume((b < n) & (p < n));
    let mut at = n;
    let mut i = 0;
    while i < n { at = vk_ite(v[i] == b, i as u64, at as u64) as usize; i += 1; }
    let ok = (at == n) | (at == p);
    let mut w = vec![];
    let mut i = 0;
    while i < n { w.push(vk_ite(ok & (i == p), b as u64, v[i] as u64) as usize); i += 1; }
    let r = if param(1) == 0 { mask.set_bell(Bell::from_index(b), p) } else { vk_assume(b == p); mask.fix(Bell::from_index(b)) };
    vk_check(r.is_ok() == ok, 1);
    vk_cover_if(ok, 1);
    vk_cover_if(!ok, 2);
    vk_check(mask_is(&mask, &w), 2);
    vk_observe(ok as u64);
}
// params: places, bells fixed
fn h_mask_fix() {
    let (n, k) = (param(0), param(1));
    let bs = sym_vec(k, width(n));
    let mut ok = true;
    for b in &bs { ok &= *b < n; }
    vk_assume(ok);
    let m = Mask::fix_bells(Stage::new(n), bs.iter().map(|b| Bell::from_index(*b)));
    let mut w = vec![];
    let mut i = 0;
    while i < n { let mut f = false; for b in &bs { f |= *b == i; } w.push(vk_ite(f, i as u64, n as u64) as usize); i += 1; }
    vk_check(mask_is(&m, &w), 1);
    vk_observe(bs.len() as u64);
}
// params: characters.  Which characters mean what, for every string of ASCII and one other character
fn h_mask_parse() {
    let k = param(0);
    let v = sym_ascii(k);
    check_parsed_mask(&v);
}
// params: 0 replace / 1 insert.  A long mask with one character changed
fn h_mask_parse_edit() {
    let v = edit_ascii(b"1xx4567.90ETAB.XFGHxKL", param(0) == 1);
    check_parsed_mask(&v);
}
}
