//! Rows as text.
use crate::util::*;
use std::str::FromStr;

/// The bells named by the string (places in order), everything else being ignored
fn named(v: &[u8]) -> Vec<usize> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let b = bell_of_char(v[i] as u32);
        if b < 255 { out.push(b); }
        i += 1;
    }
    out
}
fn dup_or_gap(v: &[usize], stage: usize, e: &InvalidRowError) -> bool {
    let count = |x: usize| { let mut c = 0usize; for b in v { c += (*b == x) as usize; } c };
    match e {
        InvalidRowError::NoBells => v.is_empty(),
        InvalidRowError::DuplicateBell(b) => count(b.index()) > 1,
        InvalidRowError::BellOutOfStage(b, s) => (s.num_bells() == stage) & (b.index() >= stage) & (count(b.index()) > 0),
        InvalidRowError::MissingBell(b) => { let mut big = false; for x in v { big |= *x > b.index(); } big & (count(b.index()) == 0) }
    }
}

crate::harness! {
// params: characters.  Every ASCII string of that length
fn h_row_parse() {
    let k = param(0);
    let s = sym_ascii(k);
    let v = named(&s);
    let ok = is_perm(&v) && !v.is_empty();
    let r = if param(1) == 0 { RowBuf::parse(as_str(&s)) } else { RowBuf::from_str(as_str(&s)) };
    match r {
        Ok(r) => { vk_cover(1); vk_check(ok, 1); vk_check(row_is(&r, &v), 2); observe_row(&r); }
        Err(e) => { vk_cover(2); vk_check(!ok, 3); vk_check(dup_or_gap(&v, v.len(), &e), 4); vk_observe(99); }
    }
}
// params: bells (all characters being bell names), largest bell
fn h_row_parse_bells() {
    let (k, m) = (param(0), param(1));
    let v = sym_vec(k, width(m));
    let mut s = vec![];
    let mut i = 0;
    while i < k {
        vk_assume(v[i] < m);
        let mut c = 0;
        let mut j = 0;
        while j < m { c = vk_ite(v[i] == j, NAMES[j] as u64, c); j += 1; }
        s.push(c as u8);
        i += 1;
    }
    let ok = is_perm(&v);
    match RowBuf::parse(as_str(&s)) {
        Ok(r) => { vk_cover(1); vk_check(ok, 1); vk_check(row_is(&r, &v), 2); observe_row(&r); }
        Err(e) => { vk_cover(2); vk_check(!ok, 3); vk_check(dup_or_gap(&v, k, &e), 4); vk_observe(99); }
    }
}
// params: characters, stage
fn h_row_parse_stage() {
    let (k, n) = (param(0), param(1));
    let s = sym_ascii(k);
    let v = named(&s);
    let ok = is_perm(&v) & (v.len() <= n);
    match RowBuf::parse_with_stage(as_str(&s), Stage::new(n)) {
        Ok(r) => {
            vk_cover(1);
            vk_check(ok, 1);
            let mut want = v.clone();
            let mut i = v.len();
            while i < n { want.push(i); i += 1; }
            vk_check(row_is(&r, &want), 2);
            observe_row(&r);
        }
        Err(e) => { vk_cover(2); vk_check(!ok, 3); vk_check(dup_or_gap(&v, n, &e), 4); vk_observe(99); }
    }
}
// params: stage.  Written out and read back
fn h_row_display() {
    let n = param(0);
    let mut a = sym_perm(n);
    if n > 33 {
        // unnamed bells are written as numbers in angle brackets (which can't be read back); one path for each row
        let mut i = 0;
        while i < n { a[i] = vk_split(a[i] as u64) as usize; i += 1; }
        let r = row_of(&a);
        let mut want = vec![];
        for b in &a {
            if *b < 33 { want.push(NAMES[*b]); continue; }
            want.push(b'<');
            let mut d = vec![];
            let mut x = b + 1;
            while x > 0 { d.push(b'0' + (x % 10) as u8); x /= 10; }
            d.reverse();
            want.extend_from_slice(&d);
            want.push(b'>');
        }
        vk_check(str_is(&r.to_string(), &want), 5);
        vk_check(str_is(&(*r).to_string(), &want), 6);
        return;
    }
    let r = row_of(&a);
    let s = r.to_string();
    let mut want = vec![];
    let mut i = 0;
    while i < n { let mut c = 0; let mut j = 0; while j < n { c = vk_ite(a[i] == j, NAMES[j] as u64, c); j += 1; } want.push(c as u8); i += 1; }
    vk_check(str_is(&s, &want), 1);
    vk_check((*r).to_string() == s, 2);
    vk_check(match RowBuf::parse(&s) { Ok(x) => x == r, Err(_) => false }, 3);
    vk_check(match RowBuf::parse_with_stage(&s, Stage::new(n)) { Ok(x) => x == r, Err(_) => false }, 4);
    vk_observe(s.len() as u64);
}
// one arbitrary character (any of Unicode) among the bells 1 and 2
fn h_row_parse_char() {
    let c = sym_char();
    let mut s = String::from("2");
    s.push(c);
    s.push('1');
    let b = bell_of_char(c as u32);
    match RowBuf::parse(&s) {
        Ok(r) => { vk_cover(1); vk_check((b == 255) | (b == 2), 1); vk_check((r.stage().num_bells() == 2) == (b == 255), 2); }
        Err(e) => { vk_cover(2); vk_check((b != 255) & (b != 2), 3); vk_check(match e { InvalidRowError::DuplicateBell(d) => (d.index() == b) & (b < 2), InvalidRowError::BellOutOfStage(d, _) => (d.index() == b) & (b > 2), _ => false }, 4); }
    }
}
// params: bells, 0 replace / 1 insert, stage (0: none given).  A whole row with one character changed
fn h_row_parse_edit() {
    let n = param(0);
    let t: Vec<u8> = (0..n).map(|i| NAMES[match n % 3 { 0 => (i + 5) % n, 1 => i, _ => n - 1 - i }]).collect();
    let s = edit_ascii(&t, param(1) == 1);
    let v = named(&s);
    let (stage, r) = if param(2) == 0 { (v.len(), RowBuf::parse(as_str(&s))) } else { (param(2), RowBuf::parse_with_stage(as_str(&s), Stage::new(param(2)))) };
    let ok = is_perm(&v) & (v.len() <= stage);
    match r {
        Ok(r) => {
            vk_cover(1);
            vk_check(ok, 1);
            let mut want = v.clone();
            let mut i = v.len();
            while i < stage { want.push(i); i += 1; }
            vk_check(row_is(&r, &want), 2);
            observe_row(&r);
        }
        Err(e) => { vk_cover(2); vk_check(!ok, 3); vk_check(dup_or_gap(&v, stage, &e), 4); vk_observe(99); }
    }
}
// params: bells, what stands between them (0 nothing, 1 spaces, 2 accented letters, 3 place notation), how many of it, stage (0: none
// given).  A long text with any bell at one of its places
fn h_row_parse_long() {
    let (n, kind, gap) = (param(0), param(1), param(2));
    let mut v: Vec<usize> = (0..n).map(|i| match n % 3 { 0 => (i + 5) % n, 1 => i, _ => n - 1 - i }).collect();
    let at = sel(&[0, n / 2, n - 1, n - 2], sym(2));
    let b = sym(6);
    vk_assume(b < 33);
    let mut i = 0;
    while i < n { v[i] = vk_ite(at == i, b as u64, v[i] as u64) as usize; i += 1; }
    let mut s = vec![];
    let mut i = 0;
    while i < n {
        let mut c = 0;
        let mut j = 0;
        while j < 33 { c = vk_ite(v[i] == j, NAMES[j] as u64, c); j += 1; }
        s.push(c as u8);
        let mut g = 0;
        while g < gap {
            match kind { 1 => s.push(b' '), 2 => s.extend_from_slice("\u{e9}".as_bytes()), _ => s.push(b"x.-+,&io"[(g + i) % 8]) }
            g += 1;
        }
        i += 1;
    }
    let text = unsafe { std::str::from_utf8_unchecked(&s) };
    let (stage, r) = if param(3) == 0 { (n, RowBuf::parse(text)) } else { (param(3), RowBuf::parse_with_stage(text, Stage::new(param(3)))) };
    let ok = is_perm(&v);
    match r {
        Ok(r) => {
            vk_cover(1);
            vk_check(ok, 1);
            let mut want = v.clone();
            let mut i = n;
            while i < stage { want.push(i); i += 1; }
            vk_check(row_is(&r, &want), 2);
            observe_row(&r);
        }
        Err(e) => { vk_cover(2); vk_check(!ok, 3); vk_check(dup_or_gap(&v, stage, &e), 4); vk_observe(99); }
    }
}
}
