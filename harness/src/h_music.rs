//! Music patterns.
use crate::h_ssv::sym_upto;
use crate::util::*;
use bellframe::music::{Regex, RegexElem};

/// A pattern element: a bell (possibly symbolic), 'x' or '*'
#[derive(Clone, Copy, PartialEq)]
pub enum El { B(usize), Any, Glob }
pub fn sym_elems(k: usize, bells: usize) -> Vec<El> {
    let mut out = vec![];
    let mut i = 0;
    while i < k {
        let t = sym(2);
        let b = sym(width(bells).max(5));
        vk_assume((t < 3) & (b < bells));
        out.push(match vk_split(t as u64) { 0 => El::B(b), 1 => El::Any, _ => El::Glob });
        i += 1;
    }
    out
}
pub fn regex_of(v: &[El]) -> Regex {
    Regex::from_vec(v.iter().map(|e| match e { El::B(b) => RegexElem::Bell(Bell::from_index(*b)), El::Any => RegexElem::Any, El::Glob => RegexElem::Glob }).collect())
}
/// Does the pattern match the row?  All ways of matching are considered.
fn ref_match(v: &[El], r: &[usize]) -> bool {
    let n = r.len();
    let mut cur = vec![false; n + 1];
    cur[0] = true;
    for e in v {
        let mut nx = vec![false; n + 1];
        match e {
            El::Glob => { let mut any = false; let mut i = 0; while i <= n { any |= cur[i]; nx[i] = any; i += 1; } }
            El::Any => { let mut i = 0; while i < n { nx[i + 1] = cur[i]; i += 1; } }
            El::B(b) => { let mut i = 0; while i < n { nx[i + 1] = cur[i] & (r[i] == *b); i += 1; } }
        }
        cur = nx;
    }
    cur[n]
}
pub fn normal(v: &[El]) -> Vec<El> {
    let mut out = vec![];
    let mut any = 0;
    let mut glob = false;
    for e in v {
        match e {
            El::Any => any += 1,
            El::Glob => glob = true,
            El::B(_) => {
                for _ in 0..any { out.push(El::Any); }
                if glob { out.push(El::Glob); }
                any = 0;
                glob = false;
                out.push(*e);
            }
        }
    }
    for _ in 0..any { out.push(El::Any); }
    if glob { out.push(El::Glob); }
    out
}
fn elems_are(r: &Regex, v: &[El]) -> bool {
    let e = r.elems();
    if e.len() != v.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < v.len() {
        ok &= match (e[i], v[i]) { (RegexElem::Bell(a), El::B(b)) => a.index() == b, (RegexElem::Any, El::Any) => true, (RegexElem::Glob, El::Glob) => true, _ => false };
        i += 1;
    }
    ok
}
fn all_perms(n: usize) -> Vec<Vec<usize>> {
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for p in &perms { for b in 0..n { if !p.contains(&b) { let mut q = p.clone(); q.push(b); nx.push(q); } } }
        perms = nx;
    }
    perms
}
fn any_match(v: &[Regex], r: &Row) -> bool {
    let mut m = false;
    for x in v { m |= x.matches(r); }
    m
}

fn check_text(v: &[u8], r: &[usize]) {
    let re = Regex::parse(as_str(v));
    let mut els = vec![];
    let mut i = 0;
    while i < v.len() {
        let b = bell_of_char(v[i] as u32);
        if v[i] == b'*' { els.push(El::Glob); }
        else if vk_or(v[i] == b'x', v[i] == b'.') { els.push(El::Any); }
        else if b < 255 { els.push(El::B(b)); }
        i += 1;
    }
    let want = ref_match(&els, r);
    vk_check(re.matches(&row_of(r)) == want, 1);
    vk_check(re.elems().len() <= els.len(), 2);
    vk_observe(want as u64);
}
/// The elements written down, bells being those below n
fn text_of(v: &[El], n: usize) -> Vec<u8> {
    let mut txt = vec![];
    for e in v {
        let mut c = 0;
        match e { El::B(b) => { let mut j = 0; while j < n.min(33) { c = vk_ite(*b == j, NAMES[j] as u64, c); j += 1; } } El::Any => c = if txt.len() % 2 == 0 { b'x' } else { b'.' } as u64, El::Glob => c = b'*' as u64 }
        txt.push(c as u8);
    }
    txt
}
/// Rounds with its last four bells rearranged arbitrarily
fn in_order(n: usize) -> Vec<usize> {
    let mut r: Vec<usize> = (0..n).collect();
    let k = n.min(4);
    let q = sym_perm(k);
    for i in 0..k { r[n - k + i] = n - k + q[i]; }
    r
}
fn check_match(re: &Regex, v: &[El], r: &[usize]) {
    let n = r.len();
    let row = row_of(r);
    let want = ref_match(v, r);
    vk_check(re.matches(&row) == want, 11);
    match re.match_pattern(&row) {
        None => { vk_cover(1); vk_check(!want, 12); }
        Some(p) => {
            vk_cover(2);
            vk_check(want, 13);
            // the places of the bells that are named, in ascending order
            let mut i = 0;
            for e in v {
                if let El::B(b) = e {
                    vk_check(i < p.len() && p[i] < n && sel(r, p[i]) == *b && (i == 0 || p[i - 1] < p[i]), 14);
                    i += 1;
                }
            }
            vk_check(i == p.len(), 15);
        }
    }
    vk_observe(want as u64);
}
crate::harness! {
// params: elements, bells
fn h_regex_normal() {
    let (k, n) = (param(0), param(1));
    let v = sym_elems(k, n);
    let r = regex_of(&v);
    let want = normal(&v);
    vk_check(elems_are(&r, &want), 1);
    // normalising again changes nothing
    let mut s = r.clone();
    s.normalise();
    vk_check(elems_are(&s, &want), 2);
    vk_check(s == r, 3);
    // the same pattern, written down and read again
    let txt = text_of(&v, n);
    vk_check(Regex::parse(as_str(&txt)) == r, 4);
    vk_check(Regex::parse(&r.to_string()) == r, 5);
    vk_check(Regex::from_elems(r.elems().to_vec()) == r, 6);
    vk_observe(r.elems().len() as u64);
}
// params: stage, elements (0 any bell, 1 'x', 2 '*', 3 'x' or '*', 4 any element, 5 the next bell in order; until 99).  Longer patterns
fn h_regex_pattern() {
    let n = param(0);
    let mut v = vec![];
    let mut i = 1;
    while vk_param(i) < 99 {
        if vk_param(i) == 5 { v.push(El::B((i as usize - 1) % n)); i += 1; continue; }
        if vk_param(i) == 4 { v.extend(sym_elems(1, n + 1)); i += 1; continue; }
        let t = match vk_param(i) { 3 => 1 + sym_upto(1), t => t as usize };
        v.push(match t { 0 => { let b = sym(width(n + 1)); vk_assume(b <= n); El::B(b) } 1 => El::Any, _ => El::Glob });
        i += 1;
    }
    let re = regex_of(&v);
    let want = normal(&v);
    vk_check(elems_are(&re, &want), 1);
    if n < 33 { vk_check(Regex::parse(as_str(&text_of(&v, n + 1))) == re, 2); }
    // patterns with bells in order are tried against rows with most of their bells in order
    let r = if vk_param(1) == 5 { in_order(n) } else { sym_perm_upto(n, 24) };
    check_match(&re, &v, &r);
}
// params: elements, stage (bells may be one outside the stage)
fn h_regex_match() {
    let (k, n) = (param(0), param(1));
    let v = sym_elems(k, n + 1);
    let r = sym_perm_upto(n, 24);
    check_match(&regex_of(&v), &v, &r);
}
// params: elements, stage, bells (those from `stage` on are outside it).  The count is the number of
// rows that match
fn h_regex_count() {
    let (k, n) = (param(0), param(1));
    let v = sym_elems(k, param(2));
    let re = regex_of(&v);
    let mut c = 0usize;
    for p in all_perms(n) { c += ref_match(&v, &p) as usize; }
    vk_check(re.num_matching_rows(Stage::new(n)) == Some(c), 1);
    vk_observe(c as u64);
}
// params: stage, named bells, 'x's, globs.  Larger stages, against the closed formula in wide arithmetic
fn h_regex_count_big() {
    let (n, f, a, g) = (param(0), param(1), param(2), param(3));
    // f distinct named bells, with a glob after each of the first g of them; 'x's at the end (or before the last bell)
    let early = vk_param(4) == 1;
    let bs = sym_vec(f, 7);
    let mut ok = true;
    let mut i = 0;
    while i < f { ok &= bs[i] < n; let mut j = 0; while j < i { ok &= bs[i] != bs[j]; j += 1; } i += 1; }
    let mut v = vec![];
    if g > f { v.push(El::Glob); } // at most one more glob than named bells
    let mut i = 0;
    while i < f {
        if early && i + 1 == f { let mut j = 0; while j < a { v.push(El::Any); j += 1; } }
        v.push(El::B(bs[i]));
        if i < g { v.push(El::Glob); }
        i += 1;
    }
    let mut i = 0;
    while i < a && !early { v.push(El::Any); i += 1; }
    let re = regex_of(&v);
    let want: Option<u128> = if !ok || f > n || f + a > n || (g == 0 && f + a != n) { Some(0) } else {
        let m = n - f;          // unnamed bells, in any order ...
        let e = m - a;          // ... of which this many share the globs
        let mut t: u128 = 1;
        let mut i = 1;
        while i <= m { t *= i as u128; i += 1; }
        if g > 0 {
            // C(e + g - 1, g - 1) ways to share places
            let mut i = 1;
            while i < g { t = t * (e + i) as u128; i += 1; }
            let mut i = 1;
            while i < g { t /= i as u128; i += 1; }
        }
        Some(t)
    };
    let got = re.num_matching_rows(Stage::new(n));
    match got {
        Some(x) => { vk_cover(1); vk_check(Some(x as u128) == want, 1); }
        None => { vk_cover(2); vk_check(ok && n - f + g > 20, 2); }
    }
    vk_observe(got.unwrap_or(7) as u64);
}
// params: stage, length
fn h_runs() {
    let (n, len) = (param(0), param(1));
    let stage = Stage::new(n);
    let r = sym_perm_upto(n, 24);
    let row = row_of(&r);
    // is there a run of `len` bells starting at place s?
    let run_at = |s: usize| {
        let (mut up, mut down) = (true, true);
        let mut i = s + 1;
        while i < s + len { up &= r[i] == r[i - 1] + 1; down &= r[i] + 1 == r[i - 1]; i += 1; }
        up | down
    };
    let (mut front, mut back, mut all) = (false, false, false);
    if len <= n {
        let mut s = 0;
        while s + len <= n {
            let x = run_at(s);
            if s == 0 { front = x; }
            if s + len == n { back = x; }
            all |= x;
            s += 1;
        }
    }
    vk_check(any_match(&Regex::runs_front(stage, len), &row) == front, 1);
    vk_check(any_match(&Regex::runs_back(stage, len), &row) == back, 2);
    vk_check(any_match(&Regex::all_runs(stage, len), &row) == all, 3);
    vk_check(any_match(&Regex::runs_front_or_back(stage, len), &row) == (front | back), 4);
    vk_check(any_match(&Regex::runs(stage, len, false), &row) == (front | back), 5);
    vk_check(any_match(&Regex::runs(stage, len, true), &row) == all, 6);
    vk_observe((front as u64) | (back as u64) << 1 | (all as u64) << 2);
}
// params: stage.  The run off the front is the longest one
fn h_run_len() {
    let n = param(0);
    let r = sym_perm_upto(n, 12);
    let row = row_of(&r);
    let mut l = 1;
    let mut on = true;
    let mut i = 1;
    while i < n { on &= (r[i] == r[i - 1] + 1) | (r[i] + 1 == r[i - 1]); l += on as usize; i += 1; }
    vk_check(run_len(row.bell_iter()) == l, 1);
    let mut l = 1;
    let mut on = true;
    let mut i = n - 1;
    while i > 0 { on &= (r[i] == r[i - 1] + 1) | (r[i] + 1 == r[i - 1]); l += on as usize; i -= 1; }
    vk_check(run_len(row.bell_iter().rev()) == l, 2);
    vk_observe(l as u64);
}
// params: characters: any string at all
fn h_regex_ascii() {
    let (k, n) = (param(0), param(1));
    let v = sym_ascii(k);
    check_text(&v, &sym_perm_upto(n, 24));
}
// params: which text, 0 replace / 1 insert.  A whole pattern with one character changed
fn h_regex_edit() {
    let (t, n) = [("1xxx56", 6), ("*5678", 8), ("*23.4*", 6), ("x.3*8", 8), ("*6x5*1*", 7)][param(0)];
    let v = edit_ascii(t.as_bytes(), param(1) == 1);
    check_text(&v, &sym_perm_upto(n, 24));
}
}
