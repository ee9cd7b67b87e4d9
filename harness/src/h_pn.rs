//! Place notation.
use crate::util::*;
use bellframe::place_not::{InvalidPnBlockError, ParseError, PnBlockParseError};

fn is_sorted(v: &[usize]) -> bool {
    let mut ok = true;
    let mut i = 1;
    while i < v.len() { ok &= v[i - 1] <= v[i]; i += 1; }
    ok
}
fn count(v: &[usize], x: usize) -> usize {
    let mut c = 0usize;
    let mut i = 0;
    while i < v.len() { c += (v[i] == x) as usize; i += 1; }
    c
}
/// Reference: what the written places `v` mean on stage n.
/// -> (valid, made) where made[i] says whether place i is made
pub fn expand(v: &[usize], n: usize) -> (bool, Vec<bool>) {
    let mut ok = !v.is_empty();
    let mut j = 0;
    while j < v.len() { ok &= (v[j] < n) & (count(v, v[j]) == 1); j += 1; }
    let mut given = vec![false; n];
    let mut i = 0;
    while i < n { given[i] = count(v, i) > 0; i += 1; }
    let mut made = given.clone();
    // walk the places; `gap` counts unmade places since the last one made (branch-free)
    let mut gap = 0u64;
    let mut seen = false;
    let mut i = 0;
    while i < n {
        let odd = gap & 1 == 1;
        // a place made after an odd gap: at the front lead is made implicitly, one missing place
        // is made implicitly, anything else is ambiguous
        let lead = given[i] & odd & !seen;
        made[0] |= lead;
        if i > 0 { made[i - 1] |= given[i] & seen & (gap == 1); }
        ok &= !(given[i] & seen & odd & (gap > 1));
        seen |= given[i];
        gap = vk_ite(given[i], 0, gap + 1);
        i += 1;
    }
    made[n - 1] |= gap & 1 == 1;
    (ok, made)
}
/// what the transposition with these places does to `v`: bells at made places stay, the others swap
/// in neighbouring pairs.  Branch-free on symbolic `made`.
pub fn apply(made: &[bool], v: &[usize]) -> Vec<usize> {
    let n = v.len();
    let mut out = vec![0; n];
    // first[i]: place i is the first of a swapping pair
    let mut open = false;
    let mut i = 0;
    while i < n {
        let first = !made[i] & !open;
        let second = !made[i] & open;
        let up = if i + 1 < n { v[i + 1] } else { v[i] };
        let down = if i > 0 { v[i - 1] } else { v[i] };
        out[i] = vk_ite(made[i], v[i] as u64, vk_ite(second, down as u64, up as u64)) as usize;
        open = (open & made[i]) | first;
        i += 1;
    }
    out
}
fn made_matches(pn: &PlaceNot, made: &[bool], n: usize) -> bool {
    let mut ok = pn.stage().num_bells() == n;
    let mut i = 0;
    while i < n + 2 { ok &= pn.contains(i) == (i < n && made[i]); i += 1; }
    ok
}
fn err_true(e: &ParseError, v: &[usize], n: usize) -> bool {
    match e {
        ParseError::NoPlacesGiven => v.is_empty(),
        ParseError::PlaceOutOfStage { place, stage } => (stage.num_bells() == n) & (*place >= n) & (count(v, *place) > 0),
        ParseError::DuplicatePlace(p) => count(v, *p) > 1,
        ParseError::AmbiguousPlacesBetween { p, q } => {
            let mut between = false;
            let mut j = 0;
            while j < v.len() { between |= (v[j] > *p) & (v[j] < *q); j += 1; }
            (count(v, *p) > 0) & (count(v, *q) > 0) & !between & (q.wrapping_sub(*p) > 2) & (q.wrapping_sub(*p) & 1 == 0) & (*p < *q)
        }
        ParseError::OddStageCross(_) => false,
    }
}
fn check_parsed(r: Result<PlaceNot, ParseError>, v: &[usize], n: usize) {
    let (ok, made) = expand(v, n);
    match r {
        Ok(pn) => {
            vk_cover(1);
            vk_check(ok, 1);
            vk_check(made_matches(&pn, &made, n), 2);
            // the transposition it denotes
            let id: Vec<usize> = (0..n).collect();
            let want = apply(&made, &id);
            let t = pn.transposition();
            vk_check(row_is(&t, &want), 3);
            let mut internal = false;
            let mut i = 1;
            while i + 1 < n { internal |= made[i]; i += 1; }
            vk_check(pn.has_internal_places() == internal, 4);
            vk_check(!pn.is_cross(), 5);
            observe_row(&t);
        }
        Err(e) => {
            vk_cover(2);
            vk_check(!ok, 6);
            vk_check(err_true(&e, v, n), 7);
            vk_observe(99);
        }
    }
}
/// all valid place notations of a (concrete) stage, as sets of made places; a selection of them above 10 bells
pub fn all_pns(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    if n > 10 {
        let h = n / 2 & !1;
        let some: [&[usize]; 14] = [&[], &[0], &[n - 1], &[0, n - 1], &[0, 1], &[n - 2, n - 1], &[h, h + 1], &[0, h + 1], &[h], &[0, 3, h, n - 1],
            &[2, n - 1], &[2, 3, h, h + 1, n - 2, n - 1], &[h, h + 1, n - 1], &[0, 1, 2, 3, h + 2, h + 5]];
        for p in some {
            let mut next = 0;
            let mut ok = true;
            for q in p { ok &= *q >= next && (*q - next) % 2 == 0; next = *q + 1; }
            if ok && (n - next) % 2 == 0 { out.push(p.to_vec()); }
        }
        if n < 64 { out.push((0..n).collect()); }
        return out;
    }
    for m in 0..1usize << n {
        let mut ok = true;
        let mut gap = 0;
        for i in 0..n {
            if m >> i & 1 == 1 { ok &= gap % 2 == 0; gap = 0 } else { gap += 1 }
        }
        ok &= gap % 2 == 0;
        if ok { out.push((0..n).filter(|i| m >> i & 1 == 1).collect()); }
    }
    out
}
pub fn pn_from_places(p: &[usize], n: usize) -> PlaceNot {
    if p.is_empty() { PlaceNot::cross(Stage::new(n)).unwrap() }
    else { unsafe { PlaceNot::from_sorted_slice(p, Stage::new(n)) }.unwrap() }
}
/// an arbitrary place notation of the stage (forks over which one)
pub fn sym_pn(n: usize, bits: u64) -> (PlaceNot, Vec<bool>) {
    let all = all_pns(n);
    let k = sym(bits);
    vk_assume(k < all.len());
    let k = vk_concrete(k as u64) as usize;
    let mut made = vec![false; n];
    for p in &all[k] { made[*p] = true; }
    (pn_from_places(&all[k], n), made)
}

pub fn fixed_pn(n: usize, i: usize, all: &[Vec<usize>]) -> (PlaceNot, Vec<bool>) {
    let p = &all[(i * i + i / 7) % all.len()];
    let mut made = vec![false; n];
    for q in p { made[*q] = true; }
    (pn_from_places(p, n), made)
}

#[derive(Clone, PartialEq, Debug)]
struct RefPn { made: Vec<bool> }
/// A character by its meaning; `P` is a bell name (of a possibly symbolic bell)
#[derive(Clone, Copy)]
enum Tok { P(usize), Cross, Dot, Comma, Plus, Junk }
fn tok_of(c: char) -> Tok {
    match c {
        'x' | 'X' | '-' => Tok::Cross,
        ' ' | '.' => Tok::Dot,
        ',' => Tok::Comma,
        '+' => Tok::Plus,
        c => match NAMES.iter().position(|x| *x as char == c) { Some(b) => Tok::P(b), None => Tok::Junk },
    }
}
/// Reference parser for blocks of place notation.
/// Ok(list of made-place sets) or Err(()).
fn ref_block(chars: &[Tok], n: usize) -> Result<Vec<RefPn>, ()> {
    let mut pns: Vec<RefPn> = vec![];
    let blocks: Vec<&[Tok]> = chars.split(|c| matches!(c, Tok::Comma)).collect();
    let single = blocks.len() == 1;
    for b in blocks {
        let mut i = 0;
        // ignore anything meaningless at the start of the block
        while i < b.len() && matches!(b[i], Tok::Dot | Tok::Junk) { i += 1; }
        let asym = i < b.len() && matches!(b[i], Tok::Plus);
        if asym { i += 1; }
        let mut cur: Vec<usize> = vec![];
        let mut out: Vec<RefPn> = vec![];
        let flush = |cur: &mut Vec<usize>, out: &mut Vec<RefPn>| -> Result<(), ()> {
            if !cur.is_empty() {
                let (ok, made) = expand(cur, n);
                if !ok { return Err(()); }
                out.push(RefPn { made });
                cur.clear();
            }
            Ok(())
        };
        while i < b.len() {
            match b[i] {
                Tok::Plus => return Err(()),
                Tok::Dot => flush(&mut cur, &mut out)?,
                Tok::Cross => {
                    flush(&mut cur, &mut out)?;
                    if n % 2 == 1 { return Err(()); }
                    out.push(RefPn { made: vec![false; n] });
                }
                Tok::P(x) => cur.push(x),
                Tok::Comma | Tok::Junk => {}
            }
            i += 1;
        }
        flush(&mut cur, &mut out)?;
        pns.extend(out.iter().cloned());
        if !single && !asym {
            let k = out.len();
            for j in 1..k { pns.push(out[k - 1 - j].clone()); }
        }
    }
    if pns.is_empty() { Err(()) } else { Ok(pns) }
}

/// One token of the given class; a place is arbitrary, up to one out of the stage
fn push_tok(class: u64, n: usize, s: &mut Vec<u8>, toks: &mut Vec<Tok>) {
    match class {
        0 => {
            let v = sym(4);
            vk_assume(v <= n);
            let mut c = 0;
            let mut j = 0;
            while j <= n { c = vk_ite(v == j, NAMES[j] as u64, c); j += 1; }
            s.push(c as u8);
            toks.push(Tok::P(v));
        }
        1 => { s.push(b'x'); toks.push(Tok::Cross); }
        2 => { s.push(b'-'); toks.push(Tok::Cross); }
        3 => { s.push(b'.'); toks.push(Tok::Dot); }
        4 => { s.push(b' '); toks.push(Tok::Dot); }
        5 => { s.push(b','); toks.push(Tok::Comma); }
        6 => { s.push(b'+'); toks.push(Tok::Plus); }
        7 => { s.push(b'/'); toks.push(Tok::Junk); }
        _ => { s.extend_from_slice("\u{e9}".as_bytes()); toks.push(Tok::Junk); }
    }
}
/// Whole methods
const METHODS: [(&str, usize); 8] = [
    ("-3-4-2-3-4-5,2", 6), ("3.1.5.1.5.1.5.1.5.1,1", 5), ("+5.1.5.1.5,+1.5", 5), ("x16x16x16,12", 6), ("34-34.18-12-18.12-18,18", 8),
    ("-5-4.5-5.36.4-4.5-4-1,8", 8), ("+ -14 - 14 , - 12 -", 4), ("3.1.7.1.5.1.7.1.7.5.1.7.1.7.1.7.1.7.1.5.1.5.1.7.1.7.1.7.1.7", 7),
];

fn check_block(s: &str, chars: &[Tok], n: usize) {
    let want = ref_block(chars, n);
    let got = PnBlock::parse(s, Stage::new(n));
    match got {
        Ok(b) => {
            vk_cover(1);
            match want {
                Ok(w) => {
                    vk_check(b.len() == w.len() && b.stage().num_bells() == n, 1);
                    let mut i = 0;
                    for pn in b.place_nots() {
                        vk_check(i < w.len() && made_matches(pn, &w[i].made, n), 2);
                        i += 1;
                    }
                    vk_check(i == w.len(), 3);
                    vk_observe(i as u64);
                }
                Err(_) => vk_check(false, 4),
            }
        }
        Err(e) => {
            vk_cover(2);
            vk_check(want.is_err(), 5);
            vk_observe(99);
            match e {
                PnBlockParseError::EmptyBlock => {
                    // nothing in the string denotes a change
                    let mut any = false;
                    for c in chars { any |= matches!(c, Tok::P(_) | Tok::Cross); }
                    vk_check(!any, 6);
                }
                PnBlockParseError::PlusNotAtBlockStart(i) => {
                    vk_cover(3);
                    vk_check(i < s.len() && s.as_bytes()[i] == b'+', 7);
                }
                PnBlockParseError::PnError(r, e) => {
                    vk_cover(4);
                    // the range lies within the string, and what it points at is what is wrong
                    vk_check(r.start < r.end && r.end <= s.len(), 8);
                    vk_check(s.is_char_boundary(r.start) && s.is_char_boundary(r.end), 9);
                    if r.start < r.end && r.end <= s.len() {
                        match PlaceNot::parse(&s[r], Stage::new(n)) {
                            Err(f) => vk_check(e == f, 10),
                            Ok(_) => vk_check(false, 11),
                        }
                    }
                }
            }
        }
    }
}

crate::harness! {
// params: number of places, stage, bits per place.  A sorted list of arbitrary numbers
fn h_pn_sorted() {
    let (k, n) = (param(0), param(1));
    let v = sym_vec(k, param(2) as u64);
    vk_assume(is_sorted(&v));
    check_parsed(unsafe { PlaceNot::from_sorted_slice(&v, Stage::new(n)) }, &v, n);
}
// params: number of characters, stage; every ASCII string of that length
fn h_pn_parse() {
    let (k, n) = (param(0), param(1));
    let v = sym_ascii(k);
    let mut places = vec![];
    let mut i = 0;
    while i < k {
        // (fork on whether it is a place; which place stays symbolic)
        let b = bell_of_char(v[i] as u32);
        if b != 255 { places.push(b); }
        i += 1;
    }
    let r = PlaceNot::parse(as_str(&v), Stage::new(n));
    if k == 1 && (v[0] == b'x' || v[0] == b'X' || v[0] == b'-') {
        match r {
            Ok(p) => { vk_check(n % 2 == 0 && p.is_cross(), 8); vk_check(p == PlaceNot::cross(Stage::new(n)).unwrap(), 9); }
            Err(e) => vk_check(n % 2 == 1 && e == ParseError::OddStageCross(Stage::new(n)), 10),
        }
    } else {
        check_parsed(r, &places, n);
    }
}
// params: number of places, stage: the same places in any order, as characters
fn h_pn_order() {
    let (k, n) = (param(0), param(1));
    let v = sym_vec(k, param(2) as u64);
    let mut s = vec![];
    let mut i = 0;
    while i < k { vk_assume(v[i] < 33); s.push(NAMES[v[i]]); i += 1; }
    check_parsed(PlaceNot::parse(as_str(&s), Stage::new(n)), &v, n);
}
// params: stage; displaying a place notation and parsing it back is the identity
fn h_pn_display() {
    let n = param(0);
    let (pn, made) = sym_pn(n, param(1) as u64);
    let s = pn.to_string();
    let mut want = vec![];
    for i in 0..n { if made[i] { want.push(NAMES[i]); } }
    if want.is_empty() { want.push(b'-'); }
    vk_check(str_is(&s, &want), 1);
    vk_check(PlaceNot::parse(&s, Stage::new(n)) == Ok(pn), 2);
    vk_observe(s.len() as u64);
}
// params: stage n, m; permuting an arbitrary row by an arbitrary place notation
fn h_pn_permute() {
    let n = param(0);
    let a = sym_perm(n);
    let (pn, made) = sym_pn(n, param(1) as u64);
    let want = apply(&made, &a);
    let mut r = row_of(&a);
    vk_check(match pn.permute_new(&r) { Ok(x) => row_is(&x, &want), Err(_) => false }, 1);
    vk_check(row_is(&unsafe { pn.permute_new_unchecked(&r) }, &want), 2);
    vk_check(row_is(&r, &a), 3);
    // equivalently: right-multiplication by its transposition
    vk_check(row_is(&(&r * &pn.transposition()), &want), 4);
    vk_check(pn.permute(&mut r).is_ok() & row_is(&r, &want), 5);
    // doing it twice is the identity
    vk_check(pn.permute(&mut r).is_ok() & row_is(&r, &a), 6);
    // and it is the place notation found between the two rows
    let b = row_of(&want);
    vk_check(PlaceNot::pn_between(&r, &b) == Some(pn.clone()), 7);
    // a row of another stage is refused and left alone
    let mut o = RowBuf::backrounds(Stage::new(n + 1));
    vk_check(pn.permute(&mut o).is_err() & (o == RowBuf::backrounds(Stage::new(n + 1))), 8);
    vk_check(pn.permute_new(&o).is_err(), 9);
    if n > 1 {
        let mut o = RowBuf::backrounds(Stage::new(n - 1));
        vk_check(pn.permute(&mut o).is_err() & (o == RowBuf::backrounds(Stage::new(n - 1))), 10);
        vk_check(PlaceNot::pn_between(&r, &o).is_none() & PlaceNot::pn_between(&o, &r).is_none(), 11);
    }
    observe_row(&b);
}
// params: n.  pn_between of two arbitrary rows
fn h_pn_between() {
    let n = param(0);
    let (a, b) = (sym_perm(n), sym_perm(n));
    let (ra, rb) = (row_of(&a), row_of(&b));
    // adjacent iff every bell moves by at most one place
    let mut adj = true;
    let mut i = 0;
    while i < n {
        let mut near = b[i] == a[i];
        if i > 0 { near |= b[i] == a[i - 1]; }
        if i + 1 < n { near |= b[i] == a[i + 1]; }
        adj &= near;
        i += 1;
    }
    match PlaceNot::pn_between(&ra, &rb) {
        Some(pn) => {
            vk_cover(1);
            vk_check(adj, 1);
            vk_check(pn.stage().num_bells() == n, 4);
            vk_check(match pn.permute_new(&ra) { Ok(x) => row_is(&x, &b), Err(_) => false }, 2);
            vk_observe(1);
        }
        None => { vk_cover(2); vk_check(!adj, 3); vk_observe(0); }
    }
}
// params: length, stage, first token class (9 = any).  Every sequence of token classes, with arbitrary
// bells (one of them out of the stage)
fn h_pnblock_parse() {
    let (k, n) = (param(0), param(1));
    let mut s: Vec<u8> = vec![];
    let mut toks: Vec<Tok> = vec![];
    let mut i = 0;
    while i < k {
        let t = sym(4);
        vk_assume(t < 9);
        if i == 0 && param(2) < 9 { vk_assume(t == param(2)); }
        push_tok(vk_split(t as u64), n, &mut s, &mut toks);
        i += 1;
    }
    check_block(as_str(&s), &toks, n);
}
// params: shape selector.  Fixed layout, arbitrary places: a.bc,d  with everything symbolic but layout
fn h_pnblock_layout() {
    let n = param(1);
    const LAYOUTS: [&[u8]; 10] = [
        b"p.p", b"pxp", b"p.p,p", b"p,p.p", b"+p.p,p", b"p.p,+p.p", b"pp.p", b"pp,p", b"p.pp", b"x,pp",
    ];
    let lay = LAYOUTS[param(0)];
    let mut s: Vec<u8> = vec![];
    for c in lay {
        if *c == b'p' {
            let v = sym(3);
            vk_assume(v < n + 1);
            s.push(NAMES[v]);
        } else { s.push(*c); }
    }
    // parse each symblock's pns independently with PlaceNot::parse, which is checked on its own
    let mut want: Vec<PlaceNot> = vec![];
    let mut bad = false;
    let blocks: Vec<&[u8]> = s.split(|c| *c == b',').collect();
    let lays: Vec<&[u8]> = lay.split(|c| *c == b',').collect();
    for (b, l) in blocks.iter().zip(lays.iter()) {
        let asym = l[0] == b'+';
        let mut out = vec![];
        let mut start = if asym { 1 } else { 0 };
        for i in start..=l.len() {
            if i == l.len() || l[i] == b'.' || l[i] == b'x' {
                if i > start {
                    match PlaceNot::parse(as_str(&b[start..i]), Stage::new(n)) { Ok(p) => out.push(p), Err(_) => { bad = true; } }
                }
                if i < l.len() && l[i] == b'x' { match PlaceNot::cross(Stage::new(n)) { Some(p) => out.push(p), None => { bad = true; } } }
                start = i + 1;
            }
        }
        want.extend(out.iter().cloned());
        if !asym && lays.len() > 1 { want.extend(out.iter().rev().skip(1).cloned()); }
    }
    match PnBlock::parse(as_str(&s), Stage::new(n)) {
        Ok(b) => {
            vk_cover(1);
            vk_check(!bad, 1);
            vk_check(b.len() == want.len(), 2);
            let mut i = 0;
            for p in b.place_nots() { vk_check(i < want.len() && *p == want[i], 3); i += 1; }
            vk_observe(i as u64);
        }
        Err(PnBlockParseError::PnError(r, e)) => {
            vk_cover(2);
            vk_check(bad, 4);
            vk_check(r.start < r.end && r.end <= s.len(), 5);
            if r.start < r.end && r.end <= s.len() {
                vk_check(PlaceNot::parse(as_str(&s[r.start..r.end]), Stage::new(n)) == Err(e), 6);
            }
        }
        Err(_) => vk_check(false, 7),
    }
}
// params: raw string length, stage: every ASCII string
fn h_pnblock_ascii() {
    let (k, n) = (param(0), param(1));
    let v = sym_ascii(k);
    match PnBlock::parse(as_str(&v), Stage::new(n)) {
        Ok(b) => { vk_cover(1); vk_check(b.len() > 0 && b.stage().num_bells() == n, 1); vk_observe(b.len() as u64); }
        Err(_) => { vk_cover(2); vk_observe(99); }
    }
}
// params: stage, number of pns, bits: the rows of a block
fn h_pnblock_rows() {
    let (n, k) = (param(0), param(1));
    let a = sym_perm(n);
    let mut pns = vec![];
    let mut made = vec![];
    let all = all_pns(n);
    let mut i = 0;
    while i < k {
        // (long blocks: only the changes at either end and in the middle are arbitrary)
        let (p, m) = if k <= 8 || i == 0 || i == k / 2 || i == k - 1 { sym_pn(n, param(2) as u64) } else { fixed_pn(n, i, &all) };
        pns.push(p);
        made.push(m);
        i += 1;
    }
    let b = if param(3) == 0 { PnBlock::from_vec(pns.clone()) } else { PnBlock::from_iter(pns.iter().cloned()) };
    let b = match b { Ok(b) => b, Err(e) => { vk_check(k == 0 && e == InvalidPnBlockError::EmptyBlock, 1); return; } };
    vk_check(b.len() == k && b.stage().num_bells() == n, 2);
    let rows = b.to_rows(row_of(&a)).unwrap();
    vk_check(rows.len() == k + 1 && rows.stage().num_bells() == n, 3);
    let mut cur = a.clone();
    let mut i = 0;
    for r in rows.iter() {
        vk_check(row_is(r, &cur), 4);
        if i < k { cur = apply(&made[i], &cur); }
        i += 1;
    }
    let blk: Block = b.to_block(row_of(&a)).unwrap();
    vk_check(blk.len() == k && row_is(blk.leftover_row(), &cur), 5);
    let fr: AnnotBlock<Option<u8>> = b.to_block_from_rounds();
    vk_check(fr.len() == k && fr.first_row().is_rounds(), 6);
    // the block is the start row times the block from rounds
    vk_check(row_is(&(&row_of(&a) * fr.leftover_row()), &cur), 7);
    vk_check(b.to_rows(RowBuf::rounds(Stage::new(n + 1))).is_err(), 8);
    observe_row(blk.leftover_row());
}
// params: stages of three place notations: mixed stages are refused
fn h_pnblock_mixed() {
    let st: Vec<usize> = (0..param(0)).map(|i| param(1 + i as u64)).collect();
    let pns: Vec<PlaceNot> = st.iter().map(|n| { let (p, _) = sym_pn(*n, 4); p }).collect();
    let same = st.windows(2).all(|w| w[0] == w[1]);
    match PnBlock::from_vec(pns) {
        Ok(b) => vk_check(same && b.len() == st.len(), 1),
        Err(InvalidPnBlockError::IncompatibleStages(i, _)) => vk_check(i < st.len() && st[i] != st[0], 2),
        Err(InvalidPnBlockError::EmptyBlock) => vk_check(st.is_empty(), 3),
    }
}
// params: stage, other stage, changes.  One of another stage anywhere in a long block
fn h_pnblock_stranger() {
    let (n, m, k) = (param(0), param(1), param(2));
    let (p, q) = (PlaceNot::parse("1", Stage::new(n)).unwrap(), PlaceNot::parse("1", Stage::new(m)).unwrap());
    let at = vk_split({ let x = sym(width(k)); vk_assume(x < k); x } as u64) as usize;
    let pns: Vec<PlaceNot> = (0..k).map(|i| if i == at { q.clone() } else { p.clone() }).collect();
    match if at % 2 == 0 { PnBlock::from_vec(pns) } else { PnBlock::from_iter(pns) } {
        Ok(_) => vk_check(false, 1),
        Err(InvalidPnBlockError::IncompatibleStages(i, _)) => {
            vk_cover(1);
            vk_check(i == at.max(1), 2);
            vk_observe(i as u64);
        }
        Err(_) => vk_check(false, 4),
    }
}
// params: stage, bits.  Questions about an arbitrary place notation, and its equality with another
fn h_pn_queries() {
    let n = param(0);
    let (pn, made) = sym_pn(n, param(1) as u64);
    let (qn, made2) = sym_pn(n, param(1) as u64);
    let p = sym(64);
    let mut want = false;
    let mut internal = false;
    let mut any = false;
    let mut i = 0;
    while i < n { want |= made[i] & (p == i); internal |= made[i] & (i > 0) & (i + 1 < n); any |= made[i]; i += 1; }
    vk_check(pn.contains(p) == want, 1);
    vk_check(pn.has_internal_places() == internal, 2);
    vk_check(pn.is_cross() == !any, 3);
    vk_check(pn.stage().num_bells() == n, 4);
    vk_check((pn == qn) == (made == made2), 5);
    vk_check(pn.clone() == pn, 6);
    vk_observe(want as u64 | (internal as u64) << 1);
}
fn h_pn_cross() {
    let n = sym(64);
    vk_assume(n > 0);
    match PlaceNot::cross(Stage::new(n)) {
        Some(p) => { vk_cover(1); vk_check((n & 1 == 0) & p.is_cross() & (p.stage().num_bells() == n) & !p.has_internal_places(), 1); let q = sym(64); vk_check(!p.contains(q), 2); }
        None => { vk_cover(2); vk_check(n & 1 == 1, 3); }
    }
}
// params: which text, 0 replace / 1 insert / 2 delete.  A whole method with one token changed
fn h_pnblock_edit() {
    let (text, n) = METHODS[param(0)];
    let ins = param(1) == 1;
    let len = text.len() + ins as usize;
    let at = sym(width(len));
    vk_assume(at < len);
    let at = vk_split(at as u64) as usize;
    let mut s: Vec<u8> = vec![];
    let mut toks: Vec<Tok> = vec![];
    for (i, c) in text.chars().enumerate() {
        if i == at && param(1) < 2 {
            let t = sym(4);
            vk_assume(t < 9);
            push_tok(vk_split(t as u64), n, &mut s, &mut toks);
        }
        if i != at || ins { s.push(c as u8); toks.push(tok_of(c)); }
    }
    if ins && at == text.len() {
        let t = sym(4);
        vk_assume(t < 9);
        push_tok(vk_split(t as u64), n, &mut s, &mut toks);
    }
    check_block(as_str(&s), &toks, n);
}
// params: stage, which places are given (0 all, 1 all but the first and last, 2 every other, 3 pairs, 4 few), 0 as numbers / 1 as text, written
// backwards / 2 as one change of a block.  Five of the places may be given or not, and one may be given twice or be any bell
fn h_pn_many() {
    let (n, base, how) = (param(0), param(1), param(2));
    let mut v: Vec<usize> = vec![];
    let vary = [0, 1, n / 2, n - 3, n - 1];
    let bits = vk_split(sym(if how == 0 { 5 } else { 3 }) as u64) as usize;
    let mut i = 0;
    while i < n {
        let mut given = match base { 0 => true, 1 => i > 0 && i + 1 < n, 2 => i % 2 == 0, 3 => i % 4 < 2, _ => i % 7 == 2 };
        let mut j = 0;
        while j < 5 { if vary[j] == i && bits >> j & 1 == 1 { given = !given; } j += 1; }
        if given { v.push(i); }
        i += 1;
    }
    // one of them is arbitrary
    if v.len() > 4 {
        let at = v.len() - 4;
        let b = sym(6);
        vk_assume((b < 33) & (b <= n));
        v[at] = if how == 0 { b } else { vk_split(b as u64) as usize };
    }
    if how == 0 { vk_assume(is_sorted(&v)); }
    if how == 0 {
        check_parsed(unsafe { PlaceNot::from_sorted_slice(&v, Stage::new(n)) }, &v, n);
        return;
    }
    let mut s = vec![];
    let mut toks = vec![];
    if how == 2 { s.push(b'x'); toks.push(Tok::Cross); }
    let mut i = 0;
    while i < v.len() {
        let b = v[v.len() - 1 - i];
        let mut c = 0;
        let mut j = 0;
        while j < 33 { c = vk_ite(b == j, NAMES[j] as u64, c); j += 1; }
        s.push(c as u8);
        toks.push(Tok::P(b));
        i += 1;
    }
    if how == 1 { check_parsed(PlaceNot::parse(as_str(&s), Stage::new(n)), &v, n); return; }
    s.extend_from_slice(b".12,x");
    toks.extend_from_slice(&[Tok::Dot, Tok::P(0), Tok::P(1), Tok::Comma, Tok::Cross]);
    check_block(as_str(&s), &toks, n);
}
// params: parts, stage.  Blocks of many comma-separated parts, of which three are arbitrary pieces
fn h_pnblock_parts() {
    let (k, n) = (param(0), param(1));
    const PIECES: [&str; 8] = ["14", "x", "+x.12", "x12", "12.34.14", "", "3.5", "34x34"];
    let mut s = String::new();
    let mut i = 0;
    while i < k {
        if i > 0 { s.push(','); }
        let vary = i == k / 3 || i == k / 2 + 1 || i == k - 1;
        let p = if vary { vk_split(sym(3) as u64) as usize } else { (i * i) % 5 };
        s.push_str(PIECES[p]);
        i += 1;
    }
    let toks: Vec<Tok> = s.chars().map(tok_of).collect();
    check_block(&s, &toks, n);
}
}
