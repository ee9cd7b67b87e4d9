//! Shared helpers: symbolic inputs and branch-free comparisons.
pub use crate::vk::*;
pub use bellframe::*;
pub use bellframe::row::*;

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[ $((stringify!($n), $n)),* ];
    };
}

#[inline(always)]
pub fn sym(bits: u64) -> usize {
    vk_sym(bits) as usize
}
#[inline(always)]
pub fn param(i: u64) -> usize {
    vk_param(i) as usize
}
/// Bits needed to hold 0..n
pub fn width(n: usize) -> u64 {
    let mut b = 0;
    while (1usize << b) < n {
        b += 1;
    }
    if b == 0 { 1 } else { b }
}
/// `len` symbolic values, each of `bits` bits
pub fn sym_vec(len: usize, bits: u64) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    let mut i = 0;
    while i < len {
        v.push(sym(bits));
        i += 1;
    }
    v
}
/// Are the values a permutation of 0..len? (no branching on symbolic data)
pub fn is_perm(v: &[usize]) -> bool {
    let n = v.len();
    let mut ok = true;
    let mut i = 0;
    while i < n {
        ok &= v[i] < n;
        let mut j = 0;
        while j < i {
            ok &= v[i] != v[j];
            j += 1;
        }
        i += 1;
    }
    ok
}
/// Stages on which everything varies
pub fn wholly(n: usize) -> bool {
    n <= 8
}
/// As sym_perm, but everything varies on 12 and 16 bells too
pub fn sym_perm_all(n: usize) -> Vec<usize> {
    if n == 12 || n == 16 { sym_perm_upto(n, n) } else { sym_perm(n) }
}
/// As sym_perm, but everything varies on up to `all` bells
pub fn sym_perm_upto(n: usize, all: usize) -> Vec<usize> {
    if n > all {
        return sym_perm(n);
    }
    let v = sym_vec(n, width(n));
    vk_assume(is_perm(&v));
    v
}
/// An arbitrary permutation of 0..n; on larger stages, a fixed row (a rotation, rounds or backrounds, by n modulo 3)
/// with four of its bells (first, second or one in the middle, a middle one and last) rearranged arbitrarily
pub fn sym_perm(n: usize) -> Vec<usize> {
    if !wholly(n) {
        let q = sym_perm(4);
        let mut v: Vec<usize> = (0..n).map(|i| match n % 3 { 0 => (i + 5) % n, 1 => i, _ => n - 1 - i }).collect();
        let at = [0, if n % 3 == 1 { 1 } else { n / 3 }, n / 2 + 1, n - 1];
        let old = [v[at[0]], v[at[1]], v[at[2]], v[at[3]]];
        let mut i = 0;
        while i < 4 {
            v[at[i]] = sel(&old, q[i]);
            i += 1;
        }
        return v;
    }
    let v = sym_vec(n, width(n));
    vk_assume(is_perm(&v));
    v
}
pub fn row_of(v: &[usize]) -> RowBuf {
    let mut b = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        b.push(Bell::from_index(v[i]));
        i += 1;
    }
    unsafe { RowBuf::from_vec_unchecked(b) }
}
/// Does the row consist of exactly these bells?
pub fn row_is(r: &Row, v: &[usize]) -> bool {
    let s = r.slice();
    if s.len() != v.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < v.len() {
        ok &= s[i].index() == v[i];
        i += 1;
    }
    ok
}
pub fn observe_row(r: &Row) {
    let s = r.slice();
    let mut i = 0;
    while i < s.len() {
        vk_observe(s[i].index() as u64);
        i += 1;
    }
}

// ---- strings ------------------------------------------------------------------------------------
/// The names of bells, written out independently of the library
pub const NAMES: &[u8; 33] = b"1234567890ETABCDFGHJKLMNPQRSUVWYZ";
/// Reference for a character's bell: 255 if it is not a bell name (no branching)
pub fn bell_of_char(c: u32) -> usize {
    let mut r = 255u64;
    let mut i = 0;
    while i < 33 {
        r = vk_ite(NAMES[i] as u32 == c, i as u64, r);
        i += 1;
    }
    r as usize
}
/// An arbitrary Unicode scalar value
pub fn sym_char() -> char {
    let c = sym(21) as u32;
    vk_assume((c <= 0x10FFFF) & ((c < 0xD800) | (c > 0xDFFF)));
    unsafe { char::from_u32_unchecked(c) }
}
/// `len` arbitrary ASCII bytes
pub fn sym_ascii(len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let mut i = 0;
    while i < len {
        v.push(sym(7) as u8);
        i += 1;
    }
    v
}
pub fn as_str(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
pub fn str_is(s: &str, v: &[u8]) -> bool {
    let s = s.as_bytes();
    if s.len() != v.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < v.len() {
        ok &= s[i] == v[i];
        i += 1;
    }
    ok
}
/// arr[i] for a concrete table and a symbolic index, without branching
pub fn sel(p: &[usize], i: usize) -> usize {
    let mut r = 0u64;
    let mut k = 0;
    while k < p.len() {
        r = vk_ite(i == k, p[k] as u64, r);
        k += 1;
    }
    r as usize
}

/// A text in which one character, at any position, is replaced by an arbitrary ASCII character (or one is inserted
/// there); one path for each position
pub fn edit_ascii(t: &[u8], insert: bool) -> Vec<u8> {
    let n = if insert { t.len() + 1 } else { t.len() };
    let at = sym(width(n));
    let c = sym(7) as u8;
    vk_assume(at < n);
    let at = vk_split(at as u64) as usize;
    let mut v = t.to_vec();
    if insert { v.insert(at, c); } else { v[at] = c; }
    v
}
