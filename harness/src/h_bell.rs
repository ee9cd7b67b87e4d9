//! Bells, stages and their names.
use crate::util::*;
use serde::de::value::Error as VErr;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::convert::TryFrom;

const STAGES: [&str; 22] = [
    "One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques",
    "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty",
    "Decuples", "Twenty-two",
];
fn de_bell<'a, D: IntoDeserializer<'a, VErr>>(x: D) -> Result<Bell, VErr> {
    Bell::deserialize(x.into_deserializer())
}
fn de_stage<'a, D: IntoDeserializer<'a, VErr>>(x: D) -> Result<Stage, VErr> {
    Stage::deserialize(x.into_deserializer())
}

crate::harness! {
// every char
fn h_bell_from_name() {
    let c = sym_char();
    let want = bell_of_char(c as u32);
    match Bell::from_name(c) {
        Some(b) => {
            vk_cover(1);
            vk_check(b.index() == want, 1);
            vk_check(b.to_char() == Some(c), 2);
            vk_observe(b.index() as u64);
        }
        None => { vk_cover(2); vk_check(want == 255, 3); vk_observe(99); }
    }
}
// every index
fn h_bell_to_char() {
    let i = sym(64);
    let b = Bell::from_index(i);
    vk_check(b.index() == i, 1);
    match b.to_char() {
        Some(c) => { vk_cover(1); vk_check((i < 33) & (bell_of_char(c as u32) == i), 2); vk_check(Bell::from_name(c) == Some(b), 3); }
        None => { vk_cover(2); vk_check(i >= 33, 4); }
    }
    match Bell::from_number(i) {
        Some(b) => { vk_check((i > 0) & (b.index() == i.wrapping_sub(1)), 5); vk_check(b.number() == i, 6); }
        None => vk_check(i == 0, 7),
    }
}
// names of bells: one character, or <number>; params: kind
fn h_bell_name() {
    let i = sym(7);
    let b = Bell::from_index(i);
    let s = b.name();
    let t = if param(0) == 0 { b.to_string() } else { format!("{}", b) };
    vk_check(s == t, 1);
    let i = vk_concrete(i as u64) as usize;
    if i < 33 {
        vk_check(s.as_bytes() == &NAMES[i..i + 1], 2);
    } else {
        let n = i + 1;
        let mut w = vec![b'<'];
        if n >= 100 { w.push(b'0' + (n / 100) as u8); }
        w.push(b'0' + (n / 10 % 10) as u8);
        w.push(b'0' + (n % 10) as u8);
        w.push(b'>');
        vk_check(str_is(&s, &w), 3);
    }
    vk_observe(s.len() as u64);
}
fn h_bell_arith() {
    let (i, k) = (sym(64), sym(64));
    let b = Bell::from_index(i);
    let (s, o) = i.overflowing_add(k);
    if param(0) == 2 {
        vk_panic_ok(o);
        let mut d = b;
        d += k;
        vk_check(!o & (d.index() == s), 7);
    } else if param(0) == 3 {
        vk_panic_ok(k > i);
        let mut d = b;
        d -= k;
        vk_check((k <= i) & (d.index() == i.wrapping_sub(k)), 8);
    } else if param(0) == 0 {
        vk_panic_ok(o);
        let c = b + k;
        vk_check(!o & (c.index() == s), 1);
        let mut d = b;
        d += k;
        vk_check(d == c, 2);
        vk_check((c - k) == b, 3);
    } else {
        vk_panic_ok(k > i);
        let c = b - k;
        vk_check((k <= i) & (c.index() == i.wrapping_sub(k)), 4);
        let mut d = b;
        d -= k;
        vk_check(d == c, 5);
    }
    let e = Bell::from_index(k);
    vk_check(((b < e) == (i < k)) & ((b == e) == (i == k)), 6);
}
fn h_stage() {
    let n = sym(64);
    match Stage::try_from(n) {
        Ok(s) => {
            vk_cover(1);
            vk_check((n > 0) & (s.num_bells() == n), 1);
            vk_check(s.is_even() == (n & 1 == 0), 2);
            vk_check((s.tenor().number() == n) & (Bell::tenor(s) == s.tenor()), 3);
            vk_check(Stage::new(n) == s, 4);
            // its bells, first to last, are as many as it has (whatever their iterator promises)
            let mut it = s.bells();
            let (lo, hi) = it.size_hint();
            vk_check((lo <= n) & (match hi { Some(h) => h >= n, None => true }), 11);
            vk_check(it.next() == Some(Bell::TREBLE), 12);
            vk_check(it.next() == if n > 1 { Some(Bell::from_index(1)) } else { None }, 13);
            let m = sym(64);
            vk_assume(m > 0);
            vk_check((s < Stage::new(m)) == (n < m), 5);
            vk_check(IncompatibleStages::test_err(s, Stage::new(m)).is_ok() == (n == m), 6);
            match s.name() { Some(_) => { vk_cover(2); vk_check(n <= 22, 7) } None => vk_check(n > 22, 8) }
        }
        Err(_) => { vk_check(n == 0, 9); vk_panic_ok(true); let _ = Stage::new(n); vk_check(false, 10); }
    }
}
// params: how many stages are tested one after another: the first is remembered, and every later one is compared with it
fn h_stage_test_opt() {
    let k = param(0);
    let v = sym_vec(k, 64);
    let mut opt = None;
    let mut i = 0;
    while i < k {
        vk_assume(v[i] > 0);
        let same = v[i] == v[0];
        let r = IncompatibleStages::test_err_opt(&mut opt, Stage::new(v[i]));
        vk_check(r.is_ok() == same, 1);
        vk_check(match opt { Some(s) => s.num_bells() == v[0], None => false }, 2);
        vk_cover_if(!same, 1);
        i += 1;
    }
    vk_check(opt == Some(Stage::new(v[0])), 3);
}
// params: n (concrete) -- names of every stage
fn h_stage_name() {
    let n = sym(6);
    vk_assume(n > 0);
    let n = vk_concrete(n as u64) as usize;
    let s = Stage::new(n);
    let bells: Vec<Bell> = s.bells().collect();
    let mut ok = bells.len() == n;
    let mut i = 0;
    while i < bells.len() { ok &= bells[i].index() == i; i += 1; }
    vk_check(ok, 1);
    let d = s.to_string();
    if n <= 22 {
        vk_check(s.name() == Some(STAGES[n - 1]), 2);
        vk_check(d == STAGES[n - 1], 3);
        let low = STAGES[n - 1].to_ascii_lowercase();
        vk_check(Stage::from_lower_case_name(&low) == Some(s), 4);
        vk_check(de_stage(STAGES[n - 1]).ok() == Some(s), 5);
    } else {
        vk_check(s.name().is_none(), 6);
        let mut w = vec![b'0' + (n / 10) as u8, b'0' + (n % 10) as u8];
        w.extend_from_slice(b" bells");
        vk_check(str_is(&d, &w), 7);
    }
    vk_observe(d.len() as u64);
}
// params: len.  Every ASCII string of that length: only the stage names are accepted
fn h_stage_from_name() {
    let len = param(0);
    let v = sym_ascii(len);
    match Stage::from_lower_case_name(as_str(&v)) {
        Some(s) => {
            vk_cover(1);
            let n = vk_concrete(s.num_bells() as u64) as usize;
            let w = STAGES[n - 1].to_ascii_lowercase();
            vk_check(str_is(as_str(&v), w.as_bytes()), 1);
            vk_observe(n as u64);
        }
        None => {
            let mut any = false;
            for w in STAGES.iter() { any |= str_is(as_str(&v), w.to_ascii_lowercase().as_bytes()); }
            vk_check(!any, 2);
            vk_observe(0);
        }
    }
}
// ---- serde --------------------------------------------------------------------------------------
// params: bits of the bell index.  Serialise, then deserialise: the identity
fn h_bell_serde_roundtrip() {
    let i = sym(param(0) as u64);
    let b = Bell::from_index(i);
    let v = serde_json::to_value(&b);
    match v {
        Ok(v) => {
            match serde_json::from_value::<Bell>(v) {
                Ok(c) => vk_check(c == b, 1),
                Err(_) => vk_check(false, 2),
            }
        }
        Err(_) => vk_check(false, 3),
    }
}
fn h_bell_serde_string() {
    let i = sym(7);
    let b = Bell::from_index(i);
    let s = serde_json::to_string(&b).unwrap();
    match serde_json::from_str::<Bell>(&s) { Ok(c) => vk_check(c == b, 1), Err(_) => vk_check(false, 2) }
    vk_observe(s.len() as u64);
}
// every integer type a deserializer may offer
fn h_bell_de_int() {
    // error messages print negative numbers: keep those within 10 bits
    let x = if param(0) == 8 { (1 << 63) | ((sym(10) as u64) << param(1)) } else { sym(64) as u64 };
    if param(0) <= 1 { vk_assume(x as i64 >= -1024); }
    if param(0) == 3 { vk_assume(x as u32 as i32 >= -1024); }
    let r = match param(0) {
        0 | 8 | 9 => (de_bell(x), x as i128),
        1 => (de_bell(x as i64), x as i64 as i128),
        2 => (de_bell(x as u32), x as u32 as i128),
        3 => (de_bell(x as i32), x as i32 as i128),
        4 => (de_bell(x as u16), x as u16 as i128),
        5 => (de_bell(x as i16), x as i16 as i128),
        6 => (de_bell(x as u8), x as u8 as i128),
        _ => (de_bell(x as i8), x as i8 as i128),
    };
    match r {
        (Ok(b), v) => { vk_cover(1); vk_check((v > 0) & (b.number() as i128 == v), 1); }
        (Err(_), v) => { vk_cover(2); vk_check(v <= 0, 2); }
    }
}
fn h_stage_de_int() {
    // error messages print negative numbers: keep those within 10 bits
    let x = if param(0) == 8 { (1 << 63) | ((sym(10) as u64) << param(1)) } else { sym(64) as u64 };
    if param(0) <= 1 { vk_assume(x as i64 >= -1024); }
    if param(0) == 3 { vk_assume(x as u32 as i32 >= -1024); }
    let r = match param(0) {
        0 | 8 | 9 => (de_stage(x), x as i128),
        1 => (de_stage(x as i64), x as i64 as i128),
        2 => (de_stage(x as u32), x as u32 as i128),
        3 => (de_stage(x as i32), x as i32 as i128),
        4 => (de_stage(x as u16), x as u16 as i128),
        5 => (de_stage(x as i16), x as i16 as i128),
        6 => (de_stage(x as u8), x as u8 as i128),
        _ => (de_stage(x as i8), x as i8 as i128),
    };
    match r {
        (Ok(b), v) => { vk_cover(1); vk_check((v > 0) & (b.num_bells() as i128 == v), 1); }
        (Err(_), v) => { vk_cover(2); vk_check(v <= 0, 2); }
    }
}
fn h_bell_de_char() {
    let c = sym_char();
    let want = bell_of_char(c as u32);
    match de_bell(c) {
        Ok(b) => { vk_cover(1); vk_check(b.index() == want, 1); }
        Err(_) => { vk_cover(2); vk_check(want == 255, 2); }
    }
}
// params: len of an ASCII string
fn h_bell_de_str() {
    let v = sym_ascii(param(0));
    match de_bell(as_str(&v)) {
        Ok(b) => { vk_cover(1); vk_check(v.len() == 1 && bell_of_char(v[0] as u32) == b.index(), 1); }
        Err(_) => { vk_cover(2); vk_check(v.len() != 1 || bell_of_char(v[0] as u32) == 255, 2); }
    }
}
fn h_stage_serde_roundtrip() {
    let i = sym(param(0) as u64);
    vk_assume(i > 0);
    let b = Stage::new(i);
    match serde_json::to_value(&b) {
        Ok(v) => match serde_json::from_value::<Stage>(v) {
            Ok(c) => vk_check(c == b, 1),
            Err(_) => vk_check(false, 2),
        },
        Err(_) => vk_check(false, 3),
    }
}
// params: length of a JSON document: neither type may panic on it
fn h_serde_json_text() {
    let v = sym_ascii(param(0));
    // (no floating-point literals: printing them in the error message is outside the engine's reach)
    let mut i = 0;
    while i < v.len() { let c = v[i]; vk_assume((c != b'-') & (c != b'.') & (c != b'e') & (c != b'E')); i += 1; }
    if param(1) == 0 {
        if let Ok(b) = serde_json::from_str::<Bell>(as_str(&v)) { vk_cover(1); vk_observe(b.index() as u64); } else { vk_cover(2); }
    } else {
        if let Ok(b) = serde_json::from_str::<Stage>(as_str(&v)) { vk_cover(1); vk_check(b.num_bells() > 0, 1); vk_observe(b.num_bells() as u64); } else { vk_cover(2); }
    }
}
}
