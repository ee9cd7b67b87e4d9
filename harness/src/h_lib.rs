//! The method library: JSON, lookup by title, suggestions.
use crate::h_method::{sym_class, title_of, CLASSES, STAGES};
use crate::h_ssv::sym_upto;
use crate::util::*;
use bellframe::method::class::FullClass;
use bellframe::method_lib::QueryError;

/// (group: stage, class id, flags j/l/d), methods: (explicit title, name, place notation)
struct G<'a> { stage: u64, class: u64, flags: usize, methods: Vec<(Option<&'a [u8]>, &'a [u8], &'a str)> }
fn json(groups: &[G]) -> Vec<u8> {
    let mut s: Vec<u8> = b"{\"groups\":[".to_vec();
    let mut first = true;
    for g in groups {
        if !first { s.push(b','); }
        first = false;
        s.extend_from_slice(b"{\"s\":");
        s.extend_from_slice(g.stage.to_string().as_bytes());
        let mut i = 0;
        for k in ["j", "l", "d"] {
            if g.flags >> i & 1 == 1 { s.extend_from_slice(format!(",\"{}\":true", k).as_bytes()); }
            i += 1;
        }
        s.extend_from_slice(b",\"c\":");
        s.extend_from_slice(g.class.to_string().as_bytes());
        s.extend_from_slice(b",\"m\":[");
        let mut f2 = true;
        for (t, n, p) in &g.methods {
            if !f2 { s.push(b','); }
            f2 = false;
            s.push(b'{');
            if let Some(t) = t { s.extend_from_slice(b"\"t\":\""); s.extend_from_slice(t); s.extend_from_slice(b"\","); }
            s.extend_from_slice(b"\"n\":\"");
            s.extend_from_slice(n);
            s.extend_from_slice(b"\",\"p\":\"");
            s.extend_from_slice(p.as_bytes());
            s.extend_from_slice(b"\"}");
        }
        s.extend_from_slice(b"]}");
    }
    s.extend_from_slice(b"]}");
    s
}
fn lib(groups: &[G]) -> Option<MethodLib> { MethodLib::from_json(as_str(&json(groups))).ok() }
fn lower(c: u8) -> u8 { vk_ite((c >= b'A') & (c <= b'Z'), (c as u64) | 32, c as u64) as u8 }
fn eq_nocase(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < a.len() { ok &= lower(a[i]) == lower(b[i]); i += 1; }
    ok
}
/// Letters, digits, blanks and common punctuation: what JSON does not escape
fn sym_text(len: usize) -> Vec<u8> {
    let v = sym_ascii(len);
    for c in &v { vk_assume((*c >= 32) & (*c < 127) & (*c != b'"') & (*c != b'\\')); }
    v
}
fn distance(a: &[u8], b: &[u8]) -> u64 {
    let mut prev: Vec<u64> = (0..=b.len() as u64).collect();
    let mut i = 0;
    while i < a.len() {
        let mut cur = vec![i as u64 + 1];
        let mut j = 0;
        while j < b.len() {
            let sub = prev[j] + vk_ite(a[i] == b[j], 0, 1);
            let del = prev[j + 1] + 1;
            let ins = cur[j] + 1;
            let m = vk_ite(sub < del, sub, del);
            cur.push(vk_ite(m < ins, m, ins));
            j += 1;
        }
        prev = cur;
        i += 1;
    }
    prev[b.len()]
}
fn is_method(m: &Method, title: &[u8], name: &[u8], stage: usize, pn: &str) -> bool {
    let b: AnnotBlock<Option<String>> = PnBlock::parse(pn, Stage::new(stage)).unwrap().to_block_from_rounds();
    str_is(m.title(), title) & str_is(m.name(), name) & (m.stage().num_bells() == stage) & (m.first_lead() == &b)
}
const LIB: [(u64, u64, usize, Option<&str>, &str, &str, &str); 5] = [
    (6, 2, 0, None, "Plain", "x16x16x16,12", "Plain Bob Minor"),
    (6, 1, 2, None, "Kent", "34,16", "Kent Little Place Minor"),
    (7, 2, 0, Some("Grandsire Triples"), "Grandsire", "3,1.7.1.7.1.7.1", "Grandsire Triples"),
    (4, 0, 0, None, "E", "x14.x12", "E Minimus"),
    (22, 8, 4, None, "Q", "x", "Q Differential Twenty-two"),
];
fn std_lib() -> MethodLib {
    let g: Vec<G> = LIB.iter().map(|m| G { stage: m.0, class: m.1, flags: m.2, methods: vec![(m.3.map(|s| s.as_bytes()), m.4.as_bytes(), m.5)] }).collect();
    lib(&g).unwrap()
}

crate::harness! {
// params: which method.  Its title in any mixture of cases, and with any one character changed
fn h_lib_lookup() {
    let l = std_lib();
    let e = &LIB[param(0)];
    let t = e.6.as_bytes();
    let mut q = vec![];
    let mut i = 0;
    while i < t.len() {
        let flip = sym(1) == 1;
        let alpha = t[i].is_ascii_alphabetic();
        q.push(vk_ite(flip & alpha, t[i] as u64 ^ 32, t[i] as u64) as u8);
        i += 1;
    }
    let at = vk_split(sym_upto(t.len()) as u64) as usize;
    let c = sym(7) as u8;
    if at < t.len() { q[at] = c; }
    let hit = eq_nocase(&q, t);
    match l.get_by_title(as_str(&q)) {
        Ok(m) => { vk_cover(1); vk_check(hit, 1); vk_check(is_method(&m, t, e.4.as_bytes(), e.0 as usize, e.5), 2); vk_observe(1); }
        Err(QueryError::NotFound(())) => { vk_cover(2); vk_check(!hit, 3); vk_observe(0); }
        Err(_) => vk_check(false, 4),
    }
}
// params: length.  Any ASCII text: found exactly when it is one of the titles
fn h_lib_query() {
    let l = lib(&[
        G { stage: 2, class: 0, flags: 0, methods: vec![(None, b"", "x"), (None, b"A", "12")] },
        G { stage: 1, class: 0, flags: 1, methods: vec![(Some(b"b One"), b"B", "1")] },
        G { stage: 2, class: 0, flags: 1, methods: vec![(Some(b"One"), b"C", "1")] },
    ]).unwrap();
    let q = sym_ascii(param(0));
    let known: [(&[u8], &[u8], usize, &str); 3] = [(b"Two", b"", 2, "x"), (b"A Two", b"A", 2, "12"), (b"b One", b"B", 1, "1")];
    let mut any = false;
    for k in known { any |= eq_nocase(&q, k.0); }
    match l.get_by_title(as_str(&q)) {
        Ok(m) => {
            vk_cover(1);
            let mut ok = false;
            for k in known { ok |= eq_nocase(&q, k.0) & is_method(&m, k.0, k.1, k.2, k.3); }
            vk_check(ok, 1);
        }
        Err(QueryError::NotFound(())) => {
            vk_cover(2);
            vk_check(!any, 2);
            // what is reported can be replaced
            let e: QueryError<usize> = QueryError::NotFound(3usize).map_not_found(|x: usize| x + q.len());
            vk_check(matches!(e, QueryError::NotFound(x) if x == 3 + q.len()), 4);
            vk_check(matches!(e.unwrap_parse_err(), Err(x) if x == 3 + q.len()), 5);
        }
        Err(_) => vk_check(false, 3),
    }
}
// params: stage, name length, explicit title?, class (9: any, with any flags).  A method with any name
fn h_lib_json() {
    let (n, len) = (param(0), param(1));
    let c = if param(3) == 9 { sym_class() } else { FullClass::new(false, param(3) % 2 == 0, param(3) % 3 == 0, CLASSES[param(3)].0) };
    let code = CLASSES.iter().position(|x| x.0 == c.class()).unwrap() as u64;
    let name = sym_text(len);
    let pn = if n % 2 == 0 { "x" } else { "1" };
    let mut title = title_of(&name, c, n);
    if param(2) == 1 { title = sym_text(2); title.push(b' '); title.extend_from_slice(STAGES[n - 1].as_bytes()); }
    let flags = c.is_jump() as usize | (c.is_little() as usize) << 1 | (c.is_differential() as usize) << 2;
    let l = lib(&[G { stage: n as u64, class: code, flags, methods: vec![(if param(2) == 1 { Some(&title) } else { None }, &name, pn)] }]);
    let l = match l { Some(l) => l, None => { vk_check(false, 1); return; } };
    match l.get_by_title(as_str(&title)) { Ok(m) => vk_check(is_method(&m, &title, &name, n, pn), 2), Err(_) => vk_check(false, 3) }
    // and again after a round trip
    let j = l.to_json().unwrap();
    let l2 = match MethodLib::from_json(&j) { Ok(l) => l, Err(_) => { vk_check(false, 4); return; } };
    match l2.get_by_title(as_str(&title)) { Ok(m) => vk_check(is_method(&m, &title, &name, n, pn), 5), Err(_) => vk_check(false, 6) }
    vk_check(l2.to_json().unwrap() == j, 7);
    vk_observe(j.len() as u64);
}
// params: -.  Several groups and methods survive a round trip
fn h_lib_json_many() {
    let l = std_lib();
    let k = vk_split(sym_upto(LIB.len() - 1) as u64) as usize;
    let e = &LIB[k];
    let j = l.to_json().unwrap();
    let l2 = MethodLib::from_json(&j).unwrap();
    match l2.get_by_title(e.6) { Ok(m) => vk_check(is_method(&m, e.6.as_bytes(), e.4.as_bytes(), e.0 as usize, e.5), 1), Err(_) => vk_check(false, 2) }
    vk_observe(k as u64);
}
// Any stage and class number: an error when meaningless
fn h_lib_json_numbers() {
    let stage = vk_split(sym(5) as u64);
    let class = vk_split(sym(4) as u64);
    let l = lib(&[G { stage, class, flags: 0, methods: vec![(None, b"N", if stage % 2 == 0 { "x" } else { "1" })] }]);
    vk_check(l.is_some() == (stage > 0 && class < 9), 1);
    if let Some(l) = l {
        vk_cover(1);
        if stage <= 22 {
            let t = title_of(b"N", FullClass::new(false, false, false, CLASSES[class as usize].0), stage as usize);
            vk_check(l.get_by_title(as_str(&t)).is_ok(), 2);
        }
        vk_check(l.to_json().is_ok(), 3);
    } else { vk_cover(2); }
    vk_observe(stage * 16 + class);
}
// params: stage, class.  A title which is the generated one but for the case of its letters is kept as it is
fn h_lib_json_case() {
    let n = param(0);
    let c = FullClass::new(false, param(1) % 2 == 0, param(1) % 3 == 0, CLASSES[param(1)].0);
    let mut title = title_of(b"Ab", c, n);
    let mut i = 0;
    while i < title.len() {
        let flip = (sym(1) == 1) & title[i].is_ascii_alphabetic();
        title[i] = vk_ite(flip, title[i] as u64 ^ 32, title[i] as u64) as u8;
        i += 1;
    }
    let flags = c.is_jump() as usize | (c.is_little() as usize) << 1 | (c.is_differential() as usize) << 2;
    let pn = if n % 2 == 0 { "x" } else { "1" };
    let l = lib(&[G { stage: n as u64, class: param(1) as u64, flags, methods: vec![(Some(&title), b"Ab", pn)] }]).unwrap();
    let l2 = MethodLib::from_json(&l.to_json().unwrap()).unwrap();
    match l.get_by_title(as_str(&title)) { Ok(m) => vk_check(is_method(&m, &title, b"Ab", n, pn), 1), Err(_) => vk_check(false, 2) }
    match l2.get_by_title(as_str(&title)) { Ok(m) => vk_check(is_method(&m, &title, b"Ab", n, pn), 3), Err(_) => vk_check(false, 4) }
    vk_observe(title.len() as u64);
}
// params: stages, suggestions asked for.  A library with methods of many stages, and a text not among them
fn h_lib_suggest_many() {
    let (g, want) = (param(0), param(1));
    let names: Vec<Vec<u8>> = (0..2 * g).map(|i| if i % 2 == 0 { vec![] } else { vec![b'A' + (i % 5) as u8] }).collect();
    let groups: Vec<G> = (0..g).map(|i| G { stage: 2 * i as u64 + 1 + (i as u64 & 1), class: 0, flags: 0,
        methods: (0..2).map(|j| (None, &names[2 * i + j][..], "1")).collect() }).collect();
    let l = lib(&groups).unwrap();
    let titles: Vec<Vec<u8>> = (0..2 * g).map(|i| title_of(&names[i], FullClass::new(false, false, false, CLASSES[0].0), groups[i / 2].stage as usize)).collect();
    let c = vk_split(sym_upto(25) as u64) as u8 + b'a';
    let q = [c, b'o', b' ', c, b'r'];
    match l.get_by_title_with_suggestions(as_str(&q), want) {
        Err(QueryError::NotFound(v)) => {
            vk_check(v.len() == want.min(2 * g), 1);
            let mut used = vec![false; 2 * g];
            let mut worst = 0;
            for (t, d) in &v {
                let k = match titles.iter().position(|x| str_is(t, x)) { Some(k) => k, None => { vk_check(false, 2); return; } };
                vk_check(!used[k], 3);
                used[k] = true;
                let low: Vec<u8> = titles[k].iter().map(|c| lower(*c)).collect();
                vk_check(*d as u64 == distance(&q, &low), 4);
                vk_check(*d >= worst, 5);
                worst = *d;
            }
            let mut k = 0;
            while k < 2 * g {
                let low: Vec<u8> = titles[k].iter().map(|c| lower(*c)).collect();
                if !used[k] && want > 0 { vk_check(distance(&q, &low) >= worst as u64, 6); }
                k += 1;
            }
        }
        _ => vk_check(false, 7),
    }
    vk_observe(c as u64);
}
// params: groups, methods in each, 1 = through a round trip.  Whichever method of a big library is asked for
fn h_lib_big() {
    let (g, k) = (param(0), param(1));
    // groups of the same stage (and every other one of the same class)
    let names: Vec<Vec<u8>> = (0..g * k).map(|i| format!("M{}q", i * 7919 % 1000).into_bytes()).collect();
    let pns: Vec<String> = (0..g * k).map(|i| ["x14", "x12", "14", "x16x12", "36", "x", "12.34"][i % 7].to_owned()).collect();
    let groups: Vec<G> = (0..g).map(|i| G { stage: 6, class: [2, 0, 8][i % 3], flags: 2 * (i / 3 % 2) + 4 * (i / 6),
        methods: (0..k).map(|j| (None, &names[i * k + j][..], &pns[i * k + j][..])).collect() }).collect();
    let mut l = lib(&groups).unwrap();
    if param(2) == 1 { l = MethodLib::from_json(&l.to_json().unwrap()).unwrap(); }
    let x = vk_split(sym_upto(g * k - 1) as u64) as usize;
    let gr = &groups[x / k];
    let c = FullClass::new(false, gr.flags & 2 != 0, gr.flags & 4 != 0, CLASSES[gr.class as usize].0);
    let title = title_of(&names[x], c, 6);
    match l.get_by_title(as_str(&title)) {
        Ok(m) => { vk_check(is_method(&m, &title, &names[x], 6, &pns[x]), 1); }
        Err(_) => vk_check(false, 2),
    }
    vk_observe(x as u64);
}
// Titles with letters beyond ASCII, in upper and lower case
fn h_lib_unicode() {
    const T: [(&str, &str, &str); 6] = [
        ("\u{c9}toile", "\u{c9}toile Bob Minor", "\u{e9}TOILE bob minor"), ("Caf\u{e9}", "Caf\u{e9} Bob Minor", "cAF\u{c9} BOB minor"),
        ("\u{3a9}mega", "\u{3a9}mega Bob Minor", "\u{3c9}mEGA Bob Minor"), ("\u{416}\u{416}", "\u{416}\u{416} Bob Minor", "\u{436}\u{416} bob Minor"),
        ("Sn\u{f8}", "Sn\u{f8} Bob Minor", "sn\u{d8} Bob Minor"), ("\u{df}", "\u{df} Bob Minor", "\u{df} BOB MINOR"),
    ];
    let k = vk_split(sym_upto(T.len() - 1) as u64) as usize;
    let pns = ["x", "12", "14", "16", "34", "36"];
    let mut l = lib(&[G { stage: 6, class: 2, flags: 0, methods: (0..T.len()).map(|i| (None, T[i].0.as_bytes(), pns[i])).collect() }]).unwrap();
    if sym_upto(1) == 1 { l = MethodLib::from_json(&l.to_json().unwrap()).unwrap(); }
    let t = &T[k];
    let up = t.1.to_ascii_uppercase();
    for q in [t.1, t.2, &up] {
        match l.get_by_title(q) { Ok(m) => vk_check(is_method(&m, t.1.as_bytes(), t.0.as_bytes(), 6, pns[k]), 1), Err(_) => vk_check(false, 2) }
    }
    vk_observe(k as u64);
}
// params: text length.  Arbitrary text as place notation: a parse error is reported, never a panic
fn h_lib_bad_pn() {
    let p = sym_text(param(0));
    let l = lib(&[G { stage: 4, class: 2, flags: 0, methods: vec![(None, b"N", as_str(&p))] }]).unwrap();
    let good = PnBlock::parse(as_str(&p), Stage::MINIMUS);
    match l.get_by_title("n bob minimus") {
        Ok(m) => { vk_cover(1); vk_check(match good { Ok(b) => m.first_lead() == &b.to_block_from_rounds(), _ => false }, 1); }
        Err(QueryError::PnParseErr { pn, error }) => { vk_cover(2); vk_check(str_is(pn, &p), 2); vk_check(match good { Err(e) => e == error, _ => false }, 3);
            let e: QueryError<u8> = QueryError::PnParseErr { pn, error: error.clone() }.map_not_found(|_: ()| 3u8);
            vk_check(match e { QueryError::PnParseErr { pn, error: f } => str_is(pn, &p) && f == error, _ => false }, 5);
        }
        Err(_) => vk_check(false, 4),
    }
}
// params: query length, suggestions wanted
fn h_lib_suggest() {
    let titles: [&[u8]; 3] = [b"two", b"a two", b"b one"];
    let shown = ["Two", "A Two", "b One"];
    let l = lib(&[
        G { stage: 2, class: 0, flags: 0, methods: vec![(None, b"", "x"), (None, b"A", "12")] },
        G { stage: 1, class: 0, flags: 1, methods: vec![(Some(b"b One"), b"B", "1")] },
    ]).unwrap();
    let q = sym_ascii(param(0));
    let want = param(1);
    let ql: Vec<u8> = q.iter().map(|c| lower(*c)).collect();
    let d: Vec<u64> = titles.iter().map(|t| distance(&ql, t)).collect();
    let hit = (d[0] == 0) | (d[1] == 0) | (d[2] == 0);
    match l.get_by_title_with_suggestions(as_str(&q), want) {
        Ok(_) => { vk_cover(1); vk_check(hit, 1); }
        Err(QueryError::NotFound(v)) => {
            vk_cover(2);
            vk_check(!hit, 2);
            vk_check(v.len() == want.min(3), 3);
            let mut used = [false; 3];
            let mut i = 0;
            while i < v.len() {
                let k = match shown.iter().position(|s| *s == v[i].0) { Some(k) => k, None => { vk_check(false, 4); return; } };
                vk_check(!used[k], 5);
                used[k] = true;
                vk_check(v[i].1 as u64 == d[k], 6);
                if i > 0 { vk_check(v[i - 1].1 <= v[i].1, 7); }
                i += 1;
            }
            if i > 0 { for k in 0..3 { if !used[k] { vk_check(d[k] >= v[i - 1].1 as u64, 8); } } }
        }
        Err(_) => vk_check(false, 9),
    }
}
}
