//! Methods: plain courses, labels, titles, calls.
use crate::h_pn::sym_pn;
use crate::h_row::{cycle_param, cycle_row, labels, lcm};
use crate::h_ssv::*;
use crate::util::*;
use bellframe::call::{NOTATION_BOB, NOTATION_SINGLE};
use bellframe::method::class::{Class, FullClass, HuntBellClass};
use bellframe::method::{generate_title, LABEL_LEAD_END};

pub const CLASSES: [(Class, &str, bool, Option<HuntBellClass>); 9] = [
    (Class::Principle, "Principle", false, None),
    (Class::Place, "Place", true, Some(HuntBellClass::Plain)),
    (Class::Bob, "Bob", true, Some(HuntBellClass::Plain)),
    (Class::TrebleBob, "Treble Bob", true, Some(HuntBellClass::TrebleDodging)),
    (Class::Delight, "Delight", true, Some(HuntBellClass::TrebleDodging)),
    (Class::Surprise, "Surprise", true, Some(HuntBellClass::TrebleDodging)),
    (Class::TreblePlace, "Treble Place", true, Some(HuntBellClass::TreblePlace)),
    (Class::Alliance, "Alliance", true, Some(HuntBellClass::Alliance)),
    (Class::Hybrid, "Hybrid", false, Some(HuntBellClass::Hybrid)),
];
pub const STAGES: [&str; 22] = [
    "One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus",
    "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two",
];
const LABELS: [Option<&str>; 3] = [None, Some("LE"), Some("H")];
fn lab_of(i: usize) -> Option<String> { lab(i % 3) }
fn lab(i: usize) -> Option<String> { LABELS[i].map(|s| s.to_owned()) }

/// A lead of `k` rows starting from rounds, the other rows arbitrary; `labels[i]` indexes LABELS
fn sym_lead(n: usize, k: usize, m: &mut Model, labels: &[usize]) -> AnnotBlock<Option<String>> {
    m.push((0..n).collect());
    m.extend(sym_rows_few(n, k));
    AnnotBlock::with_annots_from_indices(ssv_of(m, n), |i| lab(labels[i])).unwrap()
}
fn plain_class() -> FullClass { FullClass::new(false, false, false, Class::Bob) }
fn sym_labels(k: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < k { v.push(sym_upto(2)); i += 1; }
    v
}
/// The standard title, built independently
pub fn title_of(name: &[u8], c: FullClass, n: usize) -> Vec<u8> {
    let mut s: Vec<u8> = name.to_vec();
    let mut add = |w: &str| { if !s.is_empty() { s.push(b' '); } s.extend_from_slice(w.as_bytes()); };
    if c.is_jump() { add("Jump"); }
    if c.is_differential() { add("Differential"); }
    let e = CLASSES.iter().find(|x| x.0 == c.class()).unwrap();
    if e.2 { if c.is_little() { add("Little"); } add(e.1); }
    if n <= 22 { add(STAGES[n - 1]); } else { add(&format!("{} bells", n)); }
    s
}
pub fn sym_class() -> FullClass {
    let c = vk_split(sym_upto(8) as u64) as usize;
    let f = vk_split(sym(3) as u64) as usize;
    FullClass::new(f & 1 != 0, f & 2 != 0, f & 4 != 0, CLASSES[c].0)
}

crate::harness! {
// params: stage, lead length, symbolic labels?.  The plain course is the lead repeated until rounds
fn h_plain_course() {
    let (n, k) = (param(0), param(1));
    let labels = if param(2) == 1 { sym_labels(k) } else { (0..k).map(|i| i % 3).collect() };
    let mut m = vec![];
    let lead = sym_lead(n, k, &mut m, &labels);
    let meth = Method::new("Title".to_owned(), "Name".to_owned(), plain_class(), lead);
    let pc = meth.plain_course();
    let len = pc.len();
    vk_check(len % k == 0 && len >= k && pc.stage().num_bells() == n, 1);
    let mut cur: Vec<usize> = (0..n).collect();
    let mut i = 0;
    let mut ok = true;
    for ar in pc.annot_rows() {
        let j = i % k;
        ok &= row_is(ar.row(), &compose(&cur, &m[j]));
        vk_check(ar.annot().sub_lead_idx() == j, 2);
        vk_check(ar.annot().label() == LABELS[labels[j]], 3);
        i += 1;
        if i % k == 0 {
            cur = compose(&cur, &m[k]);
            // comes round exactly once: at the very end
            let rounds: Vec<usize> = (0..n).collect();
            let mut r = true;
            let mut q = 0;
            while q < n { r &= cur[q] == rounds[q]; q += 1; }
            ok &= r == (i == len);
        }
    }
    vk_check(ok, 4);
    vk_check(i == len, 5);
    vk_check(pc.leftover_row().is_rounds(), 6);
    vk_cover_if(len > k, 1);
    vk_cover_if(len == k, 2);
    vk_observe(len as u64);
}
// params: stage, lead length, bits of the index
fn h_plain_index() {
    let (n, k) = (param(0), param(1));
    let labels = vec![0; k];
    let mut m = vec![];
    let lead = sym_lead(n, k, &mut m, &labels);
    let copy = lead.clone();
    let meth = Method::new("Title".to_owned(), "Name".to_owned(), plain_class(), lead);
    vk_check(meth.stage().num_bells() == n && meth.lead_len() == k, 1);
    vk_check(row_is(meth.lead_head(), &m[k]), 2);
    vk_check(meth.first_lead() == &copy, 3);
    vk_check(meth.name() == "Name" && meth.title() == "Title", 4);
    // in long leads, around the ends of the first few leads
    let x = if k > 40 { vk_split([0, 1, k / 2, 33, k - 1, k, k + 1, 2 * k - 1, 2 * k, 3 * k + 1, 7 * k, 10 * k - 1][sym_upto(11)] as u64) as usize } else { vk_concrete(sym(param(2) as u64) as u64) as usize };
    let mut cur: Vec<usize> = (0..n).collect();
    let mut i = 0;
    while i < x / k { cur = compose(&cur, &m[k]); i += 1; }
    let r = meth.row_in_plain_course(x);
    vk_check(row_is(&r, &compose(&cur, &m[x % k])), 5);
    observe_row(&r);
    // a row of the first lead, or (exactly at the end) the lead head; anything later panics
    vk_panic_ok(x > k);
    let r = meth.row_in_plain_lead(x);
    vk_check(x <= k, 6);
    vk_check(row_is(r, &m[x]), 7);
}
// params: lead length, bits of the index, bells labelled arbitrarily, cycle lengths of the lead head (until 99)
fn h_plain_cycles() {
    let k = param(0);
    let c = cycle_param(3);
    let (lab, n) = labels(&c, param(2));
    let mut m: Model = vec![(0..n).collect()];
    let mut i = 1;
    while i < k { m.push((0..n).map(|p| (p + i) % n).collect()); i += 1; }
    m.push(cycle_row(&c, &lab, 1));
    let lead = AnnotBlock::with_annots_from_indices(ssv_of(&m, n), |i| lab_of(i)).unwrap();
    let meth = Method::new("Title".to_owned(), "Name".to_owned(), plain_class(), lead);
    let order = lcm(&c);
    let x = vk_split(sym(param(1) as u64) as u64) as usize;
    vk_check(row_is(&meth.row_in_plain_course(x), &compose(&cycle_row(&c, &lab, (x / k) % order), &m[x % k])), 1);
    if x == 0 {
        let pc = meth.plain_course();
        vk_check(pc.len() == k * order, 2);
        let mut ok = true;
        let mut i = 0;
        for ar in pc.annot_rows() {
            ok &= row_is(ar.row(), &compose(&cycle_row(&c, &lab, i / k), &m[i % k]));
            vk_check(ar.annot().sub_lead_idx() == i % k && ar.annot().label() == lab_of(i % k).as_deref(), 3);
            i += 1;
        }
        vk_check(ok && i == k * order, 4);
        vk_check(pc.leftover_row().is_rounds(), 5);
    }
    vk_observe(x as u64);
}
// params: stage, lead length, operations
fn h_labels() {
    let (n, k) = (param(0), param(1));
    // in long leads, one row has a label and few rows' labels are changed
    let mut labels = if k <= 8 { sym_labels(k) } else { vec![0; k] };
    if k > 8 { let at = sym_upto(k - 1); labels[at] = 1; }
    let mut m = vec![];
    let lead = sym_lead(n, k, &mut m, &labels);
    let mut meth = Method::new("T".to_owned(), "N".to_owned(), plain_class(), lead);
    let mut op = 0;
    while op < param(2) {
        let i = if k <= 8 { sym_upto(k - 1) } else { [0, k / 2, k - 1][sym_upto(2)] };
        let l = sym_upto(3);
        if l == 3 { vk_cover(1); meth.set_lead_end_label(); labels[0] = 1; } else { meth.set_label(i, lab(l)); labels[i] = l; }
        op += 1;
    }
    let mut i = 0;
    while i < k { vk_check(meth.get_label(i) == LABELS[labels[i]], 1); i += 1; }
    for l in ["LE", "H", "none", ""] {
        let mut it = meth.label_indices(l);
        let mut i = 0;
        while i < k { if LABELS[labels[i]] == Some(l) { vk_check(it.next() == Some(i), 2); } i += 1; }
        vk_check(it.next().is_none(), 3);
    }
    let mut i = 0;
    while i <= k { vk_check(match meth.first_lead().get_row(i) { Some(r) => row_is(r, &m[i]), None => false }, 4); i += 1; }
    vk_check(LABEL_LEAD_END == "LE", 5);
    vk_panic_ok(true);
    if sym(1) == 0 { meth.set_label(k, None); } else { meth.get_label(k); }
    vk_check(false, 6);
}
// params: name length, stage.  Any class
fn h_title() {
    let (len, n) = (param(0), param(1));
    let name = sym_ascii(len);
    let c = sym_class();
    let t = generate_title(as_str(&name), c, Stage::new(n));
    let want = title_of(&name, c, n);
    vk_check(str_is(&t, &want), 1);
    vk_observe(t.len() as u64);
}
fn h_class_display() {
    let c = sym_class();
    let e = CLASSES.iter().find(|x| x.0 == c.class()).unwrap();
    let mut want = String::new();
    if c.is_jump() { want.push_str("Jump "); }
    if c.is_differential() { want.push_str("Differential "); }
    if c.is_little() { want.push_str("Little "); }
    want.push_str(e.1);
    vk_check(c.to_string() == want, 1);
    vk_check(c.class().to_string() == e.1 && c.class().name() == e.1, 2);
    vk_check(c.class().name_in_title() == if e.2 { Some(e.1) } else { None }, 3);
    vk_check(c.class().hunt_bell_class() == e.3, 4);
    vk_check(c.class().is_plain() == (e.3 == Some(HuntBellClass::Plain)), 5);
    vk_check(c.class().is_treble_dodging() == (e.3 == Some(HuntBellClass::TrebleDodging)), 6);
    vk_check(c.class().is_symmetric_hunter() == e.2, 7);
    vk_observe(want.len() as u64);
}
// params: stage, changes, bits, constructor.  The constructors which classify and name
fn h_method_new() {
    let (n, k) = (param(0), param(1));
    let mut pns = vec![];
    let mut text = String::new();
    let mut i = 0;
    while i < k {
        let (p, _) = sym_pn(n, param(2) as u64);
        if i > 0 { text.push('.'); }
        text.push_str(&p.to_string());
        pns.push(p);
        i += 1;
    }
    let block = PnBlock::from_vec(pns).unwrap();
    let lead: AnnotBlock<Option<String>> = block.to_block_from_rounds();
    let class = FullClass::classify(&lead);
    let name = vec![b'N', sym(7) as u8];
    let s = as_str(&name).to_owned();
    let mut want_label: Vec<Option<&str>> = vec![None; k];
    let meth = match param(3) {
        0 => Method::with_name(s, lead.clone()),
        1 => { want_label[k - 1] = Some("LE"); Method::with_lead_end(s, &block) }
        _ => match Method::from_place_not_string(s, Stage::new(n), &text) {
            Ok(m) => m,
            Err(_) => { vk_check(false, 1); return; }
        },
    };
    vk_check(str_is(meth.name(), &name), 2);
    vk_check(str_is(meth.title(), &title_of(&name, class, n)), 3);
    vk_check(meth.lead_len() == k && meth.stage().num_bells() == n, 4);
    vk_check(meth.first_lead().row_vec() == lead.row_vec(), 5);
    let mut i = 0;
    while i < k { vk_check(meth.get_label(i) == want_label[i], 6); i += 1; }
    observe_row(meth.lead_head());
}
// params: stage, changes, bits
fn h_call() {
    let (n, k) = (param(0), param(1));
    let mut pns = vec![];
    let mut i = 0;
    let all = crate::h_pn::all_pns(n.min(8));
    while i < k {
        // (in long calls only the first, the seventeenth and the last change vary)
        if k > 9 && i != 0 && i != 16 && i + 1 != k { pns.push(crate::h_pn::fixed_pn(n, i, &all).0); }
        else { let (p, _) = sym_pn(n, param(2) as u64); pns.push(p); }
        i += 1;
    }
    let pb = PnBlock::from_vec(pns).unwrap();
    let blk: Block = pb.to_block_from_rounds();
    let covers = sym(64);
    let ch = sym_char();
    let (c, notation, loc, cov) = match sym_upto(2) {
        0 => (Call::le_bob(pb), '-', "LE", k),
        1 => (Call::le_single(pb), 's', "LE", k),
        _ => (Call::new(ch, "Mid".to_owned(), covers, blk.clone()), ch, "Mid", covers),
    };
    vk_check(c.notation() == notation, 1);
    vk_check(c.location() == loc, 2);
    vk_check(c.cover_len() == cov, 3);
    vk_check(c.len() == k && c.stage().num_bells() == n, 4);
    vk_check(c.block() == &blk, 5);
    vk_check(c.transposition() == blk.leftover_row(), 6);
    vk_check(c.effective_stage() == blk.effective_stage(), 7);
    vk_check(NOTATION_BOB == '-' && NOTATION_SINGLE == 's', 8);
    observe_row(c.transposition());
}
}
