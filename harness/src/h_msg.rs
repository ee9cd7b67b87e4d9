//! What error messages and debug forms say.
use crate::h_ssv::*;
use crate::util::*;
use bellframe::place_not::{InvalidPnBlockError, ParseError, PnBlockParseError};
use bellframe::row::same_stage_vec::ParseError as RowsError;
use bellframe::music::{Regex, RegexElem};

const STAGE_NAMES: [&str; 22] = ["One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen",
    "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two"];
struct Text(Vec<u8>);
impl Text {
    fn new() -> Self { Text(vec![]) }
    fn s(mut self, t: &str) -> Self { self.0.extend_from_slice(t.as_bytes()); self }
    fn num(self, n: usize) -> Self { let t = n.to_string(); self.s(&t) }
    fn bell(mut self, b: usize) -> Self {
        self.0.push(name(b));
        self
    }
    fn stage(self, n: usize) -> Self { if n <= 22 { self.s(STAGE_NAMES[n - 1]) } else { self.num(n).s(" bells") } }
    fn row(mut self, r: &[usize]) -> Self { for b in r { self = self.bell(*b); } self }
    fn is(&self, t: &str) -> bool { str_is(t, &self.0) }
}
fn name(b: usize) -> u8 {
    let mut c = 0;
    let mut j = 0;
    while j < 33 { c = vk_ite(b == j, NAMES[j] as u64, c); j += 1; }
    c as u8
}
/// Any bell with a name
fn sym_named() -> usize { let b = sym(6); vk_assume(b < 33); b }
/// One of some numbers (lines, positions, stages)
fn sym_number() -> usize { [1, 2, 3, 7, 9, 10, 16, 22, 23, 100, 12345, 18][vk_split(sym_below(12) as u64) as usize] }
fn sym_below(n: usize) -> usize { let x = sym(width(n)); vk_assume(x < n); x }
fn pn_error(kind: usize) -> (ParseError, Text) {
    let (a, b, n) = (sym_named(), sym_named(), if kind < 2 { sym_number() } else { 0 });
    match kind {
        0 => (ParseError::OddStageCross(Stage::new(n)), Text::new().s("Cross notation for odd stage ").stage(n)),
        1 => (ParseError::PlaceOutOfStage { place: a, stage: Stage::new(n) }, Text::new().s("Place '").bell(a).s("' is out stage ").stage(n)),
        2 => {
            vk_assume(a < b);
            let gap = vk_split((b - a - 1) as u64) as usize;
            (ParseError::AmbiguousPlacesBetween { p: a, q: b }, Text::new().s("Ambiguous gap of ").num(gap).s(" bells between places '").bell(a).s("' and '").bell(b).s("'."))
        }
        3 => (ParseError::NoPlacesGiven, Text::new().s("No places given.  Use 'x' or '-' for a cross.")),
        _ => (ParseError::DuplicatePlace(a), Text::new().s("Place '").bell(a).s("' is duplicated")),
    }
}
fn row_error(kind: usize) -> (InvalidRowError, Text) {
    let (b, n) = (sym_named(), if kind == 2 { sym_number() } else { 0 });
    let bell = Bell::from_index(b);
    match kind {
        0 => (InvalidRowError::NoBells, Text::new().s("Row would have no bells")),
        1 => (InvalidRowError::DuplicateBell(bell), Text::new().s("Bell '").bell(b).s("' appears twice.")),
        2 => (InvalidRowError::BellOutOfStage(bell, Stage::new(n)), Text::new().s("Bell '").bell(b).s("' is not within stage ").stage(n)),
        _ => (InvalidRowError::MissingBell(bell), Text::new().s("Bell '").bell(b).s("' is missing")),
    }
}

crate::harness! {
// params: which error
fn h_msg_row() {
    let (e, t) = row_error(param(0));
    let s = e.to_string();
    vk_check(t.is(&s), 1);
    vk_observe(s.len() as u64);
}
// params: which error
fn h_msg_pn() {
    let (e, t) = pn_error(param(0));
    let s = e.to_string();
    vk_check(t.is(&s), 1);
    vk_observe(s.len() as u64);
}
// params: 0 empty / 1 '+' / 2 a place notation, which error in it
fn h_msg_pnblock() {
    let at = sym_number();
    let (e, t) = match param(0) {
        0 => (PnBlockParseError::EmptyBlock, Text::new().s("`PnBlock`s can't be empty.")),
        1 => (PnBlockParseError::PlusNotAtBlockStart(at), Text::new().s("'+' at index ").num(at).s(" is not at the start of a block.")),
        _ => { let (e, t) = pn_error(param(1)); (PnBlockParseError::PnError(at..at + 5, e), Text::new().s("Error parsing PN at index ").num(at).s(": ").s(as_str(&t.0))) }
    };
    let s = e.to_string();
    vk_check(t.is(&s), 1);
    vk_observe(s.len() as u64);
}
// params: 0 no stage / 1 a bad row / 2 other stage, which error of a row
fn h_msg_rows() {
    let line = sym_number();
    let (a, b) = if param(0) == 2 { (sym_number(), [8, 33, 2][vk_split(sym_below(3) as u64) as usize]) } else { (0, 0) };
    let (e, t) = match param(0) {
        0 => (RowsError::ZeroStage, Text::new().s("Can't make a `SameStageVec` with stage 0")),
        1 => { let (e, t) = row_error(param(1)); (RowsError::InvalidRow { line_num: line, err: e }, Text::new().s("Error parsing row on line ").num(line).s(": ").s(as_str(&t.0))) }
        _ => (RowsError::IncompatibleStages { line_num: line, first_stage: Stage::new(a), different_stage: Stage::new(b) },
              Text::new().s("Row on line ").num(line).s(" has different stage (").stage(b).s(") to the first stage (").stage(a).s(")")),
    };
    let s = e.to_string();
    vk_check(t.is(&s), 1);
    vk_check(block::ParseError::Other(e).to_string() == s, 2);
    vk_check(block::ParseError::ZeroLengthBlock.to_string() == "Blocks must contain at least one row", 3);
    vk_observe(s.len() as u64);
}
// params: stage, other stage.  Mismatches, reported by the operations which find them
fn h_msg_stages() {
    let (n, m) = (param(0), param(1));
    let (a, b) = (row_of(&sym_perm(n)), row_of(&sym_perm(m)));
    let e = match a.mul_result(&b) { Err(e) => e, Ok(_) => { vk_check(false, 1); return; } };
    vk_check(Text::new().s("Incompatible stages: ").stage(n).s(" (lhs), ").stage(m).s(" (rhs)").is(&e.to_string()), 2);
    let mut out = row_of(&(0..n).collect::<Vec<_>>());
    match a.mul_into_row(&b, &mut out) { Err(e) => vk_check(Text::new().s("Can't multiply stage ").stage(n).s(" with ").stage(m).is(&e.to_string()), 3), Ok(_) => vk_check(false, 4) }
    let mut out = row_of(&(0..m).collect::<Vec<_>>());
    match a.mul_into_row(&a, &mut out) { Err(e) => vk_check(Text::new().s("Can't write stage ").stage(n).s(" into ").stage(m).is(&e.to_string()), 5), Ok(_) => vk_check(false, 6) }
    let (p, q) = (PlaceNot::parse("1", Stage::new(n)), PlaceNot::parse("1", Stage::new(m)));
    if let (Ok(p), Ok(q)) = (p, q) {
        let at = match param(2) { 0 => 1 + vk_split(sym_below(3) as u64) as usize, at => at };
        let mut v = vec![p.clone(); at];
        v.push(q);
        v.push(p);
        match PnBlock::from_vec(v) {
            Err(e) => {
                vk_check(matches!(e, InvalidPnBlockError::IncompatibleStages(i, _) if i == at), 7);
                vk_check(Text::new().s("Incompatible stages: First PN has stage ").stage(n).s(", whereas the ").num(at).s("th has ").stage(m).is(&e.to_string()), 8);
            }
            Ok(_) => vk_check(false, 9),
        }
    }
    vk_check(match PnBlock::from_vec(vec![]) { Err(e) => e.to_string() == "`PnBlock`s can't be empty.", Ok(_) => false }, 10);
    observe_row(&a);
}
// params: bells.  Debug forms show the contents
fn h_debug_row() {
    let n = param(0);
    let a = sym_perm(n);
    let r = row_of(&a);
    let t = Text::new().row(&a);
    vk_check(Text::new().s("RowBuf(").row(&a).s(")").is(&format!("{:?}", r)), 1);
    vk_check(Text::new().s("Row(").row(&a).s(")").is(&format!("{:?}", r.as_row())), 2);
    vk_check(t.is(&format!("{:?}", DbgRow(&r))), 3);
    vk_check(Text::new().s("Bell(").bell(a[0]).s(")").is(&format!("{:?}", r[0])), 4);
    let m = Mask::full_row(&r);
    vk_check(Text::new().s("Mask(").row(&a).s(")").is(&format!("{:?}", m)), 5);
    let re: Regex = m.into();
    vk_check(Text::new().s("Regex(").row(&a).s(")").is(&format!("{:?}", re)), 6);
    let re = Regex::from_vec(vec![RegexElem::Glob, RegexElem::Bell(Bell::from_index(a[0])), RegexElem::Any]);
    vk_check(Text::new().s("Regex(*").bell(a[0]).s("x)").is(&format!("{:?}", re)), 7);
    observe_row(&r);
}
// params: bells, rows
fn h_debug_rows() {
    let (n, k) = (param(0), param(1));
    let m = sym_rows(n, k);
    let v = ssv_of(&m, n);
    let mut t = Text::new().s("SameStageVec");
    if k > 0 { t = t.s("("); for (i, r) in m.iter().enumerate() { t = t.s(if i > 0 { ", " } else { "" }).row(r); } t = t.s(")"); }
    vk_check(t.is(&format!("{:?}", v)), 1);
    if k > 0 {
        let b = AnnotBlock::with_annots_from_indices(v, |i| 10 * i + 3).unwrap();
        let mut t = Text::new().s("AnnotBlock(");
        for (i, r) in m[..k - 1].iter().enumerate() { t = t.row(r).s(": ").num(10 * i + 3).s(", "); }
        vk_check(t.row(&m[k - 1]).s(")").is(&format!("{:?}", b)), 2);
        observe_row(b.leftover_row());
    }
}
// params: places, stage
fn h_debug_pn() {
    let (k, n) = (param(0), param(1));
    let v = sym_vec(k, width(n + 1));
    let mut i = 1;
    let mut up = true;
    while i < k { up &= v[i - 1] < v[i]; i += 1; }
    vk_assume(up);
    if let Ok(p) = unsafe { PlaceNot::from_sorted_slice(&v, Stage::new(n)) } {
        let s = p.to_string();
        let t = Text::new().s("PlaceNot(").s(&s).s(")");
        vk_check(t.is(&format!("{:?}", p)), 1);
        vk_observe(s.len() as u64);
    }
}
// params: stage.  The named constants
fn h_stage_constants() {
    let all = [(Stage::ONE, "ONE"), (Stage::TWO, "TWO"), (Stage::SINGLES, "SINGLES"), (Stage::MINIMUS, "MINIMUS"), (Stage::DOUBLES, "DOUBLES"), (Stage::MINOR, "MINOR"), (Stage::TRIPLES, "TRIPLES"),
        (Stage::MAJOR, "MAJOR"), (Stage::CATERS, "CATERS"), (Stage::ROYAL, "ROYAL"), (Stage::CINQUES, "CINQUES"), (Stage::MAXIMUS, "MAXIMUS"), (Stage::SEXTUPLES, "SEXTUPLES"),
        (Stage::FOURTEEN, "FOURTEEN"), (Stage::SEPTUPLES, "SEPTUPLES"), (Stage::SIXTEEN, "SIXTEEN")];
    let n = vk_split(sym(8) as u64) as usize;
    vk_assume(n > 0);
    let s = Stage::new(n);
    if n <= 16 {
        vk_check(all[n - 1].0 == s, 1);
        vk_check(Text::new().s("Stage::").s(all[n - 1].1).is(&format!("{:?}", s)), 2);
    } else {
        vk_check(Text::new().s("Stage(").num(n).s(")").is(&format!("{:?}", s)), 3);
    }
    vk_check(Text::new().stage(n).is(&s.to_string()), 4);
    vk_check(Bell::TREBLE.index() == 0 && Bell::TREBLE.number() == 1, 5);
    vk_observe(n as u64);
}
}
