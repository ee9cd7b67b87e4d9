//! Method classification against an independent, branch-free statement of the Framework's rules.
use crate::h_method::CLASSES;
use crate::h_row::{cycle_param, cycle_row, labels};
use crate::h_ssv::*;
use crate::util::*;
use bellframe::method::class::{Class, FullClass};

// dominance order of hunt bell classes
const PLAIN: u64 = 0;
const DODGE: u64 = 1;
const TPLACE: u64 = 2;
const ALLIANCE: u64 = 3;
const HYBRID: u64 = 4;

/// `rows[i][p]`: who is in place p; `pos[i][b]`: where is b.  A lead of `k` changes starting from rounds.
struct Lead { n: usize, k: usize, rows: Model, pos: Model }

/// One change: `s[j]` swaps places j and j+1 (never two adjacent ones)
fn change(l: &mut Lead, s: &[bool]) {
    let n = l.n;
    let row = l.rows.last().unwrap().clone();
    let pos = l.pos.last().unwrap().clone();
    let mut r2 = vec![];
    let mut j = 0;
    while j < n {
        let up = if j + 1 < n { vk_ite(s[j], row[j + 1] as u64, row[j] as u64) } else { row[j] as u64 };
        let v = if j > 0 { vk_ite(s[j - 1], row[j - 1] as u64, up) } else { up };
        r2.push(v as usize);
        j += 1;
    }
    let mut p2 = vec![];
    let mut b = 0;
    while b < n {
        let mut v = 0u64;
        let mut j = 0;
        while j < n { v = vk_ite(r2[j] == b, j as u64, v); j += 1; }
        p2.push(v as usize);
        b += 1;
    }
    let _ = pos;
    l.rows.push(r2);
    l.pos.push(p2);
    l.k += 1;
}
fn b2u(b: bool) -> u64 { vk_ite(b, 1, 0) }

impl Lead {
    fn new(n: usize) -> Lead { Lead { n, k: 0, rows: vec![(0..n).collect()], pos: vec![(0..n).collect()] } }
    fn block(&self) -> Block { AnnotBlock::with_default_annots(ssv_of(&self.rows, self.n)) }
    /// The classification: (little, differential, class code as in CLASSES)
    fn classify(&self) -> (bool, bool, u64) {
        let (n, k) = (self.n, self.k);
        let next = &self.pos[k];
        // length of the cycle of each place bell
        let mut len = vec![0u64; n];
        let mut img: Model = vec![(0..n).collect()];
        let mut m = 1;
        while m <= n + 2 {
            let mut v = vec![];
            let mut b = 0;
            while b < n { v.push(sel(next, img[m - 1][b])); b += 1; }
            img.push(v);
            m += 1;
        }
        let mut b = 0;
        while b < n {
            let mut m = n;
            while m > 0 { len[b] = vk_ite(img[m][b] == b, m as u64, len[b]); m -= 1; }
            b += 1;
        }
        // working bells in cycles of different lengths
        let mut differential = false;
        let mut a = 0;
        while a < n {
            let mut b = 0;
            while b < a { differential |= (len[a] > 1) & (len[b] > 1) & (len[a] != len[b]); b += 1; }
            a += 1;
        }
        // place of place bell b, i rows into its course
        let at = |b: usize, i: usize| -> usize { sel(&self.pos[i % k], img[i / k][b]) };
        let mut best = 9u64;
        let mut little = false;
        let mut any_hunt = false;
        let mut cls = vec![];
        let mut b = 0;
        while b < n {
            let hunt = len[b] == 1;
            let mut count = vec![0u64; n];
            let mut i = 0;
            while i < k {
                let mut q = 0;
                while q < n { count[q] += b2u(self.pos[i][b] == q); q += 1; }
                i += 1;
            }
            let mut visited = 0u64;
            let mut twice = true;
            let mut equal = true;
            let mut q = 0;
            while q < n {
                visited += b2u(count[q] > 0);
                twice &= (count[q] == 0) | (count[q] == 2);
                let mut r = 0;
                while r < q { equal &= (count[q] == 0) | (count[r] == 0) | (count[q] == count[r]); r += 1; }
                q += 1;
            }
            let mut places = 0u64;
            let mut i = 0;
            while i < k { places += b2u(self.pos[i][b] == self.pos[(i + 1) % k][b]); i += 1; }
            // symmetric about some point of the circle
            let mut pal = false;
            let mut axis = 0;
            while axis < k {
                let mut same = true;
                let mut i = 0;
                while i < k { same &= self.pos[i][b] == self.pos[(2 * k + axis - 1 - i) % k][b]; i += 1; }
                pal |= same;
                axis += 1;
            }
            let c = vk_ite(visited == 1, TPLACE, vk_ite(twice, PLAIN, vk_ite(!pal, HYBRID, vk_ite(!equal, ALLIANCE,
                vk_ite(places > 2, TPLACE, vk_ite(places == 2, DODGE, HYBRID))))));
            let c = vk_ite(hunt, c, 9);
            let lit = visited != n as u64;
            little = ((c < best) & lit) | ((c == best) & little & lit) | ((c > best) & little);
            best = vk_ite(c < best, c, best);
            any_hunt |= hunt;
            cls.push(c);
            b += 1;
        }
        little &= any_hunt;
        // plain: Bob iff some other bell turns without making a place
        let mut bob = false;
        let mut b = 0;
        while b < n {
            let other = cls[b] != best;
            let mut i = 0;
            while i < k {
                let (x, y, z) = (at(b, i), at(b, i + 1), at(b, i + 2));
                bob |= other & (x == z) & ((x + 1 == y) | (y + 1 == x));
                i += 1;
            }
            b += 1;
        }
        // treble dodging: the changes in which a dominant hunt bell passes from one dodging position to another
        let mut some_with = false;
        let mut some_without = false;
        let mut i = 0;
        while i < k {
            let mut cross = false;
            let mut b = 0;
            while b < n {
                let mut min = n as u64;
                let mut j = 0;
                while j < k { let p = self.pos[j][b] as u64; min = vk_ite(p < min, p, min); j += 1; }
                let (x, y) = (self.pos[i][b] - min as usize, self.pos[(i + 1) % k][b] - min as usize);
                cross |= (cls[b] == best) & ((x >> 1) != (y >> 1));
                b += 1;
            }
            let mut internal = false;
            let mut q = 1;
            while q + 1 < n { internal |= self.rows[i][q] == self.rows[i + 1][q]; q += 1; }
            some_with |= cross & internal;
            some_without |= cross & !internal;
            i += 1;
        }
        let td = vk_ite(some_with & some_without, 4, vk_ite(some_with, 5, 3));
        let code = vk_ite(best == PLAIN, vk_ite(bob, 2, 1), vk_ite(best == DODGE, td, vk_ite(best == TPLACE, 6,
            vk_ite(best == ALLIANCE, 7, vk_ite(best == HYBRID, 8, 0)))));
        (little, differential, code)
    }
}
fn check_class(l: &Lead) {
    let (little, differential, code) = l.classify();
    let c = FullClass::classify(&l.block());
    let got = CLASSES.iter().position(|x| x.0 == c.class()).unwrap() as u64;
    vk_cover(got);
    vk_cover_if(c.is_little(), 10);
    vk_cover_if(c.is_differential(), 11);
    vk_check(got == code, 1);
    vk_check(c.is_little() == little, 2);
    vk_check(c.is_differential() == differential, 3);
    vk_check(!c.is_jump(), 4);
    vk_observe(got * 4 + c.is_little() as u64 * 2 + c.is_differential() as u64);
    let _ = Class::Bob;
}
fn sym_change(n: usize) -> Vec<bool> {
    let mut s = vec![];
    let mut j = 0;
    while j + 1 < n { s.push(sym(1) == 1); if j > 0 { vk_assume(!(s[j] & s[j - 1])); } j += 1; }
    s
}

crate::harness! {
// params: stage, changes.  Every lead of that length
fn h_classify() {
    let (n, k) = (param(0), param(1));
    let mut l = Lead::new(n);
    let mut i = 0;
    while i < k { let s = sym_change(n); change(&mut l, &s); i += 1; }
    check_class(&l);
}
// params: stage, dodging positions, mask of the changes in which the other bells are free
fn h_classify_dodging() {
    let (n, cells) = (param(0), param(1));
    let mut half: Vec<usize> = vec![];
    let mut c = 0;
    while c < cells { half.extend_from_slice(&[2 * c, 2 * c + 1, 2 * c, 2 * c + 1]); c += 1; }
    let mut path = half.clone();
    path.extend(half.iter().rev());
    classify_path(n, &path, vk_param(2));
}
// params: stage, places hunted through, mask as above.  The treble plain hunts
fn h_classify_hunting() {
    let (n, m) = (param(0), param(1));
    let mut path: Vec<usize> = (0..m).collect();
    path.extend((0..m).rev());
    classify_path(n, &path, vk_param(2));
}
// params: bells labelled arbitrarily, cycle lengths (until 99).  A lead, found by sorting, with such a lead head
fn h_classify_cycles() {
    let c = cycle_param(1);
    let (lab, n) = labels(&c, param(0));
    let head = cycle_row(&c, &lab, 1);
    let mut l = Lead::new(n);
    let mut i = 0;
    while i < n {
        // swap the pairs which are the wrong way round
        let row = l.rows.last().unwrap().clone();
        let at = |b: usize| { let mut r = 0u64; let mut j = 0; while j < n { r = vk_ite(head[j] == b, j as u64, r); j += 1; } r };
        let s: Vec<bool> = (0..n - 1).map(|j| j % 2 == i % 2 && at(row[j]) > at(row[j + 1])).collect();
        change(&mut l, &s);
        i += 1;
    }
    check_class(&l);
}
// params: stage, first place, dodging positions (0: plain hunting through as many places as given next), places, row of the
// lead at which it starts, which changes the other bells are free in (bits: 1 the first, 2 the middle, 4 the last).  Any
// bell may be the hunt bell, and the lead may start anywhere in its path
fn h_classify_rotated() {
    let (n, from, cells, m, start) = (param(0), param(1), param(2), param(3), param(4));
    let mut half: Vec<usize> = vec![];
    let mut c = 0;
    while c < cells { for p in [0, 1, 0, 1] { half.push(from + 2 * c + p); } c += 1; }
    if cells == 0 { half = (from..from + m).collect(); }
    let mut path = half.clone();
    path.extend(half.iter().rev());
    path.rotate_left(start);
    let k = path.len();
    let mut mask = 0u64;
    for (bit, i) in [(0, 0), (1, k / 2 - 1), (2, k - 1)] { if param(5) >> bit & 1 == 1 { if i < 64 { mask |= 1 << i; } } }
    classify_path(n, &path, mask);
}
// params: stage, mask, the treble's path
fn h_classify_treble() {
    let mut path = vec![];
    let mut i = 2;
    while vk_param(i) < 99 { path.push(param(i)); i += 1; }
    classify_path(param(0), &path, vk_param(1));
}
}
fn classify_path(n: usize, path: &[usize], mask: u64) {
    let k = path.len();
    let mut l = Lead::new(n);
    let mut i = 0;
    while i < k {
        let (a, b) = (path[i], path[(i + 1) % k]);
        let mut s = vec![];
        let mut j = 0;
        while j + 1 < n {
            let free = i < 64 && (mask >> i) & 1 == 1;
            let x = if j == a.min(b) && a != b { true } else if j == a || j + 1 == a || j == b || j + 1 == b { false }
                else if free { sym(1) == 1 } else {
                    // fixed: swap pairs greedily from the bottom
                    !(j > 0 && s[j - 1])
                };
            s.push(x);
            if free && j > 0 { vk_assume(!(s[j] & s[j - 1])); }
            j += 1;
        }
        change(&mut l, &s);
        i += 1;
    }
    check_class(&l);
}