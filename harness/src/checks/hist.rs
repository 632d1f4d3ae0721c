//! P01: answers do not depend on what was asked before. Histories of calls are run in processes
//! that start from the library's initial state (fork), and compared with the answers the same call
//! gives when it is the first one of a fresh process, or of another history.
use super::*;
use crate::core::*;
use crate::ops::*;
use crate::ucd::{chars, hex};
use seshat::unicode::Segmentation;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
}
const NCP: usize = 0x110000;
const SH: usize = 8;
const NS: usize = STR_OPS.len();
const BEHIND: u32 = 100;
const FAIL: u32 = 0xFFFF_FFFD;

fn shared(words: usize) -> *mut u32 {
    let p = unsafe { mmap(std::ptr::null_mut(), words * 4, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u32
}

/// Runs f in a forked process; true when it ended normally.
fn isolated(limit_s: u32, f: impl FnOnce()) -> bool {
    unsafe {
        let p = fork();
        assert!(p >= 0, "fork");
        if p == 0 {
            alarm(limit_s);
            f();
            _exit(0);
        }
        let mut st = 0;
        loop {
            let r = waitpid(p, &mut st, 0);
            if r == p {
                return st == 0;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// method index * 2 + (0 CodePoint, 1 char), number
    M(u32, u32),
    S(u32, Vec<u32>),
    /// an iterator over a text, with another call made between its steps
    I(Vec<u32>, Box<Op>),
    /// (k below BEHIND) a text of which some clusters are taken; then, in the same buffer, what follows them is
    /// replaced by another text, and that is asked; (k from BEHIND on) operation k - BEHIND on a
    /// text, then another text that lies directly behind it in the same buffer
    E(Vec<u32>, u32, u32, Vec<u32>),
    /// a call made by a thread of its own
    T(Box<Op>),
    /// break_graphemes of a text by two threads: the iterator is handed over after some steps
    H(Vec<u32>, u32),
}
/// what Op::I answers when nothing disturbs anything
fn both(text: u32, inner: u32) -> u32 {
    if text == FAIL || inner == FAIL {
        FAIL
    } else {
        text ^ inner.rotate_left(11)
    }
}
fn ms() -> &'static Vec<Method> {
    static M: OnceLock<Vec<Method>> = OnceLock::new();
    M.get_or_init(|| {
        // and the normalization forms of texts of one character
        let mut v = methods();
        fn one(op: u32, c: u32) -> u32 {
            char::from_u32(c).map_or(FAIL - 1, |c| str_op(op, c.encode_utf8(&mut [0; 4])))
        }
        v.push(Method { name: "to_nfd (as char: to_nfkd) of the text of", cp: |c| one(0, c), ch: |c| one(2, c) });
        v.push(Method { name: "to_nfc (as char: to_nfkc) of the text of", cp: |c| one(1, c), ch: |c| one(3, c) });
        v
    })
}
fn call(mv: u32, c: u32) -> u32 {
    let m = &ms()[mv as usize / 2];
    if mv & 1 == 0 {
        (m.cp)(c)
    } else {
        (m.ch)(c)
    }
}
fn run_op(o: &Op, buf: &mut String) -> u32 {
    match o {
        Op::M(m, c) => call(*m, *c),
        Op::S(op, s) => {
            buf.clear();
            buf.extend(s.iter().map(|c| char::from_u32(*c).unwrap()));
            str_op(*op, buf)
        }
        Op::I(s, o) => {
            // the same folding as str_op(4, ..)
            let text: String = chars(s);
            let (mut h, mut n) = (0u32, 0usize);
            let mut first = None;
            let mut it = text.break_graphemes();
            loop {
                let r = run_op(o, buf);
                if *first.get_or_insert(r) != r {
                    return FAIL;
                }
                match it.next() {
                    None => break,
                    Some(c) => h = h.wrapping_mul(31).wrapping_add(c.len() as u32 + 1) ^ h.rotate_left(9),
                }
                n += 1;
                if n > text.len() {
                    return FAIL;
                }
            }
            both(h, first.unwrap())
        }
        Op::T(o) => std::thread::scope(|s| s.spawn(|| guarded(o, &mut String::new())).join()).unwrap_or(FAIL),
        Op::H(s, k) => {
            let text: String = chars(s);
            // the same folding as str_op(4, ..)
            fn go(it: &mut dyn Iterator<Item = &str>, steps: u32, mut h: u32) -> u32 {
                for _ in 0..steps {
                    match it.next() {
                        None => break,
                        Some(c) => h = h.wrapping_mul(31).wrapping_add(c.len() as u32 + 1) ^ h.rotate_left(9),
                    }
                }
                h
            }
            let mut it = text.break_graphemes();
            let h = go(&mut it, *k, 0);
            let n = text.len() as u32 + 1;
            std::thread::scope(|s| s.spawn(move || guard(|| go(&mut it, n, h)).unwrap_or(FAIL)).join()).unwrap_or(FAIL)
        }
        Op::E(a, k, op, b) => {
            buf.clear();
            buf.extend(a.iter().map(|c| char::from_u32(*c).unwrap()));
            let at = if *k >= BEHIND {
                str_op(*k - BEHIND, buf);
                buf.len()
            } else {
                let mut it = buf.break_graphemes();
                let mut at = 0;
                for _ in 0..*k {
                    at += it.next().map_or(0, |c| c.len());
                }
                at
            };
            buf.truncate(at);
            buf.extend(b.iter().map(|c| char::from_u32(*c).unwrap()));
            str_op(*op, &buf[at..])
        }
    }
}
fn guarded(o: &Op, buf: &mut String) -> u32 {
    guard(|| run_op(o, buf)).unwrap_or(FAIL)
}
/// the answer of a call that is the first of its process
fn alone(o: &Op) -> u32 {
    if let Op::I(s, i) = o {
        return both(alone(&Op::S(4, s.clone())), alone(i));
    }
    if let Op::T(o) = o {
        return alone(o);
    }
    if let Op::H(s, _) = o {
        return alone(&Op::S(4, s.clone()));
    }
    if let Op::E(_, _, op, b) = o {
        return alone(&Op::S(*op, b.clone()));
    }
    let m = shared(4);
    unsafe {
        m.write(FAIL);
        isolated(60, || m.write_volatile(guarded(o, &mut String::with_capacity(1 << 16))));
        let r = m.read_volatile();
        munmap(m as *mut u8, 16);
        r
    }
}
fn enc(o: &Op, out: &mut Vec<u32>) {
    match o {
        Op::M(m, c) => out.extend([0, *m, *c]),
        Op::S(op, s) => {
            out.extend([1, *op, s.len() as u32]);
            out.extend(s);
        }
        Op::I(s, o) => {
            out.extend([2, s.len() as u32]);
            out.extend(s);
            enc(o, out);
        }
        Op::T(o) => {
            out.push(4);
            enc(o, out);
        }
        Op::H(s, n) => {
            out.extend([5, *n, s.len() as u32]);
            out.extend(s);
        }
        Op::E(a, n, op, b) => {
            out.extend([3, *n, *op, a.len() as u32]);
            out.extend(a);
            out.push(b.len() as u32);
            out.extend(b);
        }
    }
}
fn dec1(a: &[u32], i: &mut usize) -> Op {
    let k = *i;
    match a[k] {
        0 => {
            *i += 3;
            Op::M(a[k + 1], a[k + 2])
        }
        1 => {
            let n = a[k + 2] as usize;
            *i += 3 + n;
            Op::S(a[k + 1], a[k + 3..k + 3 + n].to_vec())
        }
        3 => {
            let n = a[k + 3] as usize;
            let m = a[k + 4 + n] as usize;
            *i += 5 + n + m;
            Op::E(a[k + 4..k + 4 + n].to_vec(), a[k + 1], a[k + 2], a[k + 5 + n..k + 5 + n + m].to_vec())
        }
        4 => {
            *i += 1;
            Op::T(Box::new(dec1(a, i)))
        }
        5 => {
            let n = a[k + 2] as usize;
            *i += 3 + n;
            Op::H(a[k + 3..k + 3 + n].to_vec(), a[k + 1])
        }
        _ => {
            let n = a[k + 1] as usize;
            *i += 2 + n;
            Op::I(a[k + 2..k + 2 + n].to_vec(), Box::new(dec1(a, i)))
        }
    }
}
fn dec(a: &[u32]) -> Vec<Op> {
    let (mut i, mut v) = (0, vec![]);
    while i < a.len() {
        v.push(dec1(a, &mut i));
    }
    v
}
fn name(o: &Op) -> String {
    match o {
        Op::M(m, c) => format!("{}(U+{:04X}){}", ms()[*m as usize / 2].name, c, if m & 1 == 1 { " as char" } else { "" }),
        Op::S(op, s) => format!("{}({})", STR_OPS[*op as usize], hex(&chars(s))),
        Op::T(o) => format!("{} in a thread of its own", name(o)),
        Op::H(s, k) => format!("break_graphemes({}), handed to another thread after {} steps", hex(&chars(s)), k),
        Op::I(s, o) => format!("break_graphemes({}) with {} between its steps", hex(&chars(s)), name(o)),
        Op::E(a, k, op, b) if *k >= BEHIND => format!("{} of {}, then {} of {} directly behind it", STR_OPS[(*k - BEHIND) as usize], hex(&chars(a)), STR_OPS[*op as usize], hex(&chars(b))),
        Op::E(a, k, op, b) => format!("{} clusters of {}, then in place of the rest {} of {}", k, hex(&chars(a)), STR_OPS[*op as usize], hex(&chars(b))),
    }
}

/// the i-th code point of a sweep order
fn order(o: u32, i: usize) -> u32 {
    let n = NCP as u64;
    let x = i as u64;
    (match o {
        0 => x,
        1 => n - 1 - x,
        2 => x % 17 * 65536 + x / 17,
        3 => x * 0x9E3B1 % n,
        4 => x / 2 * 2 + 1 - x % 2,
        _ => (x % 4352) * 256 + x / 4352,
    }) as u32
}
const ORDERS: u32 = 6;
/// a distinct short text per number
fn sat_text(i: usize) -> Vec<u32> {
    let a = scalar(0x20 + (i as u64 * 7919) % 60000);
    let b = [0x301, 0x327, 0x61, 0x11A8, 0x94D, 0x200D, 0x1F1E6][i % 7];
    let c = 0x41 + (i / 7 % 5000) as u32;
    vec![a, b, c]
}

// case kinds
const HIST: u32 = 1;
const SWEEP: u32 = 2;
const SAT: u32 = 3;
/// one text operation on one text, again and again, then a probe
const REP: u32 = 4;
/// every text operation on every text in one history
const LONG: u32 = 5;
/// one method asked of all code points up to one, or one text operation on all texts up to one, in
/// a surrounding (world)
const SURR: u32 = 6;
const SURRS: u32 = 7;
const REPEATS: u32 = 66_000;
/// the i-th call of the long history number o
fn long_call(o: u32, i: u32, n: u32) -> u32 {
    let stride = [1, n - 1, 7, 11, 101, 257][o as usize % 6];
    // strides that share no factor with n visit everything
    let g = |mut a: u32, mut b: u32| {
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let mut st = stride;
    while g(st, n) != 1 {
        st += 1;
    }
    (i as u64 * st as u64 % n as u64) as u32
}

/// texts with 12 bytes behind their first character, and texts of 12 bytes to put in their place
fn equal_texts() -> (Vec<Vec<u32>>, Vec<Vec<u32>>) {
    let pad = |v: &[u32], n: usize, p: char| {
        let mut v = v.to_vec();
        let len: usize = v.iter().map(|c| char::from_u32(*c).unwrap().len_utf8()).sum();
        v.extend((len..n).map(|_| p as u32));
        v
    };
    let (mut a, mut b) = (vec![], vec![]);
    for x in super::seg::ALPHA {
        for f in [0x61, 0x915, 0x1F1E6, 0x1F600] {
            let mut v = vec![f];
            v.extend(pad(&[x], 12, 'p'));
            a.push(v);
        }
        for z in [0x301, 0x200D, 0x1F1E6, 0x94D, 0x61, 0x1160] {
            b.push(pad(&[x, z], 12, 'q'));
        }
    }
    (a, b)
}

/// pairs of characters that a memo of compositions could take for this one: either character
/// another under truncation and the like, or both changed so that a sum, product or mix stays the same
fn aliases(a: u32, b: u32, t: Tier) -> Vec<(u32, u32)> {
    let mut v = vec![(b, a), (a + 1, b - 1), (a - 1, b + 1)];
    for k in 0..21 {
        let m = 1u32 << k;
        v.extend([(a + 1, b.wrapping_sub(m)), (a - 1, b + m), (a.wrapping_sub(m), b + 1), (a + m, b - 1), (a ^ 1, b ^ m), (a ^ m, b ^ 1), (a ^ m, b ^ m)]);
    }
    for m in [17, 31, 33, 37, 101, 131, 257, 1000, 10000, 65599, 0xD800, 0x10FFFF, 0x110000] {
        v.extend([(a + 1, b.wrapping_sub(m)), (a - 1, b.wrapping_add(m))]);
    }
    let mut col = vec![];
    let step = t.pick(3, 1);
    colliding(b, &mut col);
    v.extend(col.iter().skip((a % 3) as usize % step).step_by(step).map(|d| (a, *d)));
    colliding(a, &mut col);
    v.extend(col.iter().skip((b % 3) as usize % step).step_by(step).map(|d| (*d, b)));
    v.retain(|(c, d)| char::from_u32(*c).is_some() && char::from_u32(*d).is_some() && (*c, *d) != (a, b));
    v.sort_unstable();
    v.dedup();
    v
}
const ALIAS: usize = 8;
/// pairs of characters, and what they are asked: canonical ones, and one of every two classes of
/// segmentation
fn alias_pairs() -> &'static Vec<(u32, u32, &'static [u32])> {
    static V: OnceLock<Vec<(u32, u32, &'static [u32])>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<(u32, u32, &'static [u32])> = super::norm::sets().pairs.iter().map(|p| (p.0, p.1, &[1, 3][..])).collect();
        let a: Vec<u32> = super::seg::ALPHA.iter().copied().filter(|c| *c > 1).collect();
        a.iter().for_each(|x| a.iter().for_each(|y| v.push((*x, *y, &[4][..]))));
        v.push((0x1100, 0x1161, &[1, 3, 4]));
        v.push((0xAC00, 0x11A8, &[1, 3, 4]));
        v
    })
}

struct Sets {
    strs: Vec<Vec<u32>>,
    /// strs and long texts made of some of them
    surr: Vec<Vec<u32>>,
    few: Vec<Vec<u32>>,
    tri: Vec<Vec<u32>>,
    reps: Vec<u32>,
    many: Vec<u32>,
    /// code points of histories of three methods
    tcps: Vec<(u32, u32, u32)>,
}
fn sets(t: Tier) -> Sets {
    let strs: Vec<Vec<u32>> = strings().iter().map(|s| s.chars().map(|c| c as u32).collect()).collect();
    let few = strs.iter().step_by(5).cloned().collect();
    let long = |n: usize| strs.iter().filter(|s| !s.is_empty()).step_by(7).map(move |s| s.iter().cycle().take(n).cloned().collect::<Vec<u32>>());
    let surr = strs.iter().cloned().chain(long(300)).chain(long(1500)).chain(long(5000).step_by(5)).collect();
    let tri: Vec<Vec<u32>> = [1usize, 2, 4, 5, 9, 12, 14, 15, 19, 25, 40, 43, 46, 52].iter().take(t.pick(12, 14)).map(|i| strs[*i].clone()).collect();
    let mut reps = vec![
        0x41, 0x61, 0xE9, 0x10041, 0x141, 0x301, 0x10301, 0x300, 0x915, 0x94D, 0xAC00, 0xAC01, 0xD7A3, 0x1100, 0x1F600, 0xF600, 0x1F1E6, 0x4E00, 0x24E00, 0x3400, 0xF900, 0x2F800, 0xD800, 0xDC00, 0x10FFFF, 0,
        0x37E, 0x212B, 0xFDFA, 0x1D15E, 0xE0001, 0x200D, 0x10A00, 0x17000, 0x30, 0x660, 0x5D0, 0x627, 0x20, 0x3000, 0xB5, 0xDF, 0x1E9B, 0x1109A, 0xFFFF, 0x10000, 0xFDD0, 0xE000,
    ];
    reps.truncate(t.pick(32, 48));
    let mut many: Vec<u32> = (0..NCP as u32).step_by(t.pick(997, 211)).collect();
    many.extend(&reps);
    many.extend(0..0x80);
    many.extend(crate::ucd::data().dm.keys().step_by(t.pick(9, 3)));
    many.sort_unstable();
    many.dedup();
    let tc = [0x41u32, 0xE9, 0x10041, 0xAC01];
    let n = t.pick(3, 4);
    let mut tcps = vec![];
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                tcps.push((tc[a], tc[b], tc[c]));
            }
        }
    }
    Sets { strs, surr, few, tri, reps, many, tcps }
}

#[derive(Clone)]
enum U {
    Sweep(u32, u32),
    Pairs(u32, u32, u32),
    Cross(u32),
    StrPairs(usize),
    Alias(usize),
    StrTriples(usize),
    Mix(u32),
    Sat(u32),
    Inter(usize),
    Edit(usize),
    EditEq(usize),
    Thr(usize),
    ThrM(u32),
    Hand(usize),
    Rep(u32),
    Long(u32),
    Tri(u32),
    Surr(u32),
    SurrS(u32),
}
fn family(u: &U) -> &'static str {
    match u {
        U::Sweep(..) => "sweeps of the code space in one history",
        U::Pairs(..) => "colliding pairs, one method",
        U::Cross(..) => "pairs of two methods",
        U::StrPairs(..) => "pairs of text operations",
        U::Alias(..) => "colliding pairs of characters that compose or join",
        U::StrTriples(..) => "triples of text operations",
        U::Mix(..) => "text operation and method",
        U::Sat(..) => "long histories of text operations",
        U::Inter(..) => "an iterator with calls between its steps",
        U::Edit(..) | U::EditEq(..) => "a text replaced in place behind a half-done iteration, or put behind another",
        U::Thr(..) | U::ThrM(..) | U::Hand(..) => "calls from several threads, one after the other",
        U::Rep(..) => "one text operation repeated",
        U::Long(..) => "all text operations in one history",
        U::Tri(..) => "triples of methods",
        U::Surr(..) | U::SurrS(..) => "calls in other surroundings",
    }
}
const FAMS: [&str; 15] = [
    "colliding pairs of characters that compose or join",
    "calls in other surroundings",
    "calls from several threads, one after the other",
    "a text replaced in place behind a half-done iteration, or put behind another",
    "sweeps of the code space in one history",
    "colliding pairs, one method",
    "pairs of two methods",
    "pairs of text operations",
    "triples of text operations",
    "text operation and method",
    "long histories of text operations",
    "an iterator with calls between its steps",
    "one text operation repeated",
    "all text operations in one history",
    "triples of methods",
];

struct Bad(u32, Vec<u32>);
/// shared record of a worker: current case, result of the unit
struct Slot(*mut u32);
const SLOT: usize = 16384;
impl Slot {
    fn put(&self, at: usize, kind: u32, a: &[u32]) {
        unsafe {
            let s = self.0.add(at);
            s.add(1).write_volatile(kind);
            s.add(2).write_volatile(a.len() as u32);
            std::ptr::copy_nonoverlapping(a.as_ptr(), s.add(3), a.len());
            s.write_volatile(1);
        }
    }
    fn get(&self, at: usize) -> Option<(u32, Vec<u32>)> {
        unsafe {
            let s = self.0.add(at);
            if s.read_volatile() == 0 {
                return None;
            }
            let n = s.add(2).read_volatile() as usize;
            Some((s.add(1).read_volatile(), (0..n).map(|i| s.add(3 + i).read_volatile()).collect()))
        }
    }
    fn count(&self, evals: u64, nontriv: u64) {
        unsafe {
            let s = self.0.add(2 * SLOT) as *mut u64;
            s.write_volatile(evals);
            s.add(1).write_volatile(nontriv);
        }
    }
    fn counts(&self) -> (u64, u64) {
        unsafe {
            let s = self.0.add(2 * SLOT) as *mut u64;
            (s.read_volatile(), s.add(1).read_volatile())
        }
    }
    fn clear(&self) {
        unsafe {
            self.0.write_volatile(0);
            self.0.add(SLOT).write_volatile(0);
        }
        self.count(0, 0);
    }
}

struct World<'a> {
    base: *const u32,
    sbase: &'a BTreeMap<(u32, Vec<u32>), u32>,
    sets: &'a Sets,
    tier: Tier,
}
impl World<'_> {
    fn base(&self, mv: u32, c: u32) -> u32 {
        unsafe { self.base.add(mv as usize * NCP + c as usize).read() }
    }
    /// runs one unit in this (fresh) process
    fn unit(&self, u: &U, slot: &Slot) -> Option<Bad> {
        let (mut ev, mut nt) = (0u64, 0u64);
        let mut col = vec![];
        let mut buf = String::with_capacity(1 << 16);
        let r = (|| {
            match u {
                U::Surr(mv) => {
                    let r = self.surroundings(false, *mv, slot, &mut ev);
                    nt = ev;
                    return r;
                }
                U::SurrS(op) => {
                    let r = self.surroundings(true, *op, slot, &mut ev);
                    nt = ev;
                    return r;
                }
                U::Sweep(mv, o) => {
                    slot.put(SLOT, SWEEP, &[*mv, *o, NCP as u32]);
                    for i in 0..NCP {
                        let c = order(*o, i);
                        ev += 1;
                        let a = guard(|| call(*mv, c)).unwrap_or(FAIL);
                        if a != self.base(*mv, c) {
                            return Some(Bad(SWEEP, vec![*mv, *o, i as u32]));
                        }
                    }
                    // and once more from the start, with everything asked before
                    for i in (0..NCP).step_by(3) {
                        let c = order(*o, i);
                        ev += 1;
                        if guard(|| call(*mv, c)).unwrap_or(FAIL) != self.base(*mv, c) {
                            return Some(Bad(SWEEP, vec![*mv, *o, NCP as u32 + i as u32]));
                        }
                    }
                    nt = ev;
                }
                U::Pairs(mv, lo, hi) => {
                    for c in *lo..*hi {
                        let bc = self.base(*mv, c);
                        colliding(c, &mut col);
                        for &d in &col {
                            let bd = self.base(*mv, d);
                            if bc == bd {
                                continue;
                            }
                            slot.put(SLOT, HIST, &[0, *mv, d, 0, *mv, c]);
                            ev += 1;
                            let (x, y) = match guard(|| (call(*mv, d), call(*mv, c))) {
                                Ok(r) => r,
                                Err(_) => (FAIL, FAIL),
                            };
                            if (x, y) != (bd, bc) {
                                return Some(Bad(HIST, vec![0, *mv, d, 0, *mv, c]));
                            }
                        }
                    }
                    nt = ev;
                }
                U::Cross(m1) => {
                    for m2 in 0..2 * ms().len() as u32 {
                        if m2 == *m1 {
                            continue;
                        }
                        let mut pair = |d: u32, c: u32| {
                            ev += 1;
                            let (x, y) = guard(|| (call(*m1, d), call(m2, c))).unwrap_or((FAIL, FAIL));
                            nt += (x != y) as u64;
                            if (x, y) != (self.base(*m1, d), self.base(m2, c)) {
                                return Some(Bad(HIST, vec![0, *m1, d, 0, m2, c]));
                            }
                            None
                        };
                        slot.put(SLOT, HIST, &[0, *m1, 0x41, 0, m2, 0x41]);
                        for &c in &self.sets.many {
                            if let Some(b) = pair(c, c) {
                                return Some(b);
                            }
                        }
                        for &d in &self.sets.reps {
                            for &c in &self.sets.reps {
                                if let Some(b) = pair(d, c) {
                                    return Some(b);
                                }
                            }
                        }
                    }
                }
                U::StrPairs(k) => {
                    let n = self.sets.strs.len();
                    for j in 0..NS * n {
                        let h = [self.sop(*k, n, &self.sets.strs), self.sop(j, n, &self.sets.strs)];
                        let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                        if r.is_some() {
                            return r;
                        }
                    }
                }
                U::Alias(k) => {
                    for (a, b, ops) in alias_pairs().iter().skip(k * ALIAS).take(ALIAS) {
                        let others = aliases(*a, *b, self.tier);
                        for op in ops.iter().copied() {
                            let real = Op::S(op, vec![*a, *b]);
                            let e = alone(&real);
                            let others: Vec<Op> = others.iter().map(|(c, d)| Op::S(op, vec![*c, *d])).collect();
                            // the answers of a history without the pair
                            let m = shared(others.len().max(1));
                            let apart = Op::S(op, vec![0x51, 0x30F]);
                            isolated(60, || {
                                for (i, o) in others.iter().enumerate() {
                                    unsafe { m.add(i).write_volatile(guarded(o, &mut buf)) }
                                    guarded(&apart, &mut buf);
                                }
                            });
                            let others: Vec<(Op, u32)> = others.into_iter().enumerate().map(|(i, o)| (o, unsafe { m.add(i).read_volatile() })).collect();
                            unsafe { munmap(m as *mut u8, 4 * others.len().max(1)) };
                            // the pair after every other, and every other after it
                            let mut last = real.clone();
                            for (o, eo) in &others {
                                for (o, e) in [(o, *eo), (&real, e)] {
                                    let mut h = vec![];
                                    [&last, o].iter().for_each(|o| enc(o, &mut h));
                                    slot.put(SLOT, HIST, &h);
                                    ev += 1;
                                    nt += 1;
                                    if guarded(o, &mut buf) != e {
                                        return Some(Bad(HIST, h));
                                    }
                                    last = o.clone();
                                }
                            }
                        }
                    }
                }
                U::StrTriples(k) => {
                    let n = self.sets.tri.len();
                    for i in 0..NS * n {
                        for j in 0..NS * n {
                            let h = [self.sop(*k, n, &self.sets.tri), self.sop(i, n, &self.sets.tri), self.sop(j, n, &self.sets.tri)];
                            let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                            if r.is_some() {
                                return r;
                            }
                        }
                    }
                }
                U::Mix(mv) => {
                    for &c in &self.sets.reps[..24] {
                        for k in 0..5 * self.sets.few.len() {
                            let s = self.sop(k, self.sets.few.len(), &self.sets.few);
                            for h in [[Op::M(*mv, c), s.clone()], [s.clone(), Op::M(*mv, c)]] {
                                let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                                if r.is_some() {
                                    return r;
                                }
                            }
                        }
                    }
                }
                U::Inter(k) => {
                    let t = &self.sets.strs[*k];
                    let n = self.sets.few.len();
                    for j in 0..NS * n {
                        let h = [Op::I(t.clone(), Box::new(self.sop(j, n, &self.sets.few)))];
                        let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                        if r.is_some() {
                            return r;
                        }
                        nt += 1;
                    }
                    for mv in 0..2 * ms().len() as u32 {
                        for c in [0x41, 0x301, 0x1F600, 0x94D] {
                            let h = [Op::I(t.clone(), Box::new(Op::M(mv, c)))];
                            let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                            if r.is_some() {
                                return r;
                            }
                            nt += 1;
                        }
                    }
                }
                U::Edit(k) => {
                    let t = &self.sets.strs[*k];
                    for b in &self.sets.strs {
                        for op in 0..NS as u32 {
                            for n in [0, 1, 2, BEHIND + 1, BEHIND + 4] {
                                let h = [Op::E(t.clone(), n, op, b.clone())];
                                let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                                if r.is_some() {
                                    return r;
                                }
                                nt += 1;
                            }
                        }
                    }
                }
                U::EditEq(k) => {
                    let (a, b) = equal_texts();
                    for b in &b {
                        for op in 0..NS as u32 {
                            let r = self.hist(&[Op::E(a[*k].clone(), 1, op, b.clone())], slot, &mut buf, &mut ev, &mut nt);
                            if r.is_some() {
                                return r;
                            }
                            nt += 1;
                        }
                    }
                }
                U::Thr(k) => {
                    let n = self.sets.few.len();
                    let a = self.sop(*k, n, &self.sets.few);
                    for j in 0..NS * n {
                        let h = [a.clone(), Op::T(Box::new(self.sop(j, n, &self.sets.few))), a.clone()];
                        let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                        if r.is_some() {
                            return r;
                        }
                    }
                }
                U::ThrM(mv) => {
                    for &c in &self.sets.reps[..16] {
                        for &d in &self.sets.reps[..16] {
                            let h = [Op::M(*mv, c), Op::T(Box::new(Op::M(*mv, d))), Op::M(*mv, c)];
                            let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                            if r.is_some() {
                                return r;
                            }
                        }
                    }
                }
                U::Hand(k) => {
                    let t = &self.sets.strs[*k];
                    for n in 0..=t.len().min(40) as u32 {
                        let h = [Op::S(4, t.clone()), Op::H(t.clone(), n)];
                        let r = self.hist(&h, slot, &mut buf, &mut ev, &mut nt);
                        if r.is_some() {
                            return r;
                        }
                        nt += 1;
                    }
                }
                U::Rep(op) => {
                    for (k, s) in self.sets.few.iter().enumerate().filter(|x| x.1.len() < 5).take(6) {
                        let o = Op::S(*op, s.clone());
                        for i in 0..REPEATS {
                            if i % 256 == 0 {
                                slot.put(SLOT, REP, &[*op, k as u32, i]);
                            }
                            ev += 1;
                            nt += 1;
                            if guarded(&o, &mut buf) != self.sbase[&(*op, s.clone())] {
                                return Some(Bad(REP, vec![*op, k as u32, i]));
                            }
                        }
                    }
                }
                U::Long(o) => {
                    let n = self.sets.strs.len();
                    for i in 0..(3 * NS * n) as u32 {
                        slot.put(SLOT, LONG, &[*o, i]);
                        let k = long_call(*o, i, (NS * n) as u32) as usize;
                        let op = self.sop(k, n, &self.sets.strs);
                        ev += 1;
                        nt += 1;
                        if guarded(&op, &mut buf) != self.expect(&op) {
                            return Some(Bad(LONG, vec![*o, i]));
                        }
                    }
                }
                U::Tri(m1) => {
                    let n = 2 * ms().len() as u32;
                    for m2 in 0..n {
                        slot.put(SLOT, HIST, &[0, *m1, 0x41, 0, m2, 0x41, 0, 0, 0x41]);
                        for m3 in 0..n {
                            for c in &self.sets.tcps {
                                let h = [(*m1, c.0), (m2, c.1), (m3, c.2)];
                                ev += 1;
                                let r = guard(|| h.map(|(m, c)| call(m, c))).unwrap_or([FAIL; 3]);
                                let e = h.map(|(m, c)| self.base(m, c));
                                nt += (e[0] != e[2]) as u64;
                                if r != e {
                                    let mut a = vec![];
                                    h.iter().for_each(|(m, c)| enc(&Op::M(*m, *c), &mut a));
                                    return Some(Bad(HIST, a));
                                }
                            }
                        }
                    }
                }
                U::Sat(op) => {
                    for i in 0..70000usize {
                        buf.clear();
                        buf.push_str(&chars(&sat_text(i)));
                        if i % 64 == 0 {
                            slot.put(SLOT, SAT, &[*op, i as u32, 0]);
                        }
                        let _ = guard(|| str_op(*op, &buf));
                        if (i + 1).is_power_of_two() || i % 5000 == 4999 {
                            for (k, s) in self.sets.few.iter().enumerate() {
                                for o in 0..NS as u32 {
                                    ev += 1;
                                    nt += 1;
                                    let p = Op::S(o, s.clone());
                                    if guarded(&p, &mut buf) != self.sbase[&(o, s.clone())] {
                                        return Some(Bad(SAT, vec![*op, i as u32, (k * NS) as u32 + o]));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            None
        })();
        slot.count(ev, nt);
        r
    }
    /// one method over all code points, or one text operation over all texts, in world w
    fn surrounded(&self, text: bool, k: u32, w: u32, slot: &Slot, ev: &mut u64) -> (u32, Option<Bad>) {
        let kind = if text { SURRS } else { SURR };
        let n = if text { self.sets.surr.len() } else { NCP };
        let mut bad = None;
        let mut buf = String::with_capacity(1 << 12);
        let base = |c: usize| if text { self.sbase[&(k, self.sets.surr[c].clone())] } else { self.base(k, c as u32) };
        let want: Vec<u32> = (0..n).map(base).collect();
        slot.put(SLOT, kind, &[k, n as u32 - 1, w]);
        let mut got = 0u64;
        let ms_ready = ms().len();
        let seen = crate::surround::inside(w, || {
            for (c, want) in want.iter().enumerate() {
                got += 1;
                let a = if text { guard(|| run_op(&Op::S(k, self.sets.surr[c].clone()), &mut buf)) } else { guard(|| call(k, c as u32)) }.unwrap_or(FAIL);
                if a != *want {
                    bad = Some(Bad(kind, vec![k, c as u32, w]));
                    return;
                }
            }
        });
        assert!(ms_ready > 0);
        *ev += got;
        (seen, bad)
    }
    /// every world for one method or text operation: first what the system says, to learn what the code
    /// asks for, then every other answer to that, then the surroundings that are there unasked
    fn surroundings(&self, text: bool, k: u32, slot: &Slot, ev: &mut u64) -> Option<Bad> {
        let res = shared(8);
        let run = |w: u32, ev: &mut u64| -> Option<(u32, Option<Bad>)> {
            unsafe { (0..8).for_each(|i| res.add(i).write_volatile(0)) }
            let ok = isolated(100, || {
                let mut e = 0;
                let (seen, bad) = self.surrounded(text, k, w, slot, &mut e);
                unsafe {
                    res.add(1).write_volatile(seen);
                    res.add(2).write_volatile(e as u32);
                    if let Some(b) = bad {
                        res.add(3).write_volatile(1);
                        res.add(4).write_volatile(b.1[1]);
                    }
                    res.write_volatile(1);
                }
            });
            let r = |i: usize| unsafe { res.add(i).read_volatile() };
            if !ok || r(0) != 1 {
                return None;
            }
            *ev += r(2) as u64;
            Some((r(1), (r(3) == 1).then(|| Bad(if text { SURRS } else { SURR }, vec![k, r(4), w]))))
        };
        let dead = |w: u32| Some(Bad(if text { SURRS } else { SURR }, vec![k, if text { self.sets.surr.len() } else { NCP } as u32 - 1, w]));
        let seen = match run(0, ev) {
            None => return dead(0),
            Some((_, Some(b))) => return Some(b),
            Some((s, None)) => s,
        };
        for w in crate::surround::worlds(seen).into_iter().chain(crate::surround::OTHERS) {
            match run(w, ev) {
                None => return dead(w),
                Some((_, Some(b))) => return Some(b),
                _ => {}
            }
        }
        unsafe { munmap(res as *mut u8, 32) };
        None
    }
    fn sop(&self, i: usize, n: usize, from: &[Vec<u32>]) -> Op {
        Op::S((i / n) as u32, from[i % n].clone())
    }
    fn expect(&self, o: &Op) -> u32 {
        match o {
            Op::M(m, c) => self.base(*m, *c),
            Op::S(op, s) => self.sbase[&(*op, s.clone())],
            Op::T(o) => self.expect(o),
            Op::H(s, _) => self.sbase[&(4, s.clone())],
            Op::E(_, _, op, b) => self.sbase[&(*op, b.clone())],
            Op::I(s, o) => both(self.sbase[&(4, s.clone())], self.expect(o)),
        }
    }
    fn hist(&self, h: &[Op], slot: &Slot, buf: &mut String, ev: &mut u64, nt: &mut u64) -> Option<Bad> {
        let mut a = vec![];
        for o in h {
            enc(o, &mut a);
        }
        slot.put(SLOT, HIST, &a);
        *ev += 1;
        let mut last = None;
        for (i, o) in h.iter().enumerate() {
            let r = guarded(o, buf);
            if r != self.expect(o) {
                let mut a = vec![];
                for o in &h[..=i] {
                    enc(o, &mut a);
                }
                return Some(Bad(HIST, a));
            }
            if last.is_some_and(|l| l != r) && i + 1 == h.len() {
                *nt += 1;
            }
            last = Some(r);
        }
        None
    }
}

pub struct Hist;
impl Check for Hist {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn units(&self, _t: Tier) -> Vec<Unit> {
        vec![]
    }
    fn run(&self, _cx: &mut Ctx, _u: &Unit) {}
    fn oracle(&self) -> String {
        "oracle: the answer the same call gives as the first library call of a process (a fork taken before any call); no frozen data, no randomness, so the seed changes nothing".into()
    }
    fn custom(&self, t: Tier, _out: &Path, known: &BTreeSet<String>) -> Option<Result<Report, String>> {
        Some(explore(self, t, known))
    }
    /// runs in a fresh process; the expected answers come from forks taken before the first call
    fn eval(&self, kind: u32, a: &[u32]) -> Verdict {
        let mut buf = String::with_capacity(1 << 16);
        let (last, history): (Op, Box<dyn FnOnce(&mut String)>) = match kind {
            HIST => {
                let v = dec(a);
                let l = v[v.len() - 1].clone();
                (l, Box::new(move |b| v[..v.len() - 1].iter().for_each(|o| drop(guarded(o, b)))))
            }
            SWEEP => {
                let (mv, o, i) = (a[0], a[1], a[2] as usize);
                (Op::M(mv, order(o, i % NCP)), Box::new(move |_| (0..i).for_each(|k| if k < NCP || k % 3 == NCP % 3 { drop(guard(|| call(mv, order(o, k % NCP)))) })))
            }
            SURR | SURRS => {
                let strs = if kind == SURRS { sets(Tier::Quick).surr } else { vec![] };
                let op = |i: u32| if kind == SURR { Op::M(a[0], i) } else { Op::S(a[0], strs[i as usize].clone()) };
                let want = alone(&op(a[1]));
                ms();
                let mut got = FAIL;
                crate::surround::inside(a[2], || {
                    for i in 0..=a[1] {
                        got = guarded(&op(i), &mut buf);
                    }
                });
                return if got == want && want != FAIL { Ok(Seen::Nontrivial) } else { Err(format!("{}: answers (hash) {:X}, otherwise {:X}", self.show(kind, a), got, want)) };
            }
            REP => {
                let o = Op::S(a[0], sets(Tier::Quick).few[a[1] as usize].clone());
                let (before, i) = (o.clone(), a[2]);
                (o, Box::new(move |b| (0..i).for_each(|_| drop(guarded(&before, b)))))
            }
            LONG => {
                let s = sets(Tier::Quick).strs;
                let n = s.len();
                let at = move |o: u32, i: u32, s: &[Vec<u32>]| {
                    let k = long_call(o, i, (NS * n) as u32) as usize;
                    Op::S((k / n) as u32, s[k % n].clone())
                };
                let (o, i) = (a[0], a[1]);
                (at(o, i, &s), Box::new(move |b| (0..i).for_each(|j| drop(guarded(&at(o, j, &s), b)))))
            }
            _ => {
                let s = sets(Tier::Quick);
                let (op, n, k) = (a[0], a[1] as usize, a[2] as usize);
                let few = s.few;
                let l = Op::S((k % NS) as u32, few[k / NS].clone());
                (
                    l,
                    Box::new(move |b| {
                        for i in 0..=n {
                            b.clear();
                            b.push_str(&chars(&sat_text(i)));
                            let _ = guard(|| str_op(op, b));
                        }
                    }),
                )
            }
        };
        let want = alone(&last);
        history(&mut buf);
        let got = guard(|| run_op(&last, &mut buf));
        match got {
            Err(p) => Err(format!("{} after this history: {}", name(&last), p)),
            Ok(_) if want == FAIL => Err(format!("{} fails when it is the first call of a process", name(&last))),
            Ok(g) if g != want => Err(format!("{} answers (hash) {:X} after this history, {:X} as the first call of a process", name(&last), g, want)),
            Ok(_) => Ok(Seen::Nontrivial),
        }
    }
    fn show(&self, kind: u32, a: &[u32]) -> String {
        match kind {
            HIST => dec(a).iter().map(name).collect::<Vec<_>>().join("; then "),
            SWEEP => format!("{} asked of code points in order number {}, up to call {}", name(&Op::M(a[0], order(a[1], a[2] as usize % NCP))), a[1], a[2]),
            SURR | SURRS => {
                let o = if kind == SURR { Op::M(a[0], a[1]) } else { Op::S(a[0], sets(Tier::Quick).surr[a[1] as usize].clone()) };
                format!("{} in these surroundings: {}", name(&o), if a[2] == 0 { "as they are".into() } else { crate::surround::show(a[2]) })
            }
            REP => format!("{} for the {}th time", name(&Op::S(a[0], sets(Tier::Quick).few[a[1] as usize].clone())), a[2] + 1),
            LONG => format!("call {} of the long history number {}", a[1], a[0]),
            _ => format!("{} of {} different texts, then a probe", STR_OPS[a[0] as usize], a[1] + 1),
        }
    }
    fn rule(&self, t: Tier) -> String {
        let s = sets(t);
        format!(
            "histories of calls, each started from the initial state of the library (forked process). {} ways of asking (every property method through CodePoint and char, display, value names, construction, the four forms of a text of one character) and 7 text operations (an iterator dropped after one cluster, and half-way, among them). Sweeps: every method over all 1114112 code points in {} orders, then again. Pairs of one method: every code point after each of about 80 code points that collide with it under truncation, masking, block arithmetic or neighbourhood and have another answer{}. Two methods: all ordered pairs of methods x {} code points asked of both, and x all ordered pairs of {} code points. Texts: all ordered pairs over {} texts x 7 operations in one reused buffer, all triples over {} texts x 7; text operations after and before methods; NFC and NFKC of every pair of characters that compose, and the clusters of a pair of every two classes, after and before about 150 pairs that a memo could take for it; 70000 different texts and then probes; one text 66000 times; every text and operation in one history in 6 orders; every text iterated with every other call between the steps; every text replaced in place by every other behind 0 to 2 clusters, or by one of the same length; every text directly behind every other in one buffer; calls made by a new thread between two calls of another, and iterators handed to another thread after every number of steps. Three methods: all ordered triples of methods x {} triples of code points. Surroundings: every method over all code points and every text operation over all texts, in a fresh process and thread, with what they ask the system for noted (environment, time, random bytes, files, process and user numbers, processors, directories) and every such question answered in every way of a list, pairs of kinds too; and, unasked, an empty environment, one with locale and version settings, another locale, directory and errno, a named thread deep in its stack. Non-trivial: the two last answers differ (sweeps and long histories: every call).",
            2 * ms().len(),
            ORDERS - 1,
            t.pick(" (code points in steps of 3 outside planes 0 and 1)", ""),
            s.many.len(),
            s.reps.len(),
            s.strs.len(),
            s.tri.len(),
            s.tcps.len()
        )
    }
}

fn explore(check: &Hist, t: Tier, known: &BTreeSet<String>) -> Result<Report, String> {
    quiet_panics();
    // the replaced functions must be the ones the standard library calls
    let m = shared(4);
    if !isolated(60, || unsafe { m.write_volatile(1 + crate::surround::self_test().len() as u32) }) || unsafe { m.read_volatile() } != 1 {
        return Err("the surroundings are not under control".into());
    }
    let nm = ms().len() as u32;
    let sets = sets(t);
    // single answers, each from a process of its own
    let mut sbase = BTreeMap::new();
    for s in sets.surr.iter().chain(&sets.few).chain(&sets.tri).chain(&equal_texts().1) {
        for op in 0..NS as u32 {
            sbase.entry((op, s.clone())).or_insert_with(|| alone(&Op::S(op, s.clone())));
        }
    }
    let base = shared(2 * nm as usize * NCP);
    let slots: Vec<Slot> = (0..SH).map(|_| Slot(shared(2 * SLOT + 16))).collect();
    let totals: Vec<*mut u32> = (0..SH).map(|_| shared(64)).collect();
    let mut units = vec![];
    for mv in 0..2 * nm {
        for o in 1..ORDERS {
            units.push(U::Sweep(mv, o));
        }
    }
    for mv in 0..2 * nm {
        units.push(U::Cross(mv));
        units.push(U::Mix(mv));
    }
    (0..NS * sets.strs.len()).for_each(|k| units.push(U::StrPairs(k)));
    (0..(alias_pairs().len() + ALIAS - 1) / ALIAS).for_each(|k| units.push(U::Alias(k)));
    (0..NS * sets.tri.len()).for_each(|k| units.push(U::StrTriples(k)));
    (0..NS as u32).for_each(|k| units.push(U::Sat(k)));
    (0..NS as u32).for_each(|k| units.push(U::Rep(k)));
    (0..6).for_each(|k| units.push(U::Long(k)));
    (0..sets.strs.len()).for_each(|k| units.push(U::Inter(k)));
    (0..sets.strs.len()).for_each(|k| units.push(U::Edit(k)));
    (0..equal_texts().0.len()).for_each(|k| units.push(U::EditEq(k)));
    (0..NS * sets.few.len()).for_each(|k| units.push(U::Thr(k)));
    (0..sets.strs.len()).for_each(|k| units.push(U::Hand(k)));
    (0..2 * nm).for_each(|k| units.push(U::ThrM(k)));
    (0..2 * nm).for_each(|k| units.push(U::Tri(k)));
    (0..2 * nm).for_each(|k| units.push(U::Surr(k)));
    (0..NS as u32).for_each(|k| units.push(U::SurrS(k)));
    for mv in 0..2 * nm {
        let mut lo = 0;
        while lo < NCP as u32 {
            let hi = (lo + 0x8000).min(NCP as u32);
            if t == Tier::Thorough || lo < 0x20000 || lo / 0x8000 % 3 == mv % 3 {
                units.push(U::Pairs(mv, lo, hi));
            }
            lo = hi;
        }
    }
    let next = shared(4) as usize;
    let take = || unsafe { (*(next as *const std::sync::atomic::AtomicU32)).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
    let stop = unsafe { &*((next + 8) as *const std::sync::atomic::AtomicU32) };
    let world = World { base, sbase: &sbase, sets: &sets, tier: t };
    // phase 1: the answers of one ascending history per method; phase 2: all other histories
    for phase in 0..2 {
        unsafe { (next as *mut u32).write(0) }
        let mut pids = vec![];
        for sh in 0..SH {
            let p = unsafe { fork() };
            if p < 0 {
                return Err("fork".into());
            }
            if p == 0 {
                let slot = &slots[sh];
                loop {
                    let i = take();
                    if stop.load(std::sync::atomic::Ordering::SeqCst) != 0 {
                        break;
                    }
                    if phase == 0 {
                        if i >= 2 * nm {
                            break;
                        }
                        slot.put(SLOT, SWEEP, &[i, 0, NCP as u32 - 1]);
                        let ok = isolated(300, || {
                            for c in 0..NCP {
                                unsafe { base.add(i as usize * NCP + c).write(guard(|| call(i, c as u32)).unwrap_or(FAIL)) }
                            }
                        });
                        if !ok {
                            slot.put(0, SWEEP, &[i, 0, NCP as u32 - 1]);
                            stop.store(1, std::sync::atomic::Ordering::SeqCst);
                        }
                    } else {
                        if i as usize >= units.len() {
                            break;
                        }
                        let u = &units[i as usize];
                        slot.clear();
                        let ok = isolated(300, || {
                            if let Some(b) = world.unit(u, slot) {
                                slot.put(0, b.0, &b.1);
                            }
                        });
                        if !ok {
                            // died or hung: the case that was running
                            if let Some((k, a)) = slot.get(SLOT) {
                                slot.put(0, k, &a);
                            }
                        }
                        if slot.get(0).is_some() {
                            stop.store(1, std::sync::atomic::Ordering::SeqCst);
                        }
                        let (e, n) = slot.counts();
                        let f = FAMS.iter().position(|x| *x == family(u)).unwrap();
                        unsafe {
                            let q = totals[sh] as *mut u64;
                            *q.add(2 * f) += e;
                            *q.add(2 * f + 1) += n;
                        }
                    }
                }
                unsafe { _exit(0) }
            }
            pids.push(p);
        }
        for p in pids {
            let mut st = 0;
            unsafe { while waitpid(p, &mut st, 0) != p {} }
            if st != 0 && stop.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                return Err(format!("a worker ended with status {}", st));
            }
        }
        if stop.load(std::sync::atomic::Ordering::SeqCst) != 0 {
            break;
        }
    }
    let mut r = Report::empty();
    let (mut e, mut n) = (0, 0);
    for (f, name) in FAMS.iter().enumerate() {
        let mut x = 0;
        for q in &totals {
            unsafe {
                let q = *q as *mut u64;
                x += *q.add(2 * f);
                n += *q.add(2 * f + 1);
            }
        }
        e += x;
        r.families.insert(name.to_string(), x);
    }
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    for s in &slots {
        if let Some((k, a)) = s.get(0) {
            let mut cand = vec![(k, a.clone())];
            if k == SWEEP {
                // the ascending history it was compared with may be the wrong one
                cand.push((SWEEP, vec![a[0], 0, order(a[1], a[2] as usize % NCP)]));
            } else if k == HIST {
                if let Some(Op::M(m, c)) = dec(&a).last() {
                    cand.push((SWEEP, vec![*m, 0, *c]));
                }
                // the same without the last call: an earlier answer was wrong
                let v = dec(&a);
                if v.len() > 1 {
                    let mut b = vec![];
                    v[..v.len() - 1].iter().for_each(|o| enc(o, &mut b));
                    cand.push((HIST, b));
                }
            }
            let mut chosen = None;
            for (k, a) in &cand {
                let key = case_key(*k, a);
                match run_eval(&exe, check.id(), &key)? {
                    (Some(0), _) => {}
                    (Some(1), text) => {
                        chosen = Some((key, text.lines().last().unwrap_or("").to_string()));
                        break;
                    }
                    (Some(2), text) => return Err(format!("cannot replay {}: {}", key, text)),
                    (c, _) => {
                        chosen = Some((key, format!("the process dies or hangs ({:?}) in this history", c)));
                        break;
                    }
                }
            }
            let (key, msg) = chosen.unwrap_or((case_key(k, &a), "the answer differed from the one of another history".into()));
            if known.contains(&key) {
                r.knownhit.push(key);
            } else {
                r.viols.push((key, msg));
            }
        }
    }
    r.fields.insert("evals".into(), e.to_string());
    r.fields.insert("distinct".into(), n.to_string());
    r.fields.insert("nontrivial".into(), n.to_string());
    r.fields.insert("complete".into(), (stop.load(std::sync::atomic::Ordering::SeqCst) == 0).then_some("1").unwrap_or("0").into());
    r.extra.insert("processes_started_from_the_initial_state".into(), units.len() as u64 + 2 * nm as u64 + sbase.len() as u64);
    r.extra.insert("distinct_answers_of_text_operations".into(), sbase.values().collect::<BTreeSet<_>>().len() as u64);
    for (k, a) in [(HIST, vec![0, 0, 0x10041, 0, 0, 0x41]), (SWEEP, vec![2, 3, 4000])] {
        r.samples.push(check.show(k, &a));
    }
    let h = [world.sop(7, sets.strs.len(), &sets.strs), world.sop(200, sets.strs.len(), &sets.strs)];
    r.samples.push(h.iter().map(name).collect::<Vec<_>>().join("; then "));
    Ok(r)
}

pub fn register(v: &mut Vec<Box<dyn Check>>) {
    v.push(Box::new(Hist));
}
