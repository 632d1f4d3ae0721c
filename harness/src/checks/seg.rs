//! S01..S03: extended grapheme cluster segmentation.
use super::*;
use crate::core::*;
use crate::refseg::{self, *};
use crate::ucd::{chars, fast, hex};
use seshat::unicode::Segmentation;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::OnceLock;

/// One symbol per class of the automaton, plus U+0000 (a Control the code could confuse with "end of text").
pub const ALPHA: [u32; 19] = [
    'a' as u32, 0x0D, 0x0A, 0x01, 0x200C, 0x0308, 0x094D, 0x200D, 0x1F1E6, 0x0600, 0x0903, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x231A,
    0x0915, 0x00,
];
/// classes whose effect reaches further than their neighbour
const DEEP: [u32; 9] = [0x0915, 0x094D, 0x0308, 0x200C, 0x200D, 0x1F600, 0x0903, 0x1F1E6, 'a' as u32];
/// small alphabets, one per long-range rule
const EMOJI: [u32; 5] = [0x1F600, 0x200D, 0x0308, 0x0903, 0x1F3FB];
const INDIC: [u32; 5] = [0x0915, 0x094D, 0x093C, 0x0903, 0x034F];
const FLAGS: [u32; 4] = [0x1F1E6, 0x0308, 'a' as u32, 0x200D];
const HANGUL: [u32; 6] = [0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x0308];
/// other members of the classes, of every UTF-8 length
pub const POOL: [u32; 44] = [
    0x62, 0xE9, 0x4E00, 0x10330, 0xA9, 0x2764, 0x1F469, 0x1F3FE, 0xFE0F, 0x20E3, 0xE0061, 0xE007F, 0x0300, 0x034F, 0x0483, 0x0E31, 0x0E33, 0x1D165,
    0x1D166, 0x110BD, 0x06DD, 0x0D4E, 0x0CCD, 0x0ACD, 0x0995, 0x0C15, 0x09CD, 0x0D4D, 0x0B15, 0x0A95, 0xA960, 0xD7B0, 0xD7CB, 0xD7A3, 0xD788,
    0x1F1FF, 0x200B, 0x00AD, 0xE0001, 0x2028, 0x7F, 0x0BCD, 0x0915, 0x302E,
];

fn contexts() -> &'static Vec<(Vec<u32>, Vec<u32>)> {
    static C: OnceLock<Vec<(Vec<u32>, Vec<u32>)>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<(Vec<u32>, Vec<u32>)> = vec![(vec![], vec![])];
        for a in &ALPHA[..18] {
            v.push((vec![*a], vec![]));
            v.push((vec![], vec![*a]));
        }
        let (k, h, n, z, e, x, r, s) = (0x0915, 0x094D, 0x0308, 0x200D, 0x231A, 'a' as u32, 0x1F1E6, 0x0903);
        for (p, q) in [
            (vec![k, h], vec![]),
            (vec![k, h, n], vec![]),
            (vec![k], vec![k]),
            (vec![k], vec![h, k]),
            (vec![k, h], vec![k]),
            (vec![k, n], vec![h, n, k]),
            (vec![], vec![h, k]),
            (vec![e, z], vec![]),
            (vec![e], vec![z, e]),
            (vec![e], vec![e]),
            (vec![e, z], vec![z, e]),
            (vec![], vec![z, e]),
            (vec![r], vec![r]),
            (vec![r, r], vec![r]),
            (vec![], vec![r, r]),
            (vec![x], vec![s]),
            (vec![x, n], vec![n, x]),
            (vec![0x1F1E6, 0x1F1E6], vec![]),
        ] {
            v.push((p, q));
        }
        v
    })
}

fn members(class: u8) -> &'static Vec<u32> {
    static M: OnceLock<Vec<Vec<u32>>> = OnceLock::new();
    &M.get_or_init(|| {
        let mut v = vec![vec![]; 20];
        for i in 0..SCALARS {
            let c = scalar(i);
            v[fast().seg[c as usize] as usize].push(c);
        }
        v
    })[class as usize]
}

fn pumps() -> &'static Vec<Vec<u32>> {
    static P: OnceLock<Vec<Vec<u32>>> = OnceLock::new();
    P.get_or_init(|| {
        let mut out = vec![];
        // every cycle of one or two classes
        let mut cycles: Vec<Vec<u32>> = ALPHA.iter().map(|a| vec![*a]).collect();
        for a in &ALPHA {
            for b in &ALPHA {
                if a != b {
                    cycles.push(vec![*a, *b]);
                }
            }
        }
        let (k, h, n, z, e, r) = (0x0915, 0x094D, 0x0308, 0x200D, 0x1F600, 0x1F1E6);
        for c in [vec![e, n, z], vec![k, h, n], vec![k, n, h], vec![k, h, z], vec![r, r, n], vec![e, z, n], vec![0x1100, 0x1160, 0x11A8]] {
            cycles.push(c);
        }
        let ends: [(&[u32], &[u32]); 9] = [
            (&[], &[]),
            (&['a' as u32], &['a' as u32]),
            (&[e], &[z, e]),
            (&[k], &[h, k]),
            (&[k, h], &[k]),
            (&[r], &[r]),
            (&[n], &[n]),
            (&[0x0D], &[0x0A]),
            (&[0x1100], &[0x11A8]),
        ];
        for c in &cycles {
            for (p, s) in &ends {
                for n in REPS_Q {
                    out.push(pump(p, c, *n, s));
                }
            }
        }
        out
    })
}
fn long_pumps(xl: bool) -> Vec<Vec<u32>> {
    let (k, h, n, z, e, r) = (0x0915u32, 0x094Du32, 0x0308u32, 0x200Du32, 0x1F600u32, 0x1F1E6u32);
    let mut out = vec![];
    let reps: Vec<u32> = if xl { REPS_XL.to_vec() } else { REPS_L.to_vec() };
    for c in [vec![n], vec![z], vec![r], vec![h], vec![k, h], vec![e, z], vec![k, n, h], vec!['a' as u32, n], vec![0x1100], vec![0x0D, 0x0A], vec![0x0600], vec![0x0903], vec![0x200C]] {
        for (p, s) in [(vec![], vec![]), (vec![e], vec![z, e]), (vec![k], vec![h, k]), (vec![r], vec![r]), (vec!['a' as u32], vec!['b' as u32])] {
            for m in &reps {
                out.push(pump(&p, &c, *m, &s));
            }
        }
    }
    out
}

// families
const F_ALL: u32 = 10; // + length
const F_DEEP: u32 = 30;
const F_EMOJI: u32 = 50;
const F_INDIC: u32 = 70;
const F_FLAGS: u32 = 90;
const F_HANGUL: u32 = 110;
const F_POOL: u32 = 130;
const F_CP: u32 = 200;
const F_PUMP: u32 = 201;
const F_LPUMP: u32 = 202;
const F_XPUMP: u32 = 203;
const F_CONJ: u32 = 204;
const F_EPEP: u32 = 205;
const F_RIRI: u32 = 206;
const F_CONJX: u32 = 207;
const F_EXT: u32 = 208;
const F_TWO: u32 = 209;
/// a cluster at every offset from the start and from another cluster
const F_OFF: u32 = 210;
/// every number of repetitions inside a cluster
const F_CONT: u32 = 211;
const FILL: [u32; 6] = ['a' as u32, 0xE9, 0x4E00, 0x1F600, 0x0915, 0x0A];
const WORK: [&[u32]; 12] = [
    &[],
    &[0x1F600, 0x200D, 0x1F600],
    &[0x1F600, 0x0308, 0x200D, 0x1F600],
    &[0x0915, 0x094D, 0x0915],
    &[0x0915, 0x093C, 0x094D, 0x200D, 0x0915],
    &[0x1F1E6, 0x1F1E6, 0x1F1E6],
    &[0x1F1E6],
    &[0x1100, 0x1160, 0x11A8],
    &[0x0D, 0x0A],
    &[0x0600, 'b' as u32, 0x0308, 0x0903],
    &[0x200D, 0x1F600],
    &[0x0308],
];
fn offsets() -> &'static Vec<u32> {
    static O: OnceLock<Vec<u32>> = OnceLock::new();
    O.get_or_init(|| (0..=144).chain([255u32, 512, 1024, 2048, 4096, 8192].iter().flat_map(|n| n - 5..=n + 2)).collect())
}
const CONT: [&[u32]; 14] = [
    &[0x0308],
    &[0x200D],
    &[0x200C],
    &[0x093C],
    &[0x094D],
    &[0x0903],
    &[0x0600],
    &[0x1F1E6],
    &[0x1100],
    &[0x1160],
    &[0x11A8],
    &[0x094D, 0x0915],
    &[0x200D, 0x1F600],
    &[0x0308, 0x200D, 0x1F600],
];
const CONT_ENDS: [(&[u32], &[u32]); 9] = [
    (&[], &[]),
    (&['a' as u32], &['a' as u32]),
    (&[0x1F600], &[0x200D, 0x1F600]),
    (&[0x0915], &[0x094D, 0x0915]),
    (&[0x0915, 0x094D], &[0x0915]),
    (&[0x1F1E6], &[0x1F1E6]),
    (&[0x0308], &[0x0308]),
    (&[0x1100], &[0x11A8]),
    (&[0x1F600], &[0x1F600]),
];
const CONT_MAX: u64 = 260;
/// a piece at every multiple of 512 of one long text
const F_GRID: u32 = 212;
const GRID: u32 = 4;
const GRID_SHIFTS: u64 = 17;
fn grids(t: Tier) -> u64 {
    WORK.len() as u64 * GRID_SHIFTS * 2 * t.pick(1, FILL.len() as u64)
}
fn grid(args: &[u32]) -> String {
    let (rot, shift, in_chars, fill, total) = (args[0] as usize, args[1] as usize, args[2] == 1, char::from_u32(args[3]).unwrap(), args[4] as usize);
    let mut s = String::with_capacity(total * 4);
    // length in bytes or in characters
    let mut n = 0;
    let unit = |c: char| if in_chars { 1 } else { c.len_utf8() };
    for (i, m) in (512..total).step_by(512).enumerate() {
        while n + shift < m {
            let c = if n + shift + unit(fill) <= m { fill } else { 'a' };
            s.push(c);
            n += unit(c);
        }
        for c in WORK[(i + rot) % WORK.len()] {
            let c = char::from_u32(*c).unwrap();
            s.push(c);
            n += unit(c);
        }
    }
    s
}
/// all pieces behind one another, again and again, at every shift: any border inside the text falls on every place of every piece
const F_DENSE: u32 = 213;
const STRIDES: [usize; 4] = [1, 5, 7, 11];
fn dense_cycle(k: usize) -> Vec<u32> {
    (0..WORK.len()).flat_map(|i| WORK[i * STRIDES[k] % WORK.len()].iter().copied().chain(if k % 2 == 0 { None } else { Some('c' as u32) })).collect()
}
fn dense_len() -> u64 {
    let b = |k: usize| dense_cycle(k).iter().map(|c| char::from_u32(*c).unwrap().len_utf8() as u64).sum::<u64>();
    (0..STRIDES.len()).map(b).max().unwrap()
}
/// two iterators, stepped in every order
const TWO: u32 = 3;
const IT: [u32; 5] = [0x1F1E6, 0x1F600, 0x200D, 0x0915, 0x094D];
fn it_word(i: u64) -> Vec<u32> {
    let (mut i, mut n, mut w) = (i, 0, vec![]);
    while i >= pow(IT.len(), n) {
        i -= pow(IT.len(), n);
        n += 1;
    }
    word(&IT, n, i, &mut w);
    w
}
fn it_words(t: Tier) -> u64 {
    (0..=t.pick(3, 4)).map(|n| pow(IT.len(), n)).sum()
}

struct Bounds {
    all: usize,
    deep: usize,
    emoji: usize,
    indic: usize,
    flags: usize,
    hangul: usize,
    pool: usize,
}

pub struct Seg {
    id: &'static str,
}

impl Seg {
    fn bounds(&self, t: Tier) -> Bounds {
        match (self.id, t) {
            ("S01", Tier::Quick) => Bounds { all: 6, deep: 7, emoji: 10, indic: 10, flags: 12, hangul: 8, pool: 3 },
            ("S01", Tier::Thorough) => Bounds { all: 6, deep: 8, emoji: 11, indic: 11, flags: 13, hangul: 9, pool: 4 },
            ("S02", Tier::Quick) => Bounds { all: 5, deep: 6, emoji: 8, indic: 8, flags: 10, hangul: 7, pool: 3 },
            (_, Tier::Quick) => Bounds { all: 5, deep: 5, emoji: 7, indic: 7, flags: 9, hangul: 6, pool: 3 },
            (_, Tier::Thorough) => Bounds { all: 5, deep: 7, emoji: 10, indic: 10, flags: 12, hangul: 8, pool: 4 },
        }
    }
    fn alpha(f: u32) -> Option<(&'static [u32], usize)> {
        Some(match f {
            10..=29 => (&ALPHA[..], (f - F_ALL) as usize),
            30..=49 => (&DEEP[..], (f - F_DEEP) as usize),
            50..=69 => (&EMOJI[..], (f - F_EMOJI) as usize),
            70..=89 => (&INDIC[..], (f - F_INDIC) as usize),
            90..=109 => (&FLAGS[..], (f - F_FLAGS) as usize),
            110..=129 => (&HANGUL[..], (f - F_HANGUL) as usize),
            130..=149 => (&POOL[..], (f - F_POOL) as usize),
            _ => return None,
        })
    }
}

thread_local! {
    static BUF: RefCell<(Vec<usize>, Vec<usize>)> = const { RefCell::new((Vec::new(), Vec::new())) };
}

/// runs the real iterator; Err when it does not end within len+1 items
fn clusters(s: &str) -> Result<Vec<&str>, String> {
    let mut v = Vec::with_capacity(8);
    for c in s.break_graphemes() {
        v.push(c);
        if v.len() > s.len() {
            return Err(format!("more than {} clusters from {}", s.len(), hex(s)));
        }
    }
    Ok(v)
}

fn eval_conform(kind: u32, s: &str) -> Verdict {
    BUF.with(|b| {
        let b = &mut *b.borrow_mut();
        refseg::boundaries(s, &mut b.0);
        let mut at = 0;
        let mut n = 0;
        for c in s.break_graphemes() {
            let end = at + c.len();
            if n >= b.0.len() || b.0[n] != end || &s[at..end] != c {
                return Err(format!(
                    "cluster {} is {} but UAX #29 puts the boundaries of {} at {:?}, implementation: {:?}",
                    n,
                    hex(c),
                    hex(s),
                    b.0.iter().take(40).collect::<Vec<_>>(),
                    clusters(s).map(|v| v.iter().take(40).map(|x| x.len()).collect::<Vec<_>>())
                ));
            }
            at = end;
            n += 1;
        }
        if n != b.0.len() {
            return Err(format!("{} clusters, UAX #29 gives {} for {}", n, b.0.len(), hex(s)));
        }
        // the same text as a part of another one, at other alignments
        if kind == PUMP && s.len() < 700 {
            // texts of the heap start at a multiple of 16
            for k in places(s.len(), 160) {
                let whole = format!("{}{}\u{200D}\u{301}", &"aaaaaaaaaaaaaaa"[..k], s);
                let mut at = 0;
                let ok = whole[k..k + s.len()].break_graphemes().enumerate().all(|(i, c)| {
                    at += c.len();
                    b.0.get(i) == Some(&at)
                });
                if !ok || at != s.len() {
                    return Err(format!("the clusters of {} depend on where the text lies in memory", hex(s)));
                }
            }
        }
        Ok(if n >= 1 && s.chars().nth(1).is_some() { Seen::Nontrivial } else { Seen::Trivial })
    })
}

fn eval_partition(s: &str) -> Verdict {
    let mut it = s.break_graphemes();
    let mut other = s.break_graphemes();
    let mut at = 0usize;
    let mut n = 0usize;
    let base = s.as_ptr() as usize;
    loop {
        let a = it.next();
        // a second iterator, advanced in lockstep but one call behind, must not disturb the first
        if n % 2 == 1 {
            let _ = other.next();
        }
        match a {
            None => break,
            Some(c) => {
                if c.is_empty() {
                    return Err(format!("empty cluster number {} in {}", n, hex(s)));
                }
                if c.as_ptr() as usize != base + at {
                    return Err(format!("cluster {} does not start where the one before it ended (byte {}) in {}", n, at, hex(s)));
                }
                at += c.len();
                if at > s.len() {
                    return Err(format!("cluster {} runs past the end of {}", n, hex(s)));
                }
                n += 1;
                if n > s.len() {
                    return Err(format!("more clusters than bytes in {}", hex(s)));
                }
            }
        }
    }
    if at != s.len() {
        return Err(format!("clusters stop at byte {} of {} in {}", at, s.len(), hex(s)));
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(format!("iterator yields again after its end on {}", hex(s)));
        }
    }
    // bulk adaptors see the same clusters as next()
    let c = s.break_graphemes().count();
    if c != n {
        return Err(format!("count() is {} but next() gave {} clusters on {}", c, n, hex(s)));
    }
    if n > 0 {
        let last = s.break_graphemes().last();
        let nth = s.break_graphemes().nth(n - 1);
        if last != nth || last.map(|x| x.len()).unwrap_or(0) == 0 {
            return Err(format!("last() and nth({}) differ on {}", n - 1, hex(s)));
        }
    }
    let (lo, hi) = s.break_graphemes().size_hint();
    if lo > n || hi.map(|h| h < n).unwrap_or(false) {
        return Err(format!("size_hint ({}, {:?}) excludes the real count {} on {}", lo, hi, n, hex(s)));
    }
    Ok(if n >= 2 { Seen::Nontrivial } else { Seen::Trivial })
}

/// args: schedule bits, length of the first text, first text, second text
fn eval_two(args: &[u32]) -> Verdict {
    let (mask, n) = (args[0], args[1] as usize);
    let a = chars(&args[2..2 + n]);
    let b = if args[2 + n..] == args[2..2 + n] { None } else { Some(chars(&args[2 + n..])) };
    let b: &str = b.as_deref().unwrap_or(&a);
    let (va, vb) = (clusters(&a)?, clusters(b)?);
    let (mut ia, mut ib) = (a.break_graphemes(), b.break_graphemes());
    let (mut na, mut nb) = (0, 0);
    for k in 0..va.len() + vb.len() + 2 {
        let (got, exp, who) = if mask >> k & 1 == 1 {
            na += 1;
            (ia.next(), va.get(na - 1), &*a)
        } else {
            nb += 1;
            (ib.next(), vb.get(nb - 1), b)
        };
        if got != exp.copied() {
            return Err(format!("two iterators over {} and {}, order {:b}: step {} on {} gives {:?}, alone {:?}", hex(&a), hex(b), mask, k, hex(who), got.map(hex), exp.map(|x| hex(x))));
        }
    }
    Ok(if va.len() > 1 && vb.len() > 1 { Seen::Nontrivial } else { Seen::Trivial })
}

fn eval_restart(s: &str) -> Verdict {
    let v = clusters(s)?;
    let total: usize = v.iter().map(|c| c.len()).sum();
    if total != s.len() {
        return Err(format!("clusters cover {} of {} bytes of {}", total, s.len(), hex(s)));
    }
    // only the first and last cuts of very long texts (the work is quadratic)
    let picks: Vec<usize> = if v.len() <= 24 { (0..v.len()).collect() } else { vec![0, 1, 2, v.len() / 2, v.len() - 2, v.len() - 1] };
    let mut at = 0;
    let mut off = vec![];
    for c in &v {
        off.push(at);
        at += c.len();
    }
    for &i in &picks {
        let o = off[i];
        // skipping ahead in one call lands on the same cluster, and goes on from there
        let mut it = s.break_graphemes();
        if it.nth(i) != Some(v[i]) || it.next() != v.get(i + 1).copied() {
            return Err(format!("nth({}) of {} lands elsewhere", i, hex(s)));
        }
        // each cluster alone is one cluster
        let alone = clusters(v[i])?;
        if alone.len() != 1 {
            return Err(format!("cluster {} of {} falls apart alone into {} clusters", hex(v[i]), hex(s), alone.len()));
        }
        // the rest segments as before
        let rest = clusters(&s[o..])?;
        if rest.len() != v.len() - i || rest.iter().zip(&v[i..]).any(|(a, b)| a.len() != b.len()) {
            return Err(format!("segmenting {} from boundary {} gives other clusters", hex(s), o));
        }
        // the text before the boundary segments as before
        let pre = clusters(&s[..o])?;
        if pre.len() != i || pre.iter().zip(&v[..i]).any(|(a, b)| a.len() != b.len()) {
            return Err(format!("cutting {} at boundary {} changes the clusters before it", hex(s), o));
        }
    }
    // appending after a control or before one never changes the clusters
    if v.len() <= 24 {
        let t = format!("\n{}\n", s);
        let w = clusters(&t)?;
        let lf_joined = v.len();
        let mut exp: Vec<usize> = vec![1];
        exp.extend(v.iter().map(|c| c.len()));
        // CR LF is the one pair a newline joins
        if s.ends_with('\r') {
            *exp.last_mut().unwrap() += 1;
        } else {
            exp.push(1);
        }
        if w.iter().map(|c| c.len()).collect::<Vec<_>>() != exp {
            return Err(format!("{} between newlines segments differently ({} clusters alone)", hex(s), lf_joined));
        }
    }
    Ok(if v.len() >= 2 && v.len() < s.chars().count() { Seen::Nontrivial } else { Seen::Trivial })
}

impl Check for Seg {
    fn id(&self) -> &'static str {
        self.id
    }
    fn level(&self) -> &'static str {
        if self.id == "S01" {
            "model_checking"
        } else {
            "exploration"
        }
    }
    fn units(&self, t: Tier) -> Vec<Unit> {
        let b = self.bounds(t);
        let mut u = vec![];
        let blk = 20000;
        for n in 0..=b.all {
            blocks(&mut u, F_ALL + n as u32, pow(ALPHA.len(), n), blk);
        }
        blocks(&mut u, F_CP, SCALARS, 4096);
        for n in 1..=b.pool {
            blocks(&mut u, F_POOL + n as u32, pow(POOL.len(), n), blk);
        }
        for n in 5..=b.deep {
            blocks(&mut u, F_DEEP + n as u32, pow(DEEP.len(), n), blk);
        }
        for n in 5..=b.emoji {
            blocks(&mut u, F_EMOJI + n as u32, pow(EMOJI.len(), n), blk);
        }
        for n in 5..=b.indic {
            blocks(&mut u, F_INDIC + n as u32, pow(INDIC.len(), n), blk);
        }
        for n in 6..=b.flags {
            blocks(&mut u, F_FLAGS + n as u32, pow(FLAGS.len(), n), blk);
        }
        for n in 6..=b.hangul {
            blocks(&mut u, F_HANGUL + n as u32, pow(HANGUL.len(), n), blk);
        }
        let (nc, nl) = (members(CONS).len() as u64, members(EX_LINK).len() as u64);
        blocks(&mut u, F_CONJ, nc * nl * nc, blk);
        blocks(&mut u, F_RIRI, 26 * 26 * 26, blk);
        blocks(&mut u, F_EXT, (members(EX_EXT).len() + members(EX_NONE).len() + members(ZWJ).len()) as u64, 64);
        blocks(&mut u, F_PUMP, pumps().len() as u64, 200);
        blocks(&mut u, F_LPUMP, long_pumps(false).len() as u64, 8);
        blocks(&mut u, F_OFF, offsets().len() as u64 * FILL.len() as u64 * (WORK.len() as u64).pow(2), 1024);
        blocks(&mut u, F_CONT, CONT_MAX * (CONT.len() * CONT_ENDS.len()) as u64, 512);
        if self.id == "S03" {
            blocks(&mut u, F_TWO, it_words(t) * it_words(t), 512);
        } else {
            blocks(&mut u, F_XPUMP, long_pumps(true).len() as u64, 1);
            blocks(&mut u, F_GRID, grids(t), 2);
            blocks(&mut u, F_DENSE, dense_len() * STRIDES.len() as u64, 2);
        }
        if t == Tier::Thorough {
            let ne = members(EP).len() as u64;
            blocks(&mut u, F_EPEP, ne * ne, 200000);
            blocks(&mut u, F_CONJX, nc * nl * nc, blk);
        }
        u
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        let mut w = vec![];
        if let Some((alpha, len)) = Seg::alpha(u.family) {
            for i in u.lo..u.hi {
                word(alpha, len, i, &mut w);
                cx.case(WORD, &w);
                if cx.stopped() {
                    return;
                }
            }
            return;
        }
        for i in u.lo..u.hi {
            if cx.stopped() {
                return;
            }
            match u.family {
                F_CP => {
                    let c = scalar(i);
                    if fast().seg[c as usize] == EX_Q || ALPHA.contains(&c) {
                        continue;
                    }
                    // Unassigned and other plain code points: the pair contexts settle their class
                    for (p, s) in contexts() {
                        w.clear();
                        w.extend_from_slice(p);
                        w.push(c);
                        w.extend_from_slice(s);
                        cx.case(WORD, &w);
                    }
                }
                F_TWO => {
                    let n = it_words(cx.tier);
                    let (a, b) = (it_word(i / n), it_word(i % n));
                    let (sa, sb) = (chars(&a), chars(&b));
                    let (na, nb) = match (guard(|| clusters(&sa).map(|v| v.len())), guard(|| clusters(&sb).map(|v| v.len()))) {
                        (Ok(Ok(x)), Ok(Ok(y))) => (x + 1, y + 1),
                        _ => (1, 1),
                    };
                    for m in 0u32..1 << (na + nb) {
                        if m.count_ones() as usize == na {
                            let mut v = vec![m, a.len() as u32];
                            v.extend(&a);
                            v.extend(&b);
                            cx.case(TWO, &v);
                        }
                    }
                }
                F_OFF => {
                    let k = WORK.len() as u64;
                    let (a, b) = (WORK[(i % k) as usize], WORK[(i / k % k) as usize]);
                    let fill = FILL[(i / k / k % FILL.len() as u64) as usize];
                    let n = offsets()[(i / k / k / FILL.len() as u64) as usize];
                    w.clear();
                    w.extend_from_slice(b);
                    w.extend_from_slice(&['c' as u32; 3][..(i / k % 2) as usize * 3]);
                    cx.case(PUMP, &pump(a, &[fill], n, &w));
                }
                F_CONT => {
                    let (c, e) = (CONT[i as usize % CONT.len()], CONT_ENDS[i as usize / CONT.len() % CONT_ENDS.len()]);
                    let n = 1 + i / (CONT.len() * CONT_ENDS.len()) as u64;
                    cx.case(PUMP, &pump(e.0, c, n as u32, e.1));
                }
                F_GRID => {
                    let k = WORK.len() as u64;
                    let (r, sh, unit, f) = (i % k, i / k % GRID_SHIFTS, i / k / GRID_SHIFTS % 2, i / k / GRID_SHIFTS / 2);
                    cx.case(GRID, &[r as u32, sh as u32, unit as u32, FILL[f as usize], cx.tier.pick(69_632, 1_052_672)]);
                }
                F_DENSE => {
                    let c = dense_cycle(i as usize % STRIDES.len());
                    let n = cx.tier.pick(70_000, 300_000) / c.len() as u32;
                    cx.case(PUMP, &pump(&vec!['a' as u32; i as usize / STRIDES.len()], &c, n, &[]));
                }
                F_PUMP => cx.case(PUMP, &pumps()[i as usize]),
                F_LPUMP => cx.case(PUMP, &long_pumps(false)[i as usize]),
                F_XPUMP => cx.case(PUMP, &long_pumps(true)[i as usize]),
                F_CONJ | F_CONJX => {
                    let (m, l) = (members(CONS), members(EX_LINK));
                    let (nc, nl) = (m.len() as u64, l.len() as u64);
                    let (a, b, c) = (m[(i / (nl * nc)) as usize], l[(i / nc % nl) as usize], m[(i % nc) as usize]);
                    if u.family == F_CONJ {
                        cx.case(WORD, &[a, b, c]);
                    } else {
                        cx.case(WORD, &[a, 0x093C, b, 0x200D, c, 0x0308, c]);
                    }
                }
                F_EPEP => {
                    let m = members(EP);
                    let n = m.len() as u64;
                    cx.case(WORD, &[m[(i / n) as usize], 0x200D, m[(i % n) as usize]]);
                }
                F_RIRI => {
                    let r = |x: u64| 0x1F1E6 + (x % 26) as u32;
                    cx.case(WORD, &[r(i / 676), r(i / 26), r(i)]);
                }
                F_EXT => {
                    // every Extend character inside the two long-range rules and after every class
                    let mut all = members(EX_EXT).clone();
                    all.extend(members(EX_NONE));
                    all.extend(members(ZWJ));
                    let x = all[i as usize];
                    let (k, h, z, e) = (0x0915, 0x094D, 0x200D, 0x1F600);
                    for c in [
                        vec![e, x, x, z, e],
                        vec![e, 0x0308, x, z, e],
                        vec![e, x, 0x0308, z, e],
                        vec![e, z, x, e],
                        vec![e, z, x, z, e],
                        vec![e, x, e],
                        vec![k, x, h, x, k],
                        vec![k, h, x, h, k],
                        vec![k, x, x, h, k],
                        vec![k, h, x, x, k],
                        vec![k, x, 0x093C, h, k],
                        vec![k, h, k, x, k],
                        vec![0x1F1E6, x, 0x1F1E6, 0x1F1E6],
                        vec![0x1F1E6, 0x1F1E6, x, 0x1F1E6, 0x1F1E6],
                        vec![0x0600, x, 'a' as u32],
                        vec![0x0D, x, 0x0A],
                        vec![0x1100, x, 0x1160],
                    ] {
                        cx.case(WORD, &c);
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        if kind == TWO {
            return eval_two(args);
        }
        let s = if kind == GRID { grid(args) } else if kind == PUMP { unpump(args) } else { chars(args) };
        match self.id {
            "S01" => eval_conform(kind, &s),
            "S02" => eval_partition(&s),
            _ => eval_restart(&s),
        }
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        if kind == TWO {
            let n = args[1] as usize;
            return format!("iterators over {} and {}, order {:b} (lowest bit first, 1 = first)", hex(&chars(&args[2..2 + n])), hex(&chars(&args[2 + n..])), args[0]);
        }
        if kind == GRID {
            return format!("{:?}: pieces {} places before every multiple of 512 {}, filled with {}, rotation {}, to {}", args, args[1], ["bytes", "characters"][args[2] as usize], hex(&chars(&args[3..4])), args[0], args[4]);
        }
        show_text(kind, args)
    }
    fn rule(&self, t: Tier) -> String {
        let b = self.bounds(t);
        format!("every string of at most {} symbols over 19 symbols (one code point per class the UAX #29 rules distinguish, and U+0000); of at most {} over the 9 context-carrying classes; of at most {} / {} / {} / {} over the emoji / conjunct / flag / Hangul alphabets; of at most {} over 44 further members of every UTF-8 length; every scalar value in {} contexts; every consonant-linker-consonant and every regional-indicator triple; every Extend character inside the long-range rules; pumped cycles with up to 65537 repetitions; every number of repetitions up to 260 of 14 cycles in 9 frames; pairs of 12 pieces at every distance up to 144 (and around powers of two up to 8192) of 6 fillers (S01: these and the pumped ones also inside another text, at every alignment); S01, S02: one of 12 pieces at every distance up to 16 before every multiple of 512 (in bytes, in characters) of long texts, and the pieces repeated back to back in 4 orders, at every shift; S03 also: every pair of words over 5 symbols, two iterators stepped in every order. Non-trivial: the string has at least two characters (S02: two clusters; S03: two clusters and one of several characters). Families are disjoint by length or by symbol, cases within one are distinct.",
            b.all, b.deep, b.emoji, b.indic, b.flags, b.hangul, b.pool, contexts().len())
    }
    fn extra(&self) -> BTreeMap<String, u64> {
        // reachable states of the reference automaton, by breadth-first search
        let mut seen: BTreeSet<St> = (0..NCLASS as u8).map(refseg::start).collect();
        let mut q: VecDeque<(St, u64)> = seen.iter().map(|s| (*s, 1)).collect();
        let (mut tr, mut depth) = (0, 1);
        while let Some((s, d)) = q.pop_front() {
            depth = depth.max(d);
            for c in 0..NCLASS as u8 {
                tr += 1;
                let (_, n) = refseg::step(s, c);
                if seen.insert(n) {
                    q.push_back((n, d + 1));
                }
            }
        }
        BTreeMap::from([("states".into(), seen.len() as u64), ("transitions".into(), tr), ("depth_to_reach_every_state".into(), depth)])
    }
}

pub fn register(v: &mut Vec<Box<dyn Check>>) {
    for id in ["S01", "S02", "S03"] {
        v.push(Box::new(Seg { id }));
    }
}
