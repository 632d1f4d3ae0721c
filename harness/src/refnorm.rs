//! Reference model of the four normalization forms (UAX #15 / Unicode 15.1 chapter 3, D108..D117),
//! written over the frozen data.
use crate::ucd::{data, fast};
use std::collections::HashMap;
use std::sync::OnceLock;

pub const NFD: u32 = 0;
pub const NFC: u32 = 1;
pub const NFKD: u32 = 2;
pub const NFKC: u32 = 3;
pub const FORM: [&str; 4] = ["NFD", "NFC", "NFKD", "NFKC"];

const SB: u32 = 0xAC00;

pub fn ccc(c: char) -> u8 {
    fast().ccc[c as usize]
}
fn is_can(c: char) -> bool {
    let c = c as usize;
    (fast().can[c / 64] >> (c % 64)) & 1 == 1
}

/// full decomposition of every code point that has one (Hangul aside)
fn full(compat: bool) -> &'static HashMap<char, Vec<char>> {
    static F: [OnceLock<HashMap<char, Vec<char>>>; 2] = [OnceLock::new(), OnceLock::new()];
    F[compat as usize].get_or_init(|| {
        fn rec(c: char, compat: bool, out: &mut Vec<char>) {
            match data().dm.get(&(c as u32)) {
                Some(v) if compat || is_can(c) => {
                    for x in v {
                        rec(*x, compat, out)
                    }
                }
                _ => out.push(c),
            }
        }
        let mut m = HashMap::new();
        for c in data().dm.keys() {
            let c = char::from_u32(*c).unwrap();
            let mut v = vec![];
            rec(c, compat, &mut v);
            if v != [c] {
                m.insert(c, v);
            }
        }
        m
    })
}
/// one-step canonical pairs that recompose
pub fn pairs() -> &'static HashMap<(char, char), char> {
    static F: OnceLock<HashMap<(char, char), char>> = OnceLock::new();
    F.get_or_init(|| {
        let mut m = HashMap::new();
        for (c, v) in &data().dm {
            let ch = char::from_u32(*c).unwrap();
            if v.len() == 2 && is_can(ch) && !data().bin("comp_ex", *c) {
                assert!(m.insert((v[0], v[1]), ch).is_none());
            }
        }
        m
    })
}

pub fn decompose_char(c: char, compat: bool, out: &mut Vec<char>) {
    let u = c as u32;
    if (SB..SB + 11172).contains(&u) {
        let i = u - SB;
        out.push(char::from_u32(0x1100 + i / 588).unwrap());
        out.push(char::from_u32(0x1161 + i % 588 / 28).unwrap());
        if i % 28 != 0 {
            out.push(char::from_u32(0x11A7 + i % 28).unwrap());
        }
        return;
    }
    if u < 0xA0 {
        out.push(c);
        return;
    }
    match full(compat).get(&c) {
        Some(v) => out.extend_from_slice(v),
        None => out.push(c),
    }
}

pub fn reorder(v: &mut [char]) {
    // stable sort of every maximal run of non-starters
    let mut i = 0;
    while i < v.len() {
        if ccc(v[i]) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && ccc(v[j]) != 0 {
            j += 1;
        }
        v[i..j].sort_by_key(|c| ccc(*c));
        i = j;
    }
}

pub fn compose_pair(a: char, b: char) -> Option<char> {
    let (x, y) = (a as u32, b as u32);
    if (0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y) {
        return char::from_u32(SB + ((x - 0x1100) * 21 + (y - 0x1161)) * 28);
    }
    if (SB..SB + 11172).contains(&x) && (x - SB) % 28 == 0 && (0x11A8..0x11C3).contains(&y) {
        return char::from_u32(x + (y - 0x11A7));
    }
    pairs().get(&(a, b)).copied()
}

pub fn compose(v: &[char], out: &mut Vec<char>) {
    out.clear();
    let mut last_starter: Option<usize> = None;
    for &c in v {
        let cc = ccc(c);
        if let Some(s) = last_starter {
            // D115: blocked if a character between has ccc 0 or a ccc >= cc
            let adjacent = s + 1 == out.len();
            let prev = if adjacent { 0 } else { ccc(out[out.len() - 1]) };
            let blocked = !adjacent && (prev == 0 || prev >= cc);
            if !blocked {
                if let Some(p) = compose_pair(out[s], c) {
                    out[s] = p;
                    continue;
                }
            }
        }
        if cc == 0 {
            last_starter = Some(out.len());
        }
        out.push(c);
    }
}

pub fn normalize(s: &str, form: u32) -> String {
    let mut v = Vec::with_capacity(s.len() * 2);
    for c in s.chars() {
        decompose_char(c, form >= 2, &mut v);
    }
    reorder(&mut v);
    if form & 1 == 1 {
        let mut o = Vec::with_capacity(v.len());
        compose(&v, &mut o);
        v = o;
    }
    v.into_iter().collect()
}

/// NFD of a string is what decides canonical equivalence
pub fn nfd(s: &str) -> String {
    normalize(s, NFD)
}
