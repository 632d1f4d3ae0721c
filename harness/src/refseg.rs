//! Reference model of extended grapheme cluster segmentation: UAX #29 revision 43 (Unicode 15.1),
//! written as a finite automaton over the classes GB3..GB13 distinguish.
use crate::ucd::{fast, Data};

// Classes: Grapheme_Cluster_Break refined by Extended_Pictographic and Indic_Conjunct_Break.
pub const OTHER: u8 = 0;
pub const CR: u8 = 1;
pub const LF: u8 = 2;
pub const CN: u8 = 3;
pub const EX_NONE: u8 = 4; // Extend, InCB=None
pub const EX_EXT: u8 = 5; // Extend, InCB=Extend
pub const EX_LINK: u8 = 6; // Extend, InCB=Linker
pub const ZWJ: u8 = 7;
pub const RI: u8 = 8;
pub const PP: u8 = 9;
pub const SM: u8 = 10;
pub const L: u8 = 11;
pub const V: u8 = 12;
pub const T: u8 = 13;
pub const LV: u8 = 14;
pub const LVT: u8 = 15;
pub const EP: u8 = 16; // Other, Extended_Pictographic
pub const CONS: u8 = 17; // Other, InCB=Consonant
pub const EX_Q: u8 = 18; // Extend whose InCB is left open (see DESIGN.md)
pub const ODD: u8 = 19; // a combination 15.1 does not contain
pub const NCLASS: usize = 18;
pub const CLASS_NAME: [&str; 20] = [
    "Other", "CR", "LF", "Control", "Extend", "Extend/InCB=Extend", "Extend/InCB=Linker", "ZWJ", "RI", "Prepend", "SpacingMark",
    "L", "V", "T", "LV", "LVT", "ExtPict", "InCB=Consonant", "Extend/InCB=?", "odd",
];

pub fn class_of(d: &Data, c: u32) -> u8 {
    let g = d.enums["gcb"].key(c);
    let i = d.enums["incb"].key(c);
    let p = d.bin("ext_pict", c);
    match (g, i, p) {
        ("XX", "None", false) => OTHER,
        ("XX", "None", true) => EP,
        ("XX", "Consonant", false) => CONS,
        ("CR", "None", false) => CR,
        ("LF", "None", false) => LF,
        ("CN", "None", false) => CN,
        ("EX", "None", false) => EX_NONE,
        ("EX", "Extend", false) => EX_EXT,
        ("EX", "Linker", false) => EX_LINK,
        ("EX", "?", false) => EX_Q,
        ("ZWJ", "Extend", false) => ZWJ,
        ("RI", "None", false) => RI,
        ("PP", "None", false) => PP,
        ("SM", "None", false) => SM,
        ("L", "None", false) => L,
        ("V", "None", false) => V,
        ("T", "None", false) => T,
        ("LV", "None", false) => LV,
        ("LVT", "None", false) => LVT,
        _ => ODD,
    }
}

/// State of the automaton after a character: what the rules can still ask about the text before.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct St {
    pub last: u8,
    /// \p{ExtPict} Extend* has just been read (emoji = 1) or \p{ExtPict} Extend* ZWJ (emoji = 2)
    pub emoji: u8,
    /// Consonant [Extend Linker]* read, without (1) or with (2) a Linker
    pub indic: u8,
    /// odd number of RI at the end
    pub ri_odd: bool,
}

pub fn start(c: u8) -> St {
    St {
        last: c,
        emoji: (c == EP) as u8,
        indic: (c == CONS) as u8,
        ri_odd: c == RI,
    }
}

/// (is there a boundary between the text read so far and a character of class c, the next state)
pub fn step(s: St, c: u8) -> (bool, St) {
    let p = s.last;
    let ctl = |x: u8| x == CR || x == LF || x == CN;
    let ext = |x: u8| matches!(x, EX_NONE | EX_EXT | EX_LINK | EX_Q);
    let brk = if p == CR && c == LF {
        false // GB3
    } else if ctl(p) {
        true // GB4
    } else if ctl(c) {
        true // GB5
    } else if p == L && matches!(c, L | V | LV | LVT) {
        false // GB6
    } else if matches!(p, LV | V) && matches!(c, V | T) {
        false // GB7
    } else if matches!(p, LVT | T) && c == T {
        false // GB8
    } else if ext(c) || c == ZWJ {
        false // GB9
    } else if c == SM {
        false // GB9a
    } else if p == PP {
        false // GB9b
    } else if s.indic == 2 && c == CONS {
        false // GB9c
    } else if s.emoji == 2 && c == EP {
        false // GB11
    } else if p == RI && c == RI && s.ri_odd {
        false // GB12, GB13
    } else {
        true // GB999
    };
    let emoji = if c == EP {
        1
    } else if s.emoji == 1 && ext(c) {
        1
    } else if s.emoji == 1 && c == ZWJ {
        2
    } else {
        0
    };
    let indic = if c == CONS {
        1
    } else if s.indic > 0 && matches!(c, EX_EXT | ZWJ) {
        s.indic
    } else if s.indic > 0 && c == EX_LINK {
        2
    } else {
        0
    };
    let ri_odd = c == RI && !(p == RI && s.ri_odd);
    (brk, St { last: c, emoji, indic, ri_odd })
}

/// Lengths in bytes of the clusters of a string.
pub fn boundaries(s: &str, out: &mut Vec<usize>) {
    out.clear();
    let f = &fast().seg;
    let mut st: Option<St> = None;
    for (i, ch) in s.char_indices() {
        let c = f[ch as usize];
        match st {
            None => st = Some(start(c)),
            Some(x) => {
                let (b, n) = step(x, c);
                if b {
                    out.push(i);
                }
                st = Some(n);
            }
        }
    }
    if !s.is_empty() {
        out.push(s.len());
    }
}
