//! N01..N04: the normalization forms against the reference; N05: their algebra; N06: canonical
//! equivalence classes explored as a rewriting graph; N07: Hangul.
use super::*;
use crate::core::*;
use crate::refnorm::{self, ccc, FORM};
use crate::ucd::{chars, data, fast, hex};
use seshat::unicode::{Normalization, ToCodePoint, Ucd};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

const A: u32 = 'a' as u32;
const MARKS: [u32; 13] = [A, 0x0301, 0x0308, 0x0323, 0x0327, 0x0315, 0x0345, 0x05AE, 0x034F, 0xE9, 0x1EC7, 0x03B1, 0x1FB4];
const HANG: [u32; 18] = [
    0x1100, 0x1112, 0x1113, 0x1161, 0x1175, 0x1176, 0x1160, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xAC00, 0xAC01, 0xD788, 0xD7A3, 0x0301, 0x302E, A,
];
const STARTERS: [u32; 34] = [
    0x09C7, 0x09BE, 0x09D7, 0x09CB, 0x09CC, 0x0BC6, 0x0BC7, 0x0BBE, 0x0BD7, 0x0BCA, 0x0CC6, 0x0CC2, 0x0CD5, 0x0CCA, 0x0CCB, 0x0DD9, 0x0DCF, 0x0DCA,
    0x0DDC, 0x0DDD, 0x1025, 0x102E, 0x1026, 0x304B, 0x3099, 0x304C, 0x30D5, 0x309A, 0x11099, 0x110BA, 0x11131, 0x11127, 0x1112E, 0x0301,
];
const EXCL: [u32; 40] = [
    0x0F71, 0x0F72, 0x0F74, 0x0F73, 0x0F75, 0x0F80, 0x0F81, 0x0FB2, 0x0FB3, 0x0F76, 0x0F77, 0x0F78, 0x0F79, 0x0915, 0x0958, 0x093C, 0x0928, 0x0929,
    0x05D9, 0x05B4, 0xFB1D, 0x0344, 0x0308, 0x0301, 0x0340, 0x0341, 0x0374, 0x02B9, 0x212B, 0x00C5, 0x030A, 0x2ADC, 0x2ADD, 0x0338, 0x1D157, 0x1D165,
    0x1D15E, 0x1D160, 0xF900, 0x2F800,
];
const COMPAT: [u32; 34] = [
    0xFDFA, 0xFB01, 0x00A0, 0x00A8, 0x03D3, 0x2460, 0x3300, 0xFF76, 0xFF9E, 0x304B, 0x3099, 0x1E9B, 0x0323, 0x0307, 0x017F, 0xFFA1, 0xFFC2, 0xFFCA,
    0x3131, 0x314F, 0x1D400, 0x2126, 0x00BD, 0x2044, 0x0132, 0x01C4, 0xFE70, 0x064B, 0x320E, 0x2F00, 0x1161, 0x11A8, 0x0E33, A,
];
/// runs behind the two letters ab
const HSEQ: [u32; 7] = [0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, A, 0x0301];
const MIX: [u32; 14] = [A, 0x0301, 0x0323, 0x1100, 0x1161, 0x11A8, 0xAC00, 0x09C7, 0x09BE, 0x3099, 0x304B, 0xFB01, 0x00, 0x1F600];
const BIN1: [u32; 2] = [0x0301, 0x0323];
const BIN2: [u32; 2] = [0x0315, 0x0327];
const BIN3: [u32; 2] = [0x094D, 0x093C];
const TRI: [u32; 4] = [0x0301, 0x0323, 0x0345, 0x0300];
const CCC8: [u32; 8] = [0x0338, 0x093C, 0x094D, 0x0327, 0x0323, 0x0301, 0x0345, 0x0F74];

pub struct Sets {
    pub pairs: Vec<(u32, u32, u32)>,
    pub firsts: Vec<u32>,
    pub seconds: Vec<u32>,
    pub composites: Vec<u32>,
    pub marks: Vec<u32>,
    /// one mark per combining class
    pub ccc_reps: Vec<u32>,
    /// canonical decomposition, Hangul aside
    pub can: Vec<u32>,
    /// code points normalization can treat specially
    pub special: Vec<u64>,
    pub special_list: Vec<u32>,
    /// every character with a mapping, syllables aside
    pub dms: Vec<u32>,
}
pub fn sets() -> &'static Sets {
    static S: OnceLock<Sets> = OnceLock::new();
    S.get_or_init(|| {
        let mut pairs: Vec<(u32, u32, u32)> = refnorm::pairs().iter().map(|(k, v)| (k.0 as u32, k.1 as u32, *v as u32)).collect();
        pairs.sort();
        let firsts: BTreeSet<u32> = pairs.iter().map(|p| p.0).collect();
        let seconds: BTreeSet<u32> = pairs.iter().map(|p| p.1).collect();
        let composites: BTreeSet<u32> = pairs.iter().map(|p| p.2).collect();
        let marks: Vec<u32> = (0..SCALARS).map(scalar).filter(|c| fast().ccc[*c as usize] != 0).collect();
        let mut reps = BTreeMap::new();
        for m in &marks {
            reps.entry(fast().ccc[*m as usize]).or_insert(*m);
        }
        let mut can: Vec<u32> = data().dm.keys().copied().filter(|c| (fast().can[*c as usize / 64] >> (c % 64)) & 1 == 1).collect();
        can.sort();
        let mut special = vec![0u64; crate::ucd::N / 64];
        let mut set = |c: u32| special[c as usize / 64] |= 1 << (c % 64);
        data().dm.keys().for_each(|c| set(*c));
        marks.iter().for_each(|c| set(*c));
        firsts.iter().chain(&seconds).chain(&composites).for_each(|c| set(*c));
        (0xAC00..0xD7A4).chain(0x1100..0x1200).for_each(&mut set);
        for v in data().dm.values() {
            v.iter().for_each(|c| set(*c as u32));
        }
        let mut dms: Vec<u32> = data().dm.keys().copied().filter(|c| !(0xAC00..0xD7A4).contains(c)).collect();
        dms.sort();
        let special_list = (0..SCALARS).map(scalar).filter(|c| (special[*c as usize / 64] >> (c % 64)) & 1 == 1 && !(0xAC00..0xD7A4).contains(c)).collect();
        Sets {
            special_list,
            dms,
            pairs,
            firsts: firsts.into_iter().collect(),
            seconds: seconds.into_iter().collect(),
            composites: composites.into_iter().collect(),
            marks,
            ccc_reps: reps.into_values().collect(),
            can,
            special,
        }
    })
}
fn is_special(c: u32) -> bool {
    (sets().special[c as usize / 64] >> (c % 64)) & 1 == 1
}

const CTX_PLAIN: usize = 4;
fn contexts() -> &'static [(&'static [u32], &'static [u32])] {
    &[
        (&[], &[]),
        (&[A], &[]),
        (&[0xE9], &[0x0301]),
        (&[0x1100], &[0x1161]),
        (&[A, 0x0323], &[]),
        (&[0x0315], &[0x0300]),
        (&[A, 0x0345], &[0x0327, 0x0338]),
        (&[], &[0x3099]),
        (&[], &[0x0323, 0x0307]),
        (&[0xAC00], &[]),
        (&[], &[0x11A8]),
        (&[0x1112], &[0x11C2]),
        (&[0x0F71], &[0x0F72]),
        (&[0x304B], &[0x3099]),
        (&[0x0915], &[0x093C, 0x094D]),
        (&[0x034F], &[0x0301, 0x0323]),
        (&[0x17F], &[0x0323]),
        (&[0x1EC7, 0x0315], &[0x0301]),
    ]
}

fn pumps(thorough: bool) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let desc: Vec<u32> = sets().ccc_reps.iter().rev().copied().collect();
    let mut cycles: Vec<Vec<u32>> = [0x0301u32, 0x0323, 0x0345, 0x0F71, 0x0344, 0x0F73, 0xE9, 0x1EC7, 0xAC01, 0x1100, 0x1161, 0x11A8, A, 0x3099, 0xFB01, 0xFDFA, 0x09BE, 0x034F]
        .iter()
        .map(|c| vec![*c])
        .collect();
    cycles.extend([
        vec![0x0301, 0x0323],
        vec![0x0323, 0x0301],
        vec![0x0345, 0x0301, 0x0323, 0x0327, 0x0338],
        vec![A, 0x0301],
        vec![A, 0x0301, 0x0323],
        vec![0x0315, 0x0300],
        vec![0x1100, 0x1161],
        vec![0x1100, 0x1161, 0x11A8],
        vec![0xAC00, 0x11A8],
        vec![0x09C7, 0x09BE],
        vec![0x304B, 0x3099],
        vec![0x0F71, 0x0F72, 0x0F74],
        vec![0xFF76, 0xFF9E],
        desc[..20].to_vec(),
        desc[20..40].to_vec(),
    ]);
    let ends: [(&[u32], &[u32]); 6] =
        [(&[], &[]), (&[A], &[0x0323]), (&[0x1EC7], &[0x0338, A]), (&[0x0345], &[0x0301]), (&[0x1100], &[0x1161, 0x11A8]), (&[A], &[0x0301])];
    for c in &cycles {
        for (p, s) in &ends {
            for n in REPS_Q {
                if c.len() as u32 * n <= 1100 {
                    out.push(pump(p, c, *n, s));
                }
            }
        }
    }
    // long texts: every operation sits at the far end, past any buffer or chunk
    let reps: Vec<u32> = if thorough { REPS_L.to_vec() } else { REPS_L[..6].to_vec() };
    for n in reps {
        for c in [vec![A], vec![0xE9], vec![0x0301], vec![0x4E00], vec![0xAC00]] {
            if c[0] != 0x0301 || n < 1026 {
                for s in [vec![0x0301, 0x0323], vec![0x0323, 0x0301, A], vec![0x1100, 0x1161, 0x11A8], vec![0xFB01, 0x0345, 0x0327]] {
                    out.push(pump(&[], &c, n, &s));
                }
            }
        }
    }
    out
}

const F_W: [(u32, &[u32]); 12] = [
    (100, &MARKS),
    (120, &HANG),
    (140, &STARTERS),
    (160, &EXCL),
    (180, &COMPAT),
    (200, &MIX),
    (220, &BIN1),
    (240, &BIN2),
    (260, &BIN3),
    (280, &TRI),
    (300, &CCC8),
    (320, &HSEQ),
];
const F_CP: u32 = 1;
const F_PAIR: u32 = 2;
const F_FS: u32 = 3;
const F_FSS: u32 = 4;
const F_MM: u32 = 5;
const F_CM: u32 = 6;
const F_ALIAS: u32 = 7;
const F_PUMP: u32 = 8;
const F_SYL: u32 = 9;
const F_JAMO: u32 = 10;
const F_CMX: u32 = 11;
const F_CAN2: u32 = 12;
/// very long texts, one case per unit
const F_LONG: u32 = 13;
/// three, four marks, one per combining class, on a base
const F_CCC3: u32 = 14;
const F_CCC4: u32 = 15;
/// composites with two characters that compose
const F_CSS: u32 = 16;
/// every scalar value in the contexts F_CP keeps for characters normalization knows
const F_CPX: u32 = 17;
/// every ordered pair of characters normalization knows, syllables aside
const F_SP2: u32 = 18;
/// work at every offset from the start and from other work, past any word, chunk or buffer size
const F_OFF: u32 = 19;
/// every number of repetitions of one character
const F_CONT: u32 = 20;
/// every scalar value before every character that composes with something before it
const F_CPS: u32 = 21;
/// a long run of one mark with marks that sort before it behind it
const F_RUN: u32 = 22;
const RUN_TAILS: [&[u32]; 5] = [&[0x0316], &[0x0316, A, 0x030A, 0x0316], &[0x0316, 0x0327], &[0x0315, 0x0316], &[0x0315]];
const RUN_MAX: u64 = 70;
/// long runs, with other marks of the same class behind
const F_RUNL: u32 = 28;
/// pairs a key of 32 bits takes for a canonical one
const F_KEY: u32 = 29;
const RUNL_TAILS: [&[u32]; 3] = [&[0x0301, 0x0316], &[0x0301, 0x0316, 0x0300], &[0x0301, 0x0300, 0x0315]];
const RUNL: [u32; 16] = [30, 31, 32, 63, 64, 97, 126, 127, 128, 200, 254, 255, 256, 257, 300, 513];
const FILL: [u32; 5] = [A, 0xE9, 0x4E00, 0x1F600, 0xAC00];
/// (filler, distance): every distance up to 144, then around powers of two
fn offs() -> &'static Vec<(u32, u32)> {
    static O: OnceLock<Vec<(u32, u32)>> = OnceLock::new();
    O.get_or_init(|| {
        let mut v: Vec<(u32, u32)> = (0..145).chain(250..=258).flat_map(|n| FILL.map(|f| (f, n))).collect();
        v.extend((506..=514).flat_map(|n| [(A, n), (0xE9, n)]));
        // the long ones go up to the powers of two in bytes and in characters
        v.extend((1018..=1026).chain(2043..=2049).chain(4092..=4096).map(|n| (A, n)));
        v.extend((339..=342).map(|n| (0x4E00, n)));
        v
    })
}
const WORK: [&[u32]; 13] = [
    &[],
    &[0x0301],
    &[0x0323, 0x0301],
    &[0x0301, 0x0323],
    &[0x1100, 0x1161, 0x11A8],
    &[0x11A8],
    &[0xFB01, 0x0345, 0x0327],
    &[0x1EC7, 0x0315, 0x0300],
    &[0x0344],
    &[0x0958, 0x0301],
    &[0x212B],
    &[0x09C7, 0x09BE],
    &[0x1D15E, 0x1D165],
];
const CONT: [u32; 12] = [0x0301, 0x0323, 0x0345, 0x0344, 0x0F73, 0x1EC7, 0xAC01, 0x1161, 0x11A8, 0xFDFA, 0x09BE, 0x3099];
const CONT_ENDS: [(&[u32], &[u32]); 5] = [(&[], &[]), (&[A], &[0x0323]), (&[0x1EC7], &[0x0338, A]), (&[0x1100], &[0x1161, 0x11A8]), (&[A, 0x0345], &[0x0301])];
const CONT_MAX: u64 = 138;
/// a piece of work at every multiple of 512 of one long text
const F_GRID: u32 = 23;
const GRID: u32 = 9;
const GRID_SHIFTS: u64 = 17;
const GRID_LONG: u64 = 4;
fn grid(args: &[u32]) -> String {
    let (rot, shift, in_chars, fill, total) = (args[0] as usize, args[1] as usize, args[2] == 1, char::from_u32(args[3]).unwrap(), args[4] as usize);
    let mut s = String::with_capacity(total * 4);
    let mut n = 0;
    let unit = |c: char| if in_chars { 1 } else { c.len_utf8() };
    for (i, m) in (512..total).step_by(512).enumerate() {
        while n + shift < m {
            let c = if n + shift + unit(fill) <= m { fill } else { 'a' };
            s.push(c);
            n += unit(c);
        }
        for c in WORK[(i + rot) % WORK.len()] {
            let c = char::from_u32(*c).unwrap();
            s.push(c);
            n += unit(c);
        }
    }
    s
}
fn grid_args(i: u64, t: Tier) -> [u32; 5] {
    // ordering takes quadratic time: few texts are very long
    if i < GRID_LONG {
        return [i as u32, 1 + i as u32 / 2, i as u32 % 2, A, 66_048];
    }
    let (i, k) = (i - GRID_LONG, WORK.len() as u64);
    [(i % k) as u32, (i / k % GRID_SHIFTS) as u32, (i / k / GRID_SHIFTS % 2) as u32, FILL[[0, 2, 4, 1, 3][(i / k / GRID_SHIFTS / 2) as usize]], t.pick(4_352, 16_896)]
}
/// all pieces behind one another, again and again, at every shift
const F_DENSE: u32 = 24;
const STRIDES: [usize; 4] = [1, 5, 7, 12];
fn dense_cycle(k: usize) -> Vec<u32> {
    (0..WORK.len()).flat_map(|i| WORK[i * STRIDES[k] % WORK.len()].iter().copied().chain(if k % 2 == 0 { None } else { Some(A) })).collect()
}
fn dense_len() -> u64 {
    let b = |k: usize| dense_cycle(k).iter().map(|c| char::from_u32(*c).unwrap().len_utf8() as u64).sum::<u64>();
    (0..STRIDES.len()).map(b).max().unwrap()
}
/// every canonical pair, and every character with a mapping, again and again with gaps between
const F_PGAP: u32 = 25;
const F_PGAP_FEW: u32 = 26;
const F_DGAP: u32 = 27;
const GAPS: u32 = 52;
fn gap(i: u64) -> u32 {
    match i as u32 {
        i @ 0..=40 => i,
        i => [48, 63, 64, 65, 96, 100, 127, 128, 129, 150, 255][i as usize - 41],
    }
}
const GAPS_FEW: [u32; 12] = [0, 1, 7, 8, 15, 16, 25, 31, 32, 33, 64, 70];
const GAPS_DM: [u32; 4] = [5, 16, 33, 70];
const LONG_Q: [u32; 7] = [8193, 16385, 32767, 32769, 65533, 65535, 65537];
const LONG_SUFFIX: [&[u32]; 3] = [&[0x0323, 0x0301, A], &[0x1100, 0x1161, 0x11A8], &[0xFB01, 0x0345, 0x0327]];

struct Gen {
    /// largest word length per alphabet of F_W
    w: [usize; 12],
    fams: &'static [u32],
}

fn unit_count(f: u32, thorough: bool) -> u64 {
    let s = sets();
    match f {
        F_CP => SCALARS,
        F_PAIR => s.pairs.len() as u64,
        F_FS => (s.firsts.len() + s.composites.len()) as u64 * s.seconds.len() as u64,
        F_FSS => s.firsts.len() as u64 * (s.seconds.len() as u64).pow(2),
        F_MM => (s.marks.len() as u64).pow(2),
        F_CM => s.can.len() as u64 * (s.ccc_reps.len() + s.seconds.len()) as u64,
        F_CMX => s.can.len() as u64 * s.marks.len() as u64,
        F_ALIAS | F_KEY => s.pairs.len() as u64,
        F_PUMP => pumps(thorough).len() as u64,
        F_SYL => 11172,
        F_JAMO => 21 * 23 * 31,
        F_CAN2 => s.can.len() as u64,
        F_LONG => (LONG_Q.len() * LONG_SUFFIX.len()) as u64 + if thorough { 3 } else { 0 },
        F_CPX => SCALARS,
        F_SP2 => (s.special_list.len() as u64).pow(2),
        F_CCC3 => pow(s.ccc_reps.len(), 3),
        F_CCC4 => pow(s.ccc_reps.len(), 4),
        F_CSS => s.composites.len() as u64 * (s.seconds.len() as u64).pow(2),
        F_OFF => offs().len() as u64 * (WORK.len() as u64).pow(2),
        F_CONT => CONT_MAX * (CONT.len() * CONT_ENDS.len()) as u64,
        F_CPS => SCALARS,
        F_RUN => RUN_MAX * RUN_TAILS.len() as u64,
        F_RUNL => (RUNL.len() * RUNL_TAILS.len()) as u64,
        F_GRID => GRID_LONG + WORK.len() as u64 * GRID_SHIFTS * 2 * if thorough { 3 } else { 1 },
        F_DENSE => dense_len() * STRIDES.len() as u64,
        F_PGAP => s.pairs.len() as u64 * GAPS as u64,
        F_PGAP_FEW => (s.pairs.len() * GAPS_FEW.len()) as u64,
        F_DGAP => (s.dms.len() * GAPS_DM.len()) as u64,
        _ => 0,
    }
}

fn emit(cx: &mut Ctx, f: u32, thorough: bool, u: &Unit) {
    let s = sets();
    let mut w: Vec<u32> = vec![];
    if f >= 100 {
        let (base, alpha) = F_W.iter().rev().find(|(b, _)| *b <= f).unwrap();
        let len = (f - base) as usize;
        for i in u.lo..u.hi {
            word(alpha, len, i, &mut w);
            if *base == 320 {
                w.insert(0, A + 1);
            }
            if *base >= 220 {
                w.insert(0, A); // the mark alphabets run on a base letter
            }
            cx.case(WORD, &w);
            if cx.stopped() {
                return;
            }
        }
        return;
    }
    let p = if f == F_PUMP { pumps(thorough) } else { vec![] };
    for i in u.lo..u.hi {
        if cx.stopped() {
            return;
        }
        match f {
            F_CP => {
                let c = scalar(i);
                let n = if is_special(c) { contexts().len() } else { CTX_PLAIN };
                for (a, b) in &contexts()[..n] {
                    w.clear();
                    w.extend_from_slice(a);
                    w.push(c);
                    w.extend_from_slice(b);
                    cx.case(WORD, &w);
                }
            }
            F_PAIR => {
                let (a, b, c) = s.pairs[i as usize];
                cx.case(WORD, &[a, b]);
                cx.case(WORD, &[a, b, b]);
                cx.case(WORD, &[c, b]);
                cx.case(WORD, &[a, 0x034F, b]);
                cx.case(WORD, &[a, A, b]);
                cx.case(WORD, &[b, a]);
                cx.case(WORD, &[b, a, b]);
                cx.case(WORD, &[a, a, b, b]);
                for m in &s.ccc_reps {
                    cx.case(WORD, &[a, *m, b]);
                    cx.case(WORD, &[a, b, *m]);
                    cx.case(WORD, &[*m, a, b]);
                    cx.case(WORD, &[c, *m]);
                    cx.case(WORD, &[a, 0x0338, *m, b]);
                    cx.case(WORD, &[a, *m, 0x0345, b]);
                }
            }
            F_FS => {
                let k = s.seconds.len() as u64;
                let fi = (i / k) as usize;
                let a = if fi < s.firsts.len() { s.firsts[fi] } else { s.composites[fi - s.firsts.len()] };
                cx.case(WORD, &[a, s.seconds[(i % k) as usize], 0x0061]);
            }
            F_FSS => {
                let k = s.seconds.len() as u64;
                cx.case(WORD, &[s.firsts[(i / (k * k)) as usize], s.seconds[(i / k % k) as usize], s.seconds[(i % k) as usize]]);
            }
            F_MM => {
                let k = s.marks.len() as u64;
                cx.case(WORD, &[0x0041, s.marks[(i / k) as usize], s.marks[(i % k) as usize]]);
            }
            F_CM => {
                let k = (s.ccc_reps.len() + s.seconds.len()) as u64;
                let j = (i % k) as usize;
                let m = if j < s.ccc_reps.len() { s.ccc_reps[j] } else { s.seconds[j - s.ccc_reps.len()] };
                cx.case(WORD, &[s.can[(i / k) as usize], m]);
                cx.case(WORD, &[0x0065, m, s.can[(i / k) as usize]]);
            }
            F_CMX => {
                let k = s.marks.len() as u64;
                cx.case(WORD, &[s.can[(i / k) as usize], s.marks[(i % k) as usize], 0x0062]);
            }
            F_ALIAS => {
                // pairs that collide with a real one under truncation or packing of the key
                let (a, b, _) = s.pairs[i as usize];
                for k in 1..17u32 {
                    for (x, y) in [(a + k * 0x10000, b), (a, b + k * 0x10000), (a ^ (1 << (k + 3)), b), (a, b ^ (1 << (k + 3)))] {
                        if let (Some(_), Some(_)) = (char::from_u32(x), char::from_u32(y)) {
                            cx.case(WORD, &[x, y]);
                        }
                    }
                }
                cx.case(WORD, &[b, a]);
            }
            F_KEY => {
                let (a, b, _) = s.pairs[i as usize];
                let mut v = vec![];
                crate::ops::same_key(a, b, &mut v);
                for (x, y) in v {
                    cx.case(WORD, &[x, y]);
                }
            }
            F_PUMP => cx.case(PUMP, &p[i as usize]),
            F_SYL => {
                let c = 0xAC00 + i as u32;
                for t in 0x11A6..=0x11C4 {
                    cx.case(WORD, &[c, t]);
                }
                cx.case(WORD, &[0x1100, c, 0x11A8, 0x0301]);
                cx.case(WORD, &[c, 0x0323, 0x11A8]);
                cx.case(WORD, &[c, c]);
            }
            F_JAMO => {
                let (l, v, t) = (0x10FF + (i / (23 * 31)) as u32, 0x1160 + (i / 31 % 23) as u32, 0x11A6 + (i % 31) as u32);
                cx.case(WORD, &[l, v, t]);
                cx.case(WORD, &[l, v, 0x0301, t]);
                cx.case(WORD, &[l, 0x034F, v, t]);
                cx.case(WORD, &[l, l, v, t, t]);
                cx.case(WORD, &[t, v, l]);
            }
            F_CPX => {
                let c = scalar(i);
                if !is_special(c) {
                    for (a, b) in &contexts()[CTX_PLAIN..] {
                        w.clear();
                        w.extend_from_slice(a);
                        w.push(c);
                        w.extend_from_slice(b);
                        cx.case(WORD, &w);
                    }
                }
            }
            F_SP2 => {
                let k = s.special_list.len() as u64;
                cx.case(WORD, &[s.special_list[(i / k) as usize], s.special_list[(i % k) as usize]]);
            }
            F_LONG => {
                let k = LONG_SUFFIX.len();
                let (n, x) = (LONG_Q.get(i as usize / k).copied().unwrap_or(131073), LONG_SUFFIX[i as usize % k]);
                cx.case(PUMP, &pump(&[0x1EC7], &[A], n, x));
            }
            F_CCC3 | F_CCC4 => {
                word(&s.ccc_reps, if f == F_CCC3 { 3 } else { 4 }, i, &mut w);
                w.insert(0, A);
                cx.case(WORD, &w);
            }
            F_CSS => {
                let k = s.seconds.len() as u64;
                cx.case(WORD, &[s.composites[(i / (k * k)) as usize], s.seconds[(i / k % k) as usize], s.seconds[(i % k) as usize]]);
            }
            F_OFF => {
                // the longest ones first in every unit: i runs through works, then fillers, then offsets
                let k = WORK.len() as u64;
                let (a, b) = (WORK[(i % k) as usize], WORK[(i / k % k) as usize]);
                let (fill, n) = offs()[(i / k / k) as usize];
                // the longest distances only between works that change something
                if n > 2000 && (i % k % 3 != 0 || i / k % k == 0) {
                    continue;
                }
                let tail = [A; 3];
                w.clear();
                w.extend_from_slice(b);
                w.extend_from_slice(&tail[..(i / k % 2) as usize * 3]);
                cx.case(PUMP, &pump(a, &[fill], n as u32, &w));
            }
            F_CONT => {
                let (c, e) = (CONT[(i % CONT.len() as u64) as usize], CONT_ENDS[(i / CONT.len() as u64) as usize % CONT_ENDS.len()]);
                let n = 2 + i / (CONT.len() * CONT_ENDS.len()) as u64;
                cx.case(PUMP, &pump(e.0, &[c], n as u32, e.1));
            }
            F_RUNL => {
                let (t, n) = (RUNL_TAILS[i as usize % RUNL_TAILS.len()], RUNL[RUNL.len() - 1 - i as usize / RUNL_TAILS.len()]);
                cx.case(PUMP, &pump(&['q' as u32], &[0x030A], n, t));
            }
            F_RUN => {
                let (t, n) = (RUN_TAILS[i as usize % RUN_TAILS.len()], 1 + (i / RUN_TAILS.len() as u64) as u32);
                // two marks that move make large classes
                if t.len() != 2 || n < 12 || (31..36).contains(&n) || n >= 64 && n < 67 {
                    cx.case(PUMP, &pump(&['q' as u32], &[0x030A], n, t));
                }
            }
            F_GRID => cx.case(GRID, &grid_args(i, cx.tier)),
            F_DENSE => {
                let c = dense_cycle(i as usize % STRIDES.len());
                let n = cx.tier.pick(2_600, 9_000) / c.len() as u32;
                cx.case(PUMP, &pump(&vec![A; i as usize / STRIDES.len()], &c, n, &[]));
            }
            F_PGAP | F_PGAP_FEW => {
                let k = if f == F_PGAP { GAPS as u64 } else { GAPS_FEW.len() as u64 };
                let m = if f == F_PGAP { gap(i % k) } else { GAPS_FEW[(i % k) as usize] };
                let p = s.pairs[(i / k) as usize];
                let c: Vec<u32> = [p.0, p.1].into_iter().chain((0..m).map(|_| A)).collect();
                cx.case(PUMP, &pump(&vec!['b' as u32; m as usize], &c, if f == F_PGAP { 3 } else { 2 }, &[p.0, p.1]));
            }
            F_DGAP => {
                let k = GAPS_DM.len() as u64;
                let m = GAPS_DM[(i % k) as usize];
                let d = s.dms[(i / k) as usize];
                let c: Vec<u32> = [d].into_iter().chain((0..m).map(|_| A)).collect();
                cx.case(PUMP, &pump(&vec!['b' as u32; m as usize], &c, 2, &[d, 0x0316]));
            }
            F_CPS => {
                let c = scalar(i);
                for x in &s.seconds {
                    cx.case(WORD, &[c, *x]);
                }
            }
            F_CAN2 => {
                let c = s.can[i as usize];
                cx.case(WORD, &[c]);
                cx.case(WORD, &[c, c]);
                for m in &s.ccc_reps {
                    cx.case(WORD, &[c, *m]);
                    cx.case(WORD, &[0x0041, *m, c]);
                }
            }
            _ => unreachable!(),
        }
    }
}

fn gen_units(g: &Gen, thorough: bool) -> Vec<Unit> {
    let mut u = vec![];
    let maxw = *g.w.iter().max().unwrap();
    for n in 0..=maxw {
        for (k, (base, alpha)) in F_W.iter().enumerate() {
            if n <= g.w[k] && (n > 0 || k == 0) {
                blocks(&mut u, base + n as u32, pow(alpha.len(), n), 4000);
            }
        }
        if n == 2 {
            for f in g.fams.iter().filter(|f| **f != F_LONG) {
                let b = match *f {
                    F_CP | F_CPX | F_CPS => 1024,
                    F_OFF => 64,
                    F_CONT => 16,
                    F_RUN => 5,
                    F_RUNL => 1,
                    F_PUMP => 4,
                    F_GRID | F_DENSE => 1,
                    F_PGAP | F_PGAP_FEW | F_DGAP => 200,
                    F_PAIR | F_ALIAS | F_KEY | F_CAN2 => 8,
                    F_SYL | F_JAMO => 128,
                    _ => 4000,
                };
                blocks(&mut u, *f, unit_count(*f, thorough), b);
            }
        }
    }
    if g.fams.contains(&F_LONG) {
        blocks(&mut u, F_LONG, unit_count(F_LONG, thorough), 1);
    }
    u
}

fn apply(form: u32, s: &str) -> String {
    match form {
        0 => s.to_nfd(),
        1 => s.to_nfc(),
        2 => s.to_nfkd(),
        _ => s.to_nfkc(),
    }
}

pub struct Norm {
    id: &'static str,
    form: u32,
}
impl Norm {
    fn gen(&self, t: Tier) -> Gen {
        match t {
            Tier::Quick => Gen {
                w: [6, 5, 4, 4, 4, 5, 16, 16, 14, 9, 7, 6],
                fams: &[F_CP, F_PAIR, F_FS, F_FSS, F_MM, F_CM, F_CMX, F_ALIAS, F_PUMP, F_SYL, F_JAMO, F_CCC3, F_CCC4, F_CSS, F_OFF, F_CONT, F_LONG, F_GRID, F_DENSE, F_PGAP, F_DGAP, F_KEY],
            },
            Tier::Thorough => Gen {
                w: [7, 6, 5, 5, 5, 6, 19, 19, 17, 11, 8, 7],
                fams: &[F_CP, F_CPX, F_PAIR, F_FS, F_FSS, F_MM, F_CM, F_CMX, F_ALIAS, F_PUMP, F_SYL, F_JAMO, F_CCC3, F_CCC4, F_CSS, F_OFF, F_CONT, F_SP2, F_CPS, F_LONG, F_GRID, F_DENSE, F_PGAP, F_DGAP, F_KEY],
            },
        }
    }
}
impl Check for Norm {
    fn id(&self) -> &'static str {
        self.id
    }
    fn units(&self, t: Tier) -> Vec<Unit> {
        gen_units(&self.gen(t), t == Tier::Thorough)
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        // pumps(true) extends pumps(false), so indices mean the same in both tiers
        emit(cx, u.family, true, u)
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        let s = if kind == GRID { grid(args) } else { text(kind, args) };
        let exp = refnorm::normalize(&s, self.form);
        let got = apply(self.form, &s);
        if got != exp {
            return Err(format!("{} of {} is {} but Unicode 15.1 gives {}", FORM[self.form as usize], self.show(kind, args), hex(&got), hex(&exp)));
        }
        // the same text as a part of another one
        if kind == PUMP && s.len() < 700 {
            // texts of the heap start at a multiple of 16
            for k in places(s.len(), 120) {
                let whole = format!("{}{}\u{301}", &"aaaaaaaaaaaaaaa"[..k], s);
                let part = &whole[k..k + s.len()];
                if apply(self.form, part) != exp {
                    return Err(format!("{} of {} depends on where the text lies in memory", FORM[self.form as usize], show_text(kind, args)));
                }
            }
        }
        Ok(if got != s { Seen::Nontrivial } else { Seen::Trivial })
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        if kind == GRID {
            return format!("{:?}: pieces {} places before every multiple of 512 {}, filled with {}, rotation {}, to {}", args, args[1], ["bytes", "characters"][args[2] as usize], hex(&chars(&args[3..4])), args[0], args[4]);
        }
        show_text(kind, args)
    }
    fn rule(&self, t: Tier) -> String {
        let g = self.gen(t);
        format!("{} of: every scalar value alone and in up to {} contexts; every word up to length {:?} over 12 alphabets (Latin marks of different classes, Hangul edges, starter composites, exclusions and singletons, compatibility, mixed, five mark alphabets on a base, jamo and syllables behind two letters); every canonical pair with one mark of every combining class in each position; all firsts x seconds x seconds; all pairs of non-starters on a base; every canonical character with every mark and every second; composites x seconds x seconds; (thorough: every ordered pair of characters normalization knows, syllables aside); every Hangul syllable with every trailing jamo and the jamo cube around the composing ranges; keys that collide with real pairs under truncation, and with every pair some thousands that have its key when first and second are summed (50 multipliers), shifted and mixed or joined in 32 bits; every triple and quadruple of one mark per combining class on a base; pumped cycles (to 257 repetitions, long texts to 4097) and texts of up to 65539 (thorough: 131075) characters with all kinds of work at their ends; pairs of 13 pieces of work at every distance up to 144 of 5 fillers, and around powers of two up to 4096, at every alignment (long ones at three); every number up to 139 of repetitions of 12 characters in 5 frames; one of the pieces at every distance up to 16 before every multiple of 512 of texts of 4352 (thorough: 16896) bytes or characters, and four of 66048; every canonical pair four times with every gap up to 40 (and up to 255) between, every mapped character three times; the pieces back to back in 4 orders at every shift, to 2600 (9000) characters (thorough: every scalar value before every second of a pair). Non-trivial: the form differs from the input.", FORM[self.form as usize], contexts().len(), g.w)
    }
}

/// N05
pub struct Laws;
fn law(name: &str, s: &str, a: &str, b: &str) -> Result<(), String> {
    if a != b {
        return Err(format!("{} fails on {}: {} against {}", name, hex(s), hex(a), hex(b)));
    }
    Ok(())
}
impl Check for Laws {
    fn id(&self) -> &'static str {
        "N05"
    }
    fn units(&self, t: Tier) -> Vec<Unit> {
        let th = t == Tier::Thorough;
        gen_units(
            &if th {
                Gen { w: [6, 5, 4, 4, 4, 5, 14, 12, 10, 7, 6, 5], fams: &[F_CP, F_PAIR, F_FS, F_FSS, F_MM, F_CM, F_CMX, F_CAN2, F_CCC3, F_PUMP, F_OFF, F_CONT, F_JAMO, F_SYL, F_PGAP, F_DGAP, F_DENSE] }
            } else {
                Gen { w: [4, 4, 3, 3, 3, 4, 12, 10, 8, 6, 4, 4], fams: &[F_CP, F_PAIR, F_FS, F_CM, F_CAN2, F_PUMP, F_JAMO, F_PGAP_FEW] }
            },
            th,
        )
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        emit(cx, u.family, true, u)
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        let s = text(kind, args);
        let (d, c, kd, kc) = (s.to_nfd(), s.to_nfc(), s.to_nfkd(), s.to_nfkc());
        law("NFD idempotence", &s, &d.to_nfd(), &d)?;
        law("NFC idempotence", &s, &c.to_nfc(), &c)?;
        law("NFKD idempotence", &s, &kd.to_nfkd(), &kd)?;
        law("NFKC idempotence", &s, &kc.to_nfkc(), &kc)?;
        law("NFC(NFD(s)) = NFC(s)", &s, &d.to_nfc(), &c)?;
        law("NFD(NFC(s)) = NFD(s)", &s, &c.to_nfd(), &d)?;
        law("NFKD(NFC(s)) = NFKD(s)", &s, &c.to_nfkd(), &kd)?;
        law("NFKC(NFD(s)) = NFKC(s)", &s, &d.to_nfkc(), &kc)?;
        law("NFKC(NFKD(s)) = NFKC(s)", &s, &kd.to_nfkc(), &kc)?;
        law("NFKD(NFKC(s)) = NFKD(s)", &s, &kc.to_nfkd(), &kd)?;
        law("NFC(NFKC(s)) = NFKC(s)", &s, &kc.to_nfc(), &kc)?;
        law("NFD(NFKD(s)) = NFKD(s)", &s, &kd.to_nfd(), &kd)?;
        // well-formedness, by the frozen data
        for (f, compat) in [(&d, false), (&kd, true)] {
            let mut last = 0u8;
            for ch in f.chars() {
                let u = ch as u32;
                let syllable = (0xAC00..0xD7A4).contains(&u);
                let mapped = data().dm.contains_key(&u) && (compat || (fast().can[u as usize / 64] >> (u % 64)) & 1 == 1);
                if syllable || mapped {
                    return Err(format!("the decomposed form {} of {} keeps the decomposable U+{:04X}", hex(f), hex(&s), u));
                }
                let k = ccc(ch);
                if k != 0 && last > k {
                    return Err(format!("the decomposed form {} of {} is not in canonical order", hex(f), hex(&s)));
                }
                last = k;
            }
        }
        for f in [&c, &kc] {
            let mut last = 0u8;
            let mut starter: Option<char> = None;
            let mut adjacent = false;
            for ch in f.chars() {
                if ch.comp_ex() {
                    return Err(format!("the composed form {} of {} contains the composition exclusion U+{:04X}", hex(f), hex(&s), ch as u32));
                }
                let k = ccc(ch);
                if k != 0 && last > k {
                    return Err(format!("the composed form {} of {} is not in canonical order", hex(f), hex(&s)));
                }
                if let Some(l) = starter {
                    if (adjacent || (k != 0 && last < k)) && refnorm::compose_pair(l, ch).is_some() {
                        return Err(format!("the composed form {} of {} keeps the pair U+{:04X}, U+{:04X}, which composes", hex(f), hex(&s), l as u32, ch as u32));
                    }
                }
                last = k;
                adjacent = k == 0;
                if k == 0 {
                    starter = Some(ch);
                }
            }
        }
        // concatenation: normalizing the parts first does not matter
        let n = s.chars().count();
        if n >= 2 {
            let all: Vec<usize> = if kind == WORD { (1..n).collect() } else { BTreeSet::from([1, 2, n / 4, n / 2, n - 2, n - 1]).into_iter().filter(|k| *k > 0 && *k < n).collect() };
            let v: Vec<char> = s.chars().collect();
            for k in all {
                let (a, b): (String, String) = (v[..k].iter().collect(), v[k..].iter().collect());
                law("NFD(NFD(a)NFD(b)) = NFD(ab)", &s, &(a.to_nfd() + &b.to_nfd()).to_nfd(), &d)?;
                law("NFC(NFC(a)NFC(b)) = NFC(ab)", &s, &(a.to_nfc() + &b.to_nfc()).to_nfc(), &c)?;
                law("NFKD(NFKD(a)NFKD(b)) = NFKD(ab)", &s, &(a.to_nfkd() + &b.to_nfkd()).to_nfkd(), &kd)?;
                law("NFKC(NFKC(a)NFKC(b)) = NFKC(ab)", &s, &(a.to_nfkc() + &b.to_nfkc()).to_nfkc(), &kc)?;
            }
        }
        if s.is_ascii() {
            for f in 0..4 {
                law("ASCII text is unchanged", &s, &apply(f, &s), &s)?;
            }
        }
        Ok(if d != c || kd != d || c != s { Seen::Nontrivial } else { Seen::Trivial })
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        show_text(kind, args)
    }
    fn rule(&self, _t: Tier) -> String {
        "12 cross-form laws, well-formedness of the four results by the frozen data (decomposed, ordered, no exclusion, no unblocked pair left to compose), and the concatenation law at every split (long pumped texts: six splits), on every scalar value in up to 18 contexts, words over 12 alphabets, canonical pairs with one mark per combining class, firsts x seconds, the jamo cube, pumped cycles and every canonical pair three times with gaps up to 70 (thorough: all gaps, every mapped character so, pieces back to back, pieces of work at every distance up to 144). Non-trivial: the forms differ from each other or from the input.".into()
    }
}

/// N06: explores the whole canonical equivalence class of a seed by single rewriting steps.
pub struct Equiv;
static STATES: AtomicU64 = AtomicU64::new(0);
static EDGES: AtomicU64 = AtomicU64::new(0);
static CAPPED: AtomicU64 = AtomicU64::new(0);
const CLASS_CAP: usize = 6000;

/// reverse one-step canonical mappings, exclusions included
fn contract() -> &'static (HashMap<char, Vec<char>>, HashMap<(char, char), Vec<char>>) {
    static M: OnceLock<(HashMap<char, Vec<char>>, HashMap<(char, char), Vec<char>>)> = OnceLock::new();
    M.get_or_init(|| {
        let mut one: HashMap<char, Vec<char>> = HashMap::new();
        let mut two: HashMap<(char, char), Vec<char>> = HashMap::new();
        for c in &sets().can {
            let v = &data().dm[c];
            let ch = char::from_u32(*c).unwrap();
            if v.len() == 1 {
                one.entry(v[0]).or_default().push(ch);
            } else {
                two.entry((v[0], v[1])).or_default().push(ch);
            }
        }
        (one, two)
    })
}
fn successors(s: &[char], out: &mut Vec<Vec<char>>) {
    let (one, two) = contract();
    let can = |c: char| (fast().can[c as usize / 64] >> (c as u32 % 64)) & 1 == 1;
    let put = |out: &mut Vec<Vec<char>>, i: usize, n: usize, r: &[char]| {
        let mut v = s[..i].to_vec();
        v.extend_from_slice(r);
        v.extend_from_slice(&s[i + n..]);
        out.push(v);
    };
    for i in 0..s.len() {
        let c = s[i];
        let u = c as u32;
        if (0xAC00..0xD7A4).contains(&u) {
            let k = u - 0xAC00;
            if k % 28 == 0 {
                put(out, i, 1, &[char::from_u32(0x1100 + k / 588).unwrap(), char::from_u32(0x1161 + k % 588 / 28).unwrap()]);
            } else {
                put(out, i, 1, &[char::from_u32(u - k % 28).unwrap(), char::from_u32(0x11A7 + k % 28).unwrap()]);
            }
        } else if can(c) {
            put(out, i, 1, &data().dm[&u]);
        }
        if let Some(v) = one.get(&c) {
            for x in v {
                put(out, i, 1, &[*x]);
            }
        }
        if i + 1 < s.len() {
            let e = s[i + 1];
            if let Some(v) = two.get(&(c, e)) {
                for x in v {
                    put(out, i, 2, &[*x]);
                }
            }
            if let Some(h) = refnorm::compose_pair(c, e) {
                if (0xAC00..0xD7A4).contains(&(h as u32)) {
                    put(out, i, 2, &[h]);
                }
            }
            let (p, q) = (ccc(c), ccc(e));
            if p != q && p != 0 && q != 0 {
                put(out, i, 2, &[e, c]);
            }
        }
    }
}
impl Check for Equiv {
    fn id(&self) -> &'static str {
        "N06"
    }
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn units(&self, t: Tier) -> Vec<Unit> {
        let th = t == Tier::Thorough;
        gen_units(
            &if th {
                Gen { w: [5, 5, 4, 4, 0, 4, 10, 9, 8, 6, 5, 6], fams: &[F_CAN2, F_CM, F_FS, F_JAMO, F_PAIR, F_CCC3, F_RUNL, F_RUN] }
            } else {
                Gen { w: [4, 4, 3, 3, 0, 3, 8, 7, 6, 5, 4, 5], fams: &[F_CAN2, F_FS, F_JAMO, F_PAIR, F_RUNL, F_RUN] }
            },
            th,
        )
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        emit(cx, u.family, true, u)
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        let s = text(kind, args);
        let seed: Vec<char> = s.chars().collect();
        let (d, c, kd, kc) = (s.to_nfd(), s.to_nfc(), s.to_nfkd(), s.to_nfkc());
        let mut seen: BTreeSet<Vec<char>> = BTreeSet::from([seed.clone()]);
        let mut q = VecDeque::from([seed]);
        let mut next = vec![];
        let mut capped = false;
        while let Some(x) = q.pop_front() {
            next.clear();
            successors(&x, &mut next);
            EDGES.fetch_add(next.len() as u64, Ordering::Relaxed);
            for n in next.drain(..) {
                if seen.contains(&n) {
                    continue;
                }
                if seen.len() >= CLASS_CAP {
                    capped = true;
                    continue;
                }
                let t: String = n.iter().collect();
                for (f, exp) in [(0, &d), (1, &c), (2, &kd), (3, &kc)] {
                    let got = apply(f, &t);
                    if got != *exp {
                        return Err(format!(
                            "{} and {} are canonically equivalent but their {} differ: {} and {}",
                            hex(&s),
                            hex(&t),
                            FORM[f as usize],
                            hex(exp),
                            hex(&got)
                        ));
                    }
                }
                seen.insert(n.clone());
                q.push_back(n);
            }
        }
        STATES.fetch_add(seen.len() as u64, Ordering::Relaxed);
        if capped {
            CAPPED.fetch_add(1, Ordering::Relaxed);
        } else {
            for (f, r) in [(0, &d), (1, &c)] {
                if !seen.contains(&r.chars().collect::<Vec<_>>()) {
                    return Err(format!("{} of {} is {}, which is not canonically equivalent to it", FORM[f], hex(&s), hex(r)));
                }
            }
        }
        Ok(if seen.len() > 1 { Seen::Nontrivial } else { Seen::Trivial })
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        show_text(kind, args)
    }
    fn rule(&self, _t: Tier) -> String {
        format!("from each seed (every canonical decomposable character alone, doubled and with one mark of every combining class before and after; firsts x seconds; the jamo cube; words over the alphabets; runs of up to 70 equal marks with one or two marks behind them that move to the front, and of up to 513 with other marks of their class behind) the whole class of canonically equivalent strings is explored breadth first by single steps (expand a character one level, contract a pair or singleton, exchange two marks of different non-zero class); in every state the four real normal forms are those of the seed, and NFD and NFC are themselves members of the class. Classes are cut at {} states (coverage field classes_cut). Non-trivial: the class has more than one member.", CLASS_CAP)
    }
    fn extra(&self) -> BTreeMap<String, u64> {
        BTreeMap::from([
            ("states".into(), STATES.load(Ordering::Relaxed)),
            ("transitions".into(), EDGES.load(Ordering::Relaxed)),
            ("classes_cut".into(), CAPPED.load(Ordering::Relaxed)),
        ])
    }
}

/// N07: Hangul syllables, by the arithmetic of section 3.12.
pub struct Hangul;
const SYL: u32 = 20;
impl Check for Hangul {
    fn id(&self) -> &'static str {
        "N07"
    }
    fn units(&self, _t: Tier) -> Vec<Unit> {
        let mut u = vec![];
        blocks(&mut u, SYL, 11172, 256);
        blocks(&mut u, F_SYL, 11172, 64);
        blocks(&mut u, F_JAMO, unit_count(F_JAMO, false), 512);
        (1..7).for_each(|n| blocks(&mut u, 320 + n, pow(HSEQ.len(), n as usize), 2000));
        u
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        if u.family == SYL {
            for i in u.lo..u.hi {
                cx.case(SYL, &[0xAC00 + i as u32]);
            }
        } else {
            emit(cx, u.family, false, u);
        }
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        if kind != SYL {
            // any string of jamo and syllables: maximal munch of <L V T>, <L V>, <LV T>
            let s = text(kind, args);
            for f in [0, 1, 2, 3] {
                let (got, exp) = (apply(f, &s), refnorm::normalize(&s, f));
                if got != exp {
                    return Err(format!("{} of {} is {}, Hangul arithmetic gives {}", FORM[f as usize], hex(&s), hex(&got), hex(&exp)));
                }
            }
            return Ok(if s.to_nfc() != s || s.to_nfd() != s { Seen::Nontrivial } else { Seen::Trivial });
        }
        const JL: [&str; 19] = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
        const JV: [&str; 21] =
            ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"];
        const JT: [&str; 28] = [
            "", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K",
            "T", "P", "H",
        ];
        let c = args[0];
        let k = (c - 0xAC00) as usize;
        let (l, v, t) = (k / 588, k % 588 / 28, k % 28);
        let ch = char::from_u32(c).unwrap();
        let cp = ch.to_code_point();
        let s = ch.to_string();
        let mut jamo = chars(&[0x1100 + l as u32, 0x1161 + v as u32]);
        let lv = char::from_u32(c - t as u32).unwrap().to_string();
        if t > 0 {
            jamo.push(char::from_u32(0x11A7 + t as u32).unwrap());
        }
        let eq = |n: &str, a: &str, b: &str| if a == b { Ok(()) } else { Err(format!("{} of {} is {} but the arithmetic gives {}", n, hex(&s), hex(a), hex(b))) };
        eq("NFD", &s.to_nfd(), &jamo)?;
        eq("NFKD", &s.to_nfkd(), &jamo)?;
        eq("NFC", &jamo.to_nfc(), &s)?;
        eq("NFKC", &jamo.to_nfkc(), &s)?;
        eq("NFC", &s.to_nfc(), &s)?;
        if t > 0 {
            let x = lv.clone() + &char::from_u32(0x11A7 + t as u32).unwrap().to_string();
            eq("NFC of LV T", &x.to_nfc(), &s)?;
            eq("decomposition mapping", &ch.dm(), &x)?;
            eq("decomposition mapping", &cp.dm(), &x)?;
        } else {
            eq("decomposition mapping", &ch.dm(), &jamo)?;
            eq("decomposition mapping", &cp.dm(), &jamo)?;
        }
        let name = format!("HANGUL SYLLABLE {}{}{}", JL[l], JV[v], JT[t]);
        if ch.na() != name || cp.na() != name {
            return Err(format!("name of U+{:04X} is {:?}, should be {:?}", c, ch.na(), name));
        }
        use seshat::unicode::props::{Dt, Gcb, Hst};
        let (h, g) = if t > 0 { (Hst::LVT, Gcb::LVT) } else { (Hst::LV, Gcb::LV) };
        if ch.hst() != h || cp.hst() != h || ch.gcb() != g || ch.dt() != Dt::Can || ch.comp_ex() {
            return Err(format!("Hangul_Syllable_Type, GCB, decomposition type or Full_Composition_Exclusion of U+{:04X} is wrong", c));
        }
        Ok(Seen::Nontrivial)
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        show_text(if kind == PUMP { PUMP } else { WORD }, args)
    }
    fn rule(&self, _t: Tier) -> String {
        "every one of the 11172 syllables: decomposition, recomposition from jamo and from LV T, mapping, name, type; every syllable followed by each of U+11A6..U+11C4 and between jamo; every <L V T> in the 21 x 23 x 31 cube around the composing ranges, with and without an intervening mark or grapheme joiner; all words up to length 6 of jamo, syllables, a letter and a mark behind two letters. Non-trivial: NFC or NFD differs from the input.".into()
    }
}

pub fn register(v: &mut Vec<Box<dyn Check>>) {
    for (i, id) in ["N01", "N02", "N03", "N04"].iter().enumerate() {
        v.push(Box::new(Norm { id, form: i as u32 }));
    }
    v.push(Box::new(Laws));
    v.push(Box::new(Equiv));
    v.push(Box::new(Hangul));
}
