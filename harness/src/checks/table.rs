//! U16: the two-stage lookup table, on a small model of every shape.
use super::*;
use crate::core::*;
use seshat::collections::TwoStageTable;

struct Table;
const SMALL: u32 = 1;
const SHAPE: u32 = 2;
const WIDE: u32 = 3;

const BS: [usize; 18] = [1, 2, 3, 4, 5, 7, 8, 15, 16, 100, 127, 128, 129, 255, 256, 257, 1000, 65536];
const NB: [usize; 12] = [1, 2, 3, 127, 128, 129, 255, 256, 257, 300, 65537, 70000];

fn small_all(len: usize, nb: usize, bs: usize, word: u64) -> Result<(), String> {
    // contents are different in every cell
    let cells: Vec<Vec<u32>> = (0..nb).map(|b| (0..bs).map(|o| (b * 100 + o) as u32 + 7).collect()).collect();
    let st2: Vec<&[u32]> = cells.iter().map(|c| &c[..]).collect();
    let mut idx = vec![0usize; len];
    let mut w = word;
    for i in idx.iter_mut() {
        *i = (w % nb as u64) as usize;
        w /= nb as u64;
    }
    macro_rules! with {
        ($t:ty) => {{
            let s1: Vec<$t> = idx.iter().map(|x| *x as $t).collect();
            let t = TwoStageTable::new(&s1, &st2, bs);
            // twice, in opposite orders: a lookup must not depend on the ones before it
            let n = (len * bs) as u32;
            for cp in (0..n).chain((0..n).rev()) {
                let exp = cells[idx[cp as usize / bs]][cp as usize % bs];
                let got = t.at(cp);
                if got != exp {
                    return Err(format!("at({}) is {} but stage 2 holds {} (block size {}, stage 1 {:?} of {})", cp, got, exp, bs, idx, stringify!($t)));
                }
            }
        }};
    }
    with!(u8);
    with!(u16);
    with!(u32);
    with!(u64);
    with!(usize);
    with!(i32);
    Ok(())
}

impl Check for Table {
    fn id(&self) -> &'static str {
        "U16"
    }
    fn units(&self, t: Tier) -> Vec<Unit> {
        let mut u = vec![];
        let (maxlen, maxnb, maxbs) = t.pick((5, 4, 6), (7, 5, 8));
        for len in 1..=maxlen {
            for nb in 1..=maxnb {
                for bs in 1..=maxbs {
                    blocks(&mut u, 1000 + len * 100 + nb * 10 + bs, pow(nb as usize, len as usize), 2000);
                }
            }
        }
        blocks(&mut u, SHAPE, (BS.len() * NB.len()) as u64, 1);
        blocks(&mut u, WIDE, 4, 1);
        u
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        for i in u.lo..u.hi {
            if u.family >= 1000 {
                let f = u.family - 1000;
                cx.case(SMALL, &[f / 100, f / 10 % 10, f % 10, i as u32, (i >> 32) as u32]);
            } else {
                cx.case(u.family, &[i as u32]);
            }
            if cx.stopped() {
                return;
            }
        }
    }
    fn eval(&self, kind: u32, a: &[u32]) -> Verdict {
        match kind {
            SMALL => {
                small_all(a[0] as usize, a[1] as usize, a[2] as usize, a[3] as u64 | (a[4] as u64) << 32)?;
                Ok(if a[0] > 1 && a[1] > 1 { Seen::Nontrivial } else { Seen::Trivial })
            }
            SHAPE => {
                let bs = BS[a[0] as usize / NB.len()];
                let nb = NB[a[0] as usize % NB.len()];
                if bs * nb > 40_000_000 {
                    return Ok(Seen::Trivial);
                }
                let flat: Vec<u32> = (0..(bs * nb) as u32).map(|x| x.wrapping_mul(2654435761)).collect();
                let st2: Vec<&[u32]> = flat.chunks(bs).collect();
                // stage 1 goes through the blocks in a scattered order, some twice
                let len = nb + nb / 3 + 1;
                let idx: Vec<u32> = (0..len as u64).map(|i| (i * 7919 % nb as u64) as u32).collect();
                let t = TwoStageTable::new(&idx, &st2, bs);
                let idx16: Vec<u16> = idx.iter().map(|x| *x as u16).collect();
                let t16 = TwoStageTable::new(&idx16, &st2, bs);
                let step = (len * bs / 2_000_000).max(1);
                for cp in (0..len * bs).step_by(step).chain((0..len).flat_map(|i| [i * bs, i * bs + bs - 1])) {
                    let exp = flat[idx[cp / bs] as usize * bs + cp % bs];
                    if t.at(cp as u32) != exp {
                        return Err(format!("at({}) is wrong with {} blocks of {}", cp, nb, bs));
                    }
                    if nb <= 65536 && t16.at(cp as u32) != exp {
                        return Err(format!("at({}) is wrong with {} blocks of {} and u16 indices", cp, nb, bs));
                    }
                }
                Ok(Seen::Nontrivial)
            }
            _ => {
                // code points up to u32::MAX: large blocks, shared; and non-number contents
                let sh = [12u32, 16, 20, 24][a[0] as usize];
                let bs = 1usize << sh;
                let b0: Vec<u8> = (0..bs).map(|x| (x % 251) as u8).collect();
                let b1: Vec<u8> = (0..bs).map(|x| (x % 241) as u8 ^ 0x80).collect();
                let st2: [&[u8]; 2] = [&b0, &b1];
                let n = 1usize << (32 - sh);
                let idx: Vec<u8> = (0..n).map(|i| (i % 3 == 1) as u8).collect();
                let t = TwoStageTable::new(&idx, &st2, bs);
                for cp in (0..n).flat_map(|i| [(i * bs) as u32, (i * bs + bs - 1) as u32, (i * bs + bs / 2) as u32]) {
                    let exp = st2[idx[cp as usize / bs] as usize][cp as usize % bs];
                    if t.at(cp) != exp {
                        return Err(format!("at({:#X}) is wrong with blocks of {}", cp, bs));
                    }
                }
                let s: [&[&str]; 2] = [&["a", "b", "c"], &["d", "e", "f"]];
                let ts = TwoStageTable::new(&[1u8, 0, 1], &s, 3);
                let c: [&[(bool, char)]; 2] = [&[(true, 'x'), (false, 'y'), (true, 'z')], &[(true, 'u'), (false, 'v'), (true, 'w')]];
                let tc = TwoStageTable::new(&[1usize, 0, 1], &c, 3);
                for cp in 0..9usize {
                    let k = [1, 0, 1][cp / 3];
                    if ts.at(cp as u32) != s[k][cp % 3] || tc.at(cp as u32) != c[k][cp % 3] {
                        return Err(format!("at({}) is wrong for string or tuple contents", cp));
                    }
                }
                Ok(Seen::Nontrivial)
            }
        }
    }
    fn show(&self, kind: u32, a: &[u32]) -> String {
        match kind {
            SMALL => format!("stage 1 of {} entries over {} blocks of {}, index word {}", a[0], a[1], a[2], a[3] as u64 | (a[4] as u64) << 32),
            SHAPE => format!("{} blocks of {}", NB[a[0] as usize % NB.len()], BS[a[0] as usize / NB.len()]),
            _ => format!("blocks of 2^{}", [12, 16, 20, 24][a[0] as usize]),
        }
    }
    fn rule(&self, t: Tier) -> String {
        format!("every stage-1 vector up to {:?} (length, number of blocks, block size), with six index types, every position looked up forwards and backwards; 18 x 12 larger shapes around the limits of u8 and u16 indices and powers of two; blocks so large that positions reach 2^32-1; string and tuple contents. Non-trivial: more than one entry and more than one block.", t.pick((5, 4, 6), (7, 5, 8)))
    }
}

pub fn register(v: &mut Vec<Box<dyn Check>>) {
    v.push(Box::new(Table));
}
