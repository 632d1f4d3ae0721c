use crate::core::Check;
pub mod refdump;
pub mod conc;
pub mod dump;
pub mod hist;
pub mod norm;
pub mod props;
pub mod seg;
pub mod table;

pub fn registry() -> Vec<Box<dyn Check>> {
    let mut v: Vec<Box<dyn Check>> = vec![];
    seg::register(&mut v);
    norm::register(&mut v);
    props::register(&mut v);
    table::register(&mut v);
    hist::register(&mut v);
    conc::register(&mut v);
    v
}

/// Mixed-radix enumeration of words over an alphabet: word number `i` of length `len`.
pub fn word(alpha: &[u32], len: usize, mut i: u64, out: &mut Vec<u32>) {
    out.clear();
    out.resize(len, 0);
    let k = alpha.len() as u64;
    for p in (0..len).rev() {
        out[p] = alpha[(i % k) as usize];
        i /= k;
    }
}
pub fn pow(k: usize, n: usize) -> u64 {
    (k as u64).pow(n as u32)
}
/// the n-th scalar value (surrogates skipped)
pub fn scalar(i: u64) -> u32 {
    let i = i as u32;
    if i < 0xD800 {
        i
    } else {
        i + 0x800
    }
}
pub const SCALARS: u64 = 0x110000 - 0x800;

/// A pumped string: prefix cycle^n suffix, encoded in one argument list.
pub fn pump(prefix: &[u32], cycle: &[u32], n: u32, suffix: &[u32]) -> Vec<u32> {
    let mut v = vec![prefix.len() as u32, cycle.len() as u32, n];
    v.extend_from_slice(prefix);
    v.extend_from_slice(cycle);
    v.extend_from_slice(suffix);
    v
}
pub fn unpump(a: &[u32]) -> String {
    let (np, nc, n) = (a[0] as usize, a[1] as usize, a[2] as usize);
    let p = crate::ucd::chars(&a[3..3 + np]);
    let c = crate::ucd::chars(&a[3 + np..3 + np + nc]);
    let s = crate::ucd::chars(&a[3 + np + nc..]);
    let mut r = p;
    for _ in 0..n {
        r.push_str(&c);
    }
    r.push_str(&s);
    r
}
pub fn show_pump(a: &[u32]) -> String {
    let (np, nc, n) = (a[0] as usize, a[1] as usize, a[2]);
    format!(
        "{} then {} times {} then {}",
        crate::ucd::hex(&crate::ucd::chars(&a[3..3 + np])),
        n,
        crate::ucd::hex(&crate::ucd::chars(&a[3 + np..3 + np + nc])),
        crate::ucd::hex(&crate::ucd::chars(&a[3 + np + nc..]))
    )
}
pub const WORD: u32 = 1;
pub const PUMP: u32 = 2;
pub fn text(kind: u32, a: &[u32]) -> String {
    if kind == PUMP {
        unpump(a)
    } else {
        crate::ucd::chars(a)
    }
}
pub fn show_text(kind: u32, a: &[u32]) -> String {
    if kind == PUMP {
        show_pump(a)
    } else {
        crate::ucd::hex(&crate::ucd::chars(a))
    }
}
/// repetition counts around the places where fixed-size counters and buffers end
pub const REPS_Q: &[u32] = &[2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
pub const REPS_L: &[u32] = &[511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097];
pub const REPS_XL: &[u32] = &[65535, 65536, 65537];

/// how many bytes behind the start of a piece of the heap a text of this length is put: all places of a
/// word of 16 bytes for short ones, some that change with the length for others
pub fn places(len: usize, short: usize) -> impl Iterator<Item = usize> {
    (1..16).filter(move |k| len < short || *k == 1 || *k == 3 || *k == 1 + len % 15 || *k == 1 + (len / 15 + 7 * len) % 15)
}
