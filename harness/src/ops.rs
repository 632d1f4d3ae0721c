//! The operations of the library as numbers: used by the history and the concurrency explorers.
use seshat::unicode::props::*;
use seshat::unicode::*;

pub fn fnv(b: &[u8]) -> u32 {
    let mut h: u64 = 0xCBF29CE484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001B3);
    }
    (h ^ (h >> 32)) as u32
}
trait H {
    fn h(self) -> u32;
}
impl H for bool {
    fn h(self) -> u32 {
        self as u32
    }
}
impl H for String {
    fn h(self) -> u32 {
        fnv(self.as_bytes())
    }
}
macro_rules! he { ($($t:ty)*) => { $(impl H for $t { fn h(self) -> u32 { self as u32 } })* } }
he!(Gc Ccc Bc Dt Gcb Wb Hst Insc Incb Blk Sc Age);

pub struct Method {
    pub name: &'static str,
    /// asked through CodePoint and through char (0 where there is no char)
    pub cp: fn(u32) -> u32,
    pub ch: fn(u32) -> u32,
}
const NONE: u32 = 0xFFFF_FFFE;
macro_rules! methods {
    ($($m:ident)*) => { vec![$(Method {
        name: stringify!($m),
        cp: |c| match CodePoint::new(c) { Ok(p) => p.$m().h(), Err(_) => NONE },
        ch: |c| match char::from_u32(c) { Some(p) => p.$m().h(), None => NONE },
    }),*] };
}
pub fn methods() -> Vec<Method> {
    let mut v = methods!(gc ccc bc dt dm na gcb wb hst insc incb blk sc age comp_ex ce wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext olower oupper nchar ogr_ext idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri ci math alpha lower upper cased di gr_ext ids idc xids xidc emoji epres emod ebase ecomp ext_pict);
    v.push(Method {
        name: "show",
        cp: |c| match CodePoint::new(c) {
            Ok(p) => p.to_string().h(),
            Err(_) => NONE,
        },
        ch: |c| match char::from_u32(c) {
            Some(p) => p.to_code_point().to_u32() ^ 0x5555,
            None => NONE,
        },
    });
    v.push(Method {
        name: "value_names",
        cp: |c| match CodePoint::new(c) {
            Ok(p) => {
                let (a, b, d, e) = (p.gc().property_value_name(), p.ccc().property_value_name(), p.blk().property_value_name(), p.sc().property_value_name());
                fnv(a.full.as_bytes()) ^ fnv(b.abbr.as_bytes()).rotate_left(7) ^ fnv(d.full.as_bytes()).rotate_left(13) ^ fnv(e.abbr.as_bytes()).rotate_left(21)
            }
            Err(_) => NONE,
        },
        ch: |c| match char::from_u32(c) {
            Some(p) => {
                let (a, b, d, e) = (p.bc().property_value_name(), p.dt().property_value_name(), p.gcb().property_value_name(), p.age().property_value_name());
                fnv(a.full.as_bytes()) ^ fnv(b.abbr.as_bytes()).rotate_left(7) ^ fnv(d.full.as_bytes()).rotate_left(13) ^ fnv(e.abbr.as_bytes()).rotate_left(21)
            }
            None => NONE,
        },
    });
    v.push(Method {
        name: "new",
        // also a number that is no code point
        cp: |c| (CodePoint::new(c ^ 0x0080_0000).is_ok() as u32) << 1 | CodePoint::new(c).is_ok() as u32,
        ch: |c| CodePoint::new(c).map(|p| p.to_u32()).unwrap_or(NONE),
    });
    v
}

pub const STR_OPS: [&str; 7] = ["to_nfd", "to_nfc", "to_nfkd", "to_nfkc", "break_graphemes", "break_graphemes, first cluster", "break_graphemes, dropped half-way"];
pub fn str_op(op: u32, s: &str) -> u32 {
    match op {
        0 => s.to_nfd().h(),
        1 => s.to_nfc().h(),
        2 => s.to_nfkd().h(),
        3 => s.to_nfkc().h(),
        4 => {
            let mut h = 0u32;
            for c in s.break_graphemes() {
                h = h.wrapping_mul(31).wrapping_add(c.len() as u32 + 1) ^ h.rotate_left(9);
            }
            h
        }
        5 => s.break_graphemes().next().map(|c| c.len() as u32).unwrap_or(NONE),
        _ => {
            // dropped while about half of the text is still to come
            let (mut h, mut at) = (0u32, 0);
            let mut it = s.break_graphemes();
            while at < s.len() / 2 {
                match it.next() {
                    Some(c) => {
                        h = h.wrapping_mul(31).wrapping_add(c.len() as u32 + 1) ^ h.rotate_left(9);
                        at += c.len();
                        if c.is_empty() {
                            break;
                        }
                    }
                    None => break,
                }
            }
            h
        }
    }
}

/// Strings chosen to collide: equal lengths, shared prefixes and suffixes, permutations, long texts
/// that differ in one place.
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "b", "\u{e9}", "e\u{301}", "e\u{300}", "e\u{327}\u{301}", "e\u{301}\u{327}", "\u{1e9b}\u{323}", "\u{fb01}", "fi", "if", "\u{ac00}", "\u{ac01}",
        "\u{1100}\u{1161}", "\u{1100}\u{1161}\u{11a8}", "\u{1161}\u{1100}", "\u{d4db}", "\u{110b}\u{1161}\u{11ab}", "\u{212b}", "\u{c5}", "A\u{30a}", "\u{2126}", "\u{3a9}", "\u{958}", "\u{915}\u{93c}",
        "\u{344}", "\u{308}\u{301}", "\u{301}\u{308}", "\u{1d15e}", "\u{2f800}", "\u{4e3d}", "\u{f900}", "\u{8c48}", "\u{fdfa}", "\u{3300}", "\u{ff76}\u{ff9e}", "\u{30ac}", "\r\n", "\n\r",
        "\u{1f1e6}\u{1f1e7}", "\u{1f1e6}\u{1f1e7}\u{1f1e8}", "\u{1f1e6}", "\u{1f469}\u{200d}\u{1f680}", "\u{1f469}\u{1f680}\u{200d}", "\u{1f469}\u{3fe}\u{200d}\u{1f680}", "\u{915}\u{94d}\u{937}", "\u{915}\u{937}\u{94d}", "\u{600}a", "a\u{903}",
        "\u{1f44d}\u{1f3fd}", "a\u{315}\u{300}\u{5ae}\u{62}", "a\u{5ae}\u{300}\u{315}b", "\u{1100}\u{ac00}\u{11a8}", "\u{0}", "\u{0}a", "\u{10ffff}", "\u{110ba}", "\u{11099}\u{110ba}", "\u{1109a}",
        // heads and tails of what belongs together
        "\u{915}\u{94d}", "\u{94d}\u{937}", "\u{94d}", "\u{1f469}\u{200d}", "\u{200d}\u{1f680}", "\u{200d}", "\r", "\n", "\u{600}", "\u{1100}", "\u{1161}", "\u{11a8}", "\u{301}", "\u{323}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // equal length in bytes and in characters, differing in one character only
    for c in ["\u{e0}", "\u{e1}", "\u{e7}", "\u{f1}", "\u{12d}"] {
        v.push(format!("x{}yz", c));
        v.push(format!("{}xyz", c));
        v.push(format!("xyz{}", c));
        for n in [20, 40, 70, 140] {
            v.push(format!("{}{}{}", "p".repeat(n), c, "q".repeat(n)));
        }
        v.push(format!("{}{}", "e\u{301}".repeat(33), c));
        v.push(format!("{}{}", c, "\u{ac00}\u{11a8}".repeat(22)));
    }
    // the same eight-byte words in every order: texts that differ only where a sum over words does not
    let w = ["\u{e9}\u{e9}\u{e9}\u{e9}", "e\u{301}e\u{301}ab", "abcdefgh"];
    for o in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        for n in [3, 6] {
            v.push(o.map(|i| w[i]).concat().repeat(n));
        }
    }
    w.iter().for_each(|x| v.push(x.repeat(8)));
    for a in ["\u{1f1e6}", "\u{301}", "\u{200d}", "\u{94d}", "\u{1f469}\u{200d}", "ok "] {
        for n in [2, 5, 17, 64] {
            v.push(a.repeat(n));
            v.push(format!("\u{915}{}\u{915}", a.repeat(n)));
        }
    }
    v
}

/// code points that collide with `c` under truncation, masking, block arithmetic or neighbourhood
pub fn colliding(c: u32, out: &mut Vec<u32>) {
    out.clear();
    for k in 0..21 {
        out.push(c ^ (1 << k));
    }
    for d in [1, 2, 3, 16, 28, 64, 100, 127, 128, 255, 256, 512, 588, 1000, 1024, 4096, 8192] {
        out.push(c.wrapping_add(d));
        out.push(c.wrapping_sub(d));
    }
    for p in 0..17u32 {
        out.push(p << 16 | c & 0xFFFF);
    }
    for m in [0x7F, 0xFF, 0x3FF, 0xFFF, 0x7FFF] {
        out.push(c & m);
    }
    out.push(c >> 8);
    out.push(c.swap_bytes() >> 16 & 0xFFFF);
    out.push(0xD800 + (c & 0x3FF));
    out.push(0);
    out.push(0x10FFFF);
    out.push(0x10FFFF - c);
    out.retain(|x| *x < 0x110000 && *x != c);
    out.sort_unstable();
    out.dedup();
}

/// changes of two characters that leave first * m + second, or first + second * m, the same in 32 bits
fn same_sum() -> &'static Vec<(i64, i64)> {
    static V: std::sync::OnceLock<Vec<(i64, i64)>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut all = vec![];
        let ms = [31u64, 33, 37, 53, 97, 131, 257, 1000, 10_000, 65_535, 65_537, 65_599, 100_000, 1_000_000, 1_000_003, 16_777_619, 0x10_FFFF, 0x11_0000, 0x1F_FFFF, 0x9E37_79B1, 0x9E37_79B9, 0x85EB_CA6B, 0xCC9E_2D51, 0x27220A95];
        for m in ms.into_iter().chain((6..32).map(|k| 1 << k)) {
            let mut v = vec![];
            for d in -0x10_FFFFi64..=0x10_FFFF {
                // d * m + e is 0 in 32 bits
                let e = (d.wrapping_mul(m as i64) as u32).wrapping_neg() as i32 as i64;
                if d != 0 && e.abs() < 0x11_0000 {
                    v.push((d, e));
                }
            }
            // the nearest, then every so many
            v.sort_unstable_by_key(|(d, e)| (d.abs(), *d, *e));
            let step = (v.len() / 700).max(1);
            let near = v.iter().take(64).copied().collect::<Vec<_>>();
            all.extend(near);
            all.extend(v.into_iter().skip(64).step_by(step));
        }
        let turned: Vec<(i64, i64)> = all.iter().map(|(d, e)| (*e, *d)).collect();
        all.extend(turned);
        all.sort_unstable();
        all.dedup();
        all
    })
}
/// pairs of characters that a 32-bit key made of both (a sum of multiples, or bits shifted and mixed) takes for this one
pub fn same_key(a: u32, b: u32, out: &mut Vec<(u32, u32)>) {
    out.clear();
    let ok = |c: i64| (0..0x11_0000).contains(&c) && !(0xD800..0xE000).contains(&c);
    for (d, e) in same_sum() {
        let (x, y) = (a as i64 + d, b as i64 + e);
        if ok(x) && ok(y) {
            out.push((x as u32, y as u32));
        }
    }
    let mut put = |x: u32, y: u32| {
        if ok(x as i64) && ok(y as i64) {
            out.push((x, y));
        }
    };
    for k in 4..28u32 {
        // first << k ^ second: low bits that reach the second, high bits that are shifted out
        for low in 0..(1u32 << 21u32.saturating_sub(k)).min(64) {
            for high in 0..(if k > 11 { 1u32 << (k - 11).min(6) } else { 1 }) {
                let x = low | high << (32 - k).min(31);
                put(a ^ x, b ^ (x << k));
                put(a ^ (x << k), b ^ x);
            }
        }
        // first << k | second: bits hidden behind those of the other
        let (ha, hb) = (b >> k, (a << k) & 0x1F_FFFF);
        let mut s = ha;
        for _ in 0..64 {
            if s == 0 {
                break;
            }
            put(a ^ s, b);
            s = (s - 1) & ha;
        }
        let mut s = hb;
        for _ in 0..64 {
            if s == 0 {
                break;
            }
            put(a, b ^ s);
            s = (s - 1) & hb;
        }
    }
    out.retain(|p| *p != (a, b));
    out.sort_unstable();
    out.dedup();
}
