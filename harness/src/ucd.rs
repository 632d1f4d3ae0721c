//! The frozen Unicode 15.1 data (oracle side). Nothing here calls the code under test.
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

pub const N: usize = 0x110000;
static UCD: &str = include_str!("../../oracle/ucd-15.1.0.txt");
static NAMES: &str = include_str!("../../oracle/names-15.1.0.txt");

pub struct Enum {
    pub keys: Vec<&'static str>,
    pub of: Vec<u16>,
}
impl Enum {
    pub fn key(&self, cp: u32) -> &'static str {
        self.keys[self.of[cp as usize] as usize]
    }
}
pub struct Data {
    pub enums: BTreeMap<&'static str, Enum>,
    pub bins: BTreeMap<&'static str, Vec<u64>>,
    /// one-step decomposition mapping, Hangul syllables not included
    pub dm: HashMap<u32, Vec<char>>,
}
impl Data {
    pub fn bin(&self, p: &str, cp: u32) -> bool {
        (self.bins[p][cp as usize / 64] >> (cp % 64)) & 1 == 1
    }
}

pub fn data() -> &'static Data {
    static D: OnceLock<Data> = OnceLock::new();
    D.get_or_init(|| {
        let mut enums: BTreeMap<&'static str, Enum> = BTreeMap::new();
        let mut bins: BTreeMap<&'static str, Vec<u64>> = BTreeMap::new();
        let mut dm = HashMap::new();
        let mut cur = "";
        let mut mode = 0;
        let h = |s: &str| u32::from_str_radix(s, 16).unwrap();
        for l in UCD.lines() {
            if let Some(p) = l.strip_prefix("@enum ") {
                mode = 1;
                cur = p;
                enums.insert(p, Enum { keys: vec![], of: vec![0; N] });
                continue;
            }
            if let Some(p) = l.strip_prefix("@bin ") {
                mode = 2;
                cur = p;
                bins.insert(p, vec![0; N / 64]);
                continue;
            }
            if l == "@dm" {
                mode = 3;
                continue;
            }
            let mut it = l.split(' ');
            let a = h(it.next().unwrap());
            match mode {
                1 => {
                    let b = h(it.next().unwrap());
                    let k = it.next().unwrap();
                    let e = enums.get_mut(cur).unwrap();
                    let i = e.keys.iter().position(|x| *x == k).unwrap_or_else(|| {
                        e.keys.push(k);
                        e.keys.len() - 1
                    });
                    for c in a..=b {
                        e.of[c as usize] = i as u16;
                    }
                }
                2 => {
                    let b = h(it.next().unwrap());
                    let v = bins.get_mut(cur).unwrap();
                    for c in a..=b {
                        v[c as usize / 64] |= 1 << (c % 64);
                    }
                }
                _ => {
                    dm.insert(a, it.map(|x| char::from_u32(h(x)).unwrap()).collect());
                }
            }
        }
        Data { enums, bins, dm }
    })
}

/// Per-code-point arrays used in hot loops.
pub struct Fast {
    pub ccc: Vec<u8>,
    /// grapheme class, see refseg
    pub seg: Vec<u8>,
    /// decomposition type is canonical
    pub can: Vec<u64>,
}
pub fn fast() -> &'static Fast {
    static F: OnceLock<Fast> = OnceLock::new();
    F.get_or_init(|| {
        let d = data();
        let ccc = (0..N as u32).map(|c| d.enums["ccc"].key(c).parse().unwrap()).collect();
        let seg = (0..N as u32).map(|c| crate::refseg::class_of(d, c)).collect();
        let mut can = vec![0u64; N / 64];
        for c in 0..N as u32 {
            if d.enums["dt"].key(c) == "Can" {
                can[c as usize / 64] |= 1 << (c % 64);
            }
        }
        Fast { ccc, seg, can }
    })
}

/// (code point -> name) for listed code points, and ranges whose name ends with the code point.
pub fn names() -> &'static HashMap<u32, String> {
    static F: OnceLock<HashMap<u32, String>> = OnceLock::new();
    F.get_or_init(|| {
        let mut m = HashMap::new();
        for l in NAMES.lines() {
            let (r, n) = l.split_once(' ').unwrap();
            if let Some((a, b)) = r.split_once("..") {
                let (a, b) = (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap());
                for c in a..=b {
                    m.insert(c, n.replace('*', &format!("{:04X}", c)));
                }
            } else {
                m.insert(u32::from_str_radix(r, 16).unwrap(), n.to_string());
            }
        }
        m
    })
}

pub fn chars(args: &[u32]) -> String {
    args.iter().map(|c| char::from_u32(*c).expect("scalar value")).collect()
}
pub fn hex(s: &str) -> String {
    let n = s.chars().count();
    let mut v: Vec<String> = s.chars().take(40).map(|c| format!("{:04X}", c as u32)).collect();
    if n > 40 {
        v.push(format!("... ({} code points)", n));
    }
    format!("<{}>", v.join(" "))
}
