//! U01..U15: the character data, for every code point.
use super::*;
use crate::core::*;
use crate::refnorm;
use crate::ucd::{self, data};
use crate::variants as va;
use seshat::unicode::props::*;
use seshat::unicode::*;
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::OnceLock;

/// checks one property of one code point through both implementations of the trait;
/// Ok(true) when its value is not the most common one
type PropFn = fn(u32) -> Result<bool, String>;

fn enum_index<T>(prop: &'static str, table: &'static [(&'static str, &'static str, &'static str, T)]) -> (Vec<usize>, usize) {
    let e = &data().enums[prop];
    let map: Vec<usize> = e
        .keys
        .iter()
        .map(|k| table.iter().position(|t| t.0.eq_ignore_ascii_case(k)).unwrap_or_else(|| if *k == "?" { usize::MAX } else { panic!("no variant for {} {}", prop, k) }))
        .collect();
    let mut count = vec![0usize; e.keys.len()];
    e.of.iter().for_each(|i| count[*i as usize] += 1);
    let common = (0..count.len()).max_by_key(|i| count[*i]).unwrap();
    (map, common)
}

macro_rules! ep {
    ($m:ident, $table:ident, $name:expr) => {{
        fn f(cp: u32) -> Result<bool, String> {
            static I: OnceLock<(Vec<usize>, usize)> = OnceLock::new();
            let (map, common) = I.get_or_init(|| enum_index($name, va::$table));
            let k = data().enums[$name].of[cp as usize] as usize;
            let code = CodePoint::new(cp).map_err(|e| e.to_string())?;
            let a = code.$m();
            let ok = |x| {
                if map[k] == usize::MAX {
                    // the readings differ: Indic_Conjunct_Break None or Extend
                    va::$table.iter().any(|t| (t.0 == "None" || t.0 == "Extend") && t.3 == x)
                } else {
                    va::$table[map[k]].3 == x
                }
            };
            if !ok(a) {
                return Err(format!("{} of CodePoint U+{:04X} is {:?}, Unicode 15.1 says {}", $name, cp, a, data().enums[$name].keys[k]));
            }
            if let Some(ch) = char::from_u32(cp) {
                let b = ch.$m();
                if !ok(b) {
                    return Err(format!("{} of char U+{:04X} is {:?}, Unicode 15.1 says {}", $name, cp, b, data().enums[$name].keys[k]));
                }
            }
            Ok(k != *common)
        }
        f as PropFn
    }};
}
macro_rules! bp {
    ($($m:ident)*) => {
        [$({
            fn f(cp: u32) -> Result<bool, String> {
                static I: OnceLock<&'static Vec<u64>> = OnceLock::new();
                let bits = I.get_or_init(|| &data().bins[stringify!($m)]);
                let e = (bits[cp as usize / 64] >> (cp % 64)) & 1 == 1;
                let code = CodePoint::new(cp).map_err(|e| e.to_string())?;
                if code.$m() != e {
                    return Err(format!("{} of CodePoint U+{:04X} is {}, Unicode 15.1 says {}", stringify!($m), cp, !e, e));
                }
                if let Some(ch) = char::from_u32(cp) {
                    if ch.$m() != e {
                        return Err(format!("{} of char U+{:04X} is {}, Unicode 15.1 says {}", stringify!($m), cp, !e, e));
                    }
                }
                Ok(e)
            }
            f as PropFn
        }),*]
    };
}

fn ccc_number(cp: u32) -> Result<bool, String> {
    let e = &data().enums["ccc"];
    let k: u8 = e.keys[e.of[cp as usize] as usize].parse().expect("class number");
    let a = CodePoint::new(cp)?.ccc() as u8;
    if a != k {
        return Err(format!("combining class number of U+{:04X} is {}, Unicode 15.1 says {}", cp, a, k));
    }
    Ok(k != 0)
}
fn dm_prop(cp: u32) -> Result<bool, String> {
    let mut exp = String::new();
    if (0xAC00..0xD7A4).contains(&cp) {
        let k = cp - 0xAC00;
        let v = if k % 28 == 0 { [0x1100 + k / 588, 0x1161 + k % 588 / 28] } else { [cp - k % 28, 0x11A7 + k % 28] };
        exp = ucd::chars(&v);
    } else if let Some(v) = data().dm.get(&cp) {
        exp = v.iter().collect();
    }
    let a = CodePoint::new(cp)?.dm();
    if a != exp {
        return Err(format!("decomposition mapping of CodePoint U+{:04X} is {}, Unicode 15.1 says {}", cp, ucd::hex(&a), ucd::hex(&exp)));
    }
    if let Some(ch) = char::from_u32(cp) {
        let b = ch.dm();
        if b != exp {
            return Err(format!("decomposition mapping of char U+{:04X} is {}, Unicode 15.1 says {}", cp, ucd::hex(&b), ucd::hex(&exp)));
        }
    }
    Ok(!exp.is_empty())
}
fn na_prop(cp: u32) -> Result<bool, String> {
    let exp = ucd::names().get(&cp).map(|s| s.as_str()).unwrap_or("");
    let a = CodePoint::new(cp)?.na();
    if a != exp {
        return Err(format!("name of CodePoint U+{:04X} is {:?}, Unicode 15.1 says {:?}", cp, a, exp));
    }
    if let Some(ch) = char::from_u32(cp) {
        let b = ch.na();
        if b != exp {
            return Err(format!("name of char U+{:04X} is {:?}, Unicode 15.1 says {:?}", cp, b, exp));
        }
    }
    Ok(!exp.is_empty())
}

macro_rules! agree {
    ($cp:expr, $ch:expr, $($m:ident)*) => {
        $( if $cp.$m() != $ch.$m() {
            return Err(format!("{} of {} differs between CodePoint ({:?}) and char ({:?})", stringify!($m), $cp, $cp.$m(), $ch.$m()));
        } )*
    };
}
fn agree_prop(c: u32) -> Result<bool, String> {
    let ch = match char::from_u32(c) {
        None => return Ok(false),
        Some(x) => x,
    };
    let cp = ch.to_code_point();
    let cq = CodePoint::new(c)?;
    if cp.to_u32() != c || cq.to_u32() != c {
        return Err(format!("U+{:04X} converts to {} and {}", c, cp, cq));
    }
    agree!(cp, ch, dm na bc ccc dt gc gcb wb hst insc incb wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext olower oupper nchar ogr_ext idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri ce ci comp_ex blk sc age math alpha lower upper cased di gr_ext ids idc xids xidc emoji epres emod ebase ecomp ext_pict);
    // and a CodePoint made from the number is the one made from the char
    agree!(cp, cq, gc ccc gcb sc dm na);
    Ok(true)
}

/// relations between properties that the standard guarantees
fn relations(c: u32) -> Result<bool, String> {
    let p = CodePoint::new(c)?;
    let gc = p.gc();
    let gcb = p.gcb();
    let bad = |s: &str| Err(format!("U+{:04X} breaks: {}", c, s));
    let mark = matches!(gc, Gc::Mn | Gc::Mc | Gc::Me);
    if p.ccc() as u8 != 0 && !mark {
        return bad("a non-zero combining class implies General_Category M");
    }
    if (gcb == Gcb::EX) != (p.gr_ext() || p.emod()) {
        return bad("Grapheme_Cluster_Break is Extend exactly for Grapheme_Extend and Emoji_Modifier");
    }
    if (gcb == Gcb::RI) != p.ri() || (p.wb() == Wb::RI) != p.ri() {
        return bad("break properties agree with Regional_Indicator");
    }
    let h = p.hst();
    if (h == Hst::L) != (gcb == Gcb::L)
        || (h == Hst::V) != (gcb == Gcb::V)
        || (h == Hst::T) != (gcb == Gcb::T)
        || (h == Hst::LV) != (gcb == Gcb::LV)
        || (h == Hst::LVT) != (gcb == Gcb::LVT)
    {
        return bad("Hangul_Syllable_Type agrees with Grapheme_Cluster_Break");
    }
    if p.xids() && !p.ids() || p.ids() && !p.idc() || p.xidc() && !p.idc() || p.xids() && !p.xidc() {
        return bad("XID_Start <= ID_Start <= ID_Continue, XID_Start <= XID_Continue <= ID_Continue");
    }
    if p.cased() != (p.lower() || p.upper() || gc == Gc::Lt) || p.lower() && p.upper() {
        return bad("Cased is Lowercase, Uppercase or Lt, and nothing is both lower and upper case");
    }
    if p.lower() && !p.alpha() || p.upper() && !p.alpha() {
        return bad("Lowercase and Uppercase are Alphabetic");
    }
    let assigned = gc != Gc::Cn;
    if (p.age() == Age::NA) != (!assigned && !p.nchar()) {
        return bad("exactly the unassigned code points that are no noncharacters have no Age");
    }
    if p.na().is_empty() != matches!(gc, Gc::Cc | Gc::Cs | Gc::Co | Gc::Cn) {
        return bad("exactly controls, surrogates, private use and unassigned code points have no name");
    }
    if (p.dt() == Dt::None) != p.dm().is_empty() {
        return bad("a decomposition type goes with a mapping");
    }
    if p.ce() && !p.comp_ex() || p.comp_ex() && p.dt() != Dt::Can {
        return bad("Composition_Exclusion <= Full_Composition_Exclusion <= canonically decomposable");
    }
    if (p.epres() || p.emod() || p.ebase()) && !p.emoji() || p.emod() && p.ebase() {
        return bad("emoji subsets");
    }
    if p.uideo() && !p.ideo() || p.ahex() && !p.hex() || p.vs() && !p.di() || p.odi() && !p.di() || p.nchar() && gc != Gc::Cn {
        return bad("subset relations");
    }
    if p.nchar() != ((c & 0xFFFE) == 0xFFFE || (0xFDD0..=0xFDEF).contains(&c)) {
        return bad("the 66 noncharacters");
    }
    if (p.sc() == Sc::Zzzz) != matches!(gc, Gc::Cn | Gc::Co | Gc::Cs) {
        return bad("Script is Unknown exactly for unassigned, private use and surrogates");
    }
    if (gc == Gc::Cs) != (0xD800..0xE000).contains(&c) || matches!(gc, Gc::Zs | Gc::Zl | Gc::Zp) && !p.wspace() {
        return bad("surrogates and separators");
    }
    match p.incb() {
        Incb::Linker => {
            if p.insc() != Insc::Virama || gcb != Gcb::EX {
                return bad("conjunct linkers are viramas");
            }
        }
        Incb::Consonant => {
            if p.insc() != Insc::Consonant || gcb != Gcb::XX {
                return bad("conjunct consonants are consonants");
            }
        }
        Incb::Extend => {
            if gcb != Gcb::EX && gcb != Gcb::ZWJ {
                return bad("conjunct extenders extend");
            }
        }
        Incb::None => {}
    }
    if p.ext_pict() && gcb != Gcb::XX {
        return bad("Extended_Pictographic characters have no other break class");
    }
    if p.alpha() != (p.upper() || p.lower() || matches!(gc, Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl) || p.oalpha())
        || p.math() != (gc == Gc::Sm || p.omath())
        || p.gr_ext() != (matches!(gc, Gc::Me | Gc::Mn) || p.ogr_ext())
        || p.ids() != ((matches!(gc, Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl) || p.oids()) && !p.pat_syn() && !p.pat_ws())
    {
        return bad("derived properties follow from their parts");
    }
    let mn = matches!(gc, Gc::Mn | Gc::Me | Gc::Cf | Gc::Lm | Gc::Sk);
    if p.ci() != (mn || matches!(p.wb(), Wb::ML | Wb::MB | Wb::SQ)) {
        return bad("Case_Ignorable is Mn, Me, Cf, Lm, Sk or one of three Word_Break classes");
    }
    let dot = p.idc() && !p.ids();
    if p.idc() != ((p.ids() || mark && gc != Gc::Me || matches!(gc, Gc::Nd | Gc::Pc) || p.oidc()) && !p.pat_syn() && !p.pat_ws()) {
        return bad("ID_Continue is ID_Start, Mn, Mc, Nd, Pc or Other_ID_Continue");
    }
    if dot && matches!(gc, Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl) {
        return bad("a letter that continues an identifier starts one");
    }
    if p.di() != ((p.odi() || gc == Gc::Cf || p.vs()) && !p.wspace() && !(0xFFF9..=0xFFFB).contains(&c) && !(0x13430..=0x1343F).contains(&c) && !p.pcm()) {
        return bad("Default_Ignorable_Code_Point follows from its parts");
    }
    let wb = p.wb();
    if (gcb == Gcb::CR) != (c == 13) || (gcb == Gcb::LF) != (c == 10) || (wb == Wb::CR) != (c == 13) || (wb == Wb::LF) != (c == 10) {
        return bad("CR and LF are the two break classes of one code point each");
    }
    if (gcb == Gcb::ZWJ) != (c == 0x200D) || (wb == Wb::ZWJ) != (c == 0x200D) {
        return bad("ZWJ is U+200D");
    }
    // UAX #29: Control is Zl, Zp, Cc, Cf, unassigned and ignorable, but CR, LF, ZWNJ, ZWJ, Prepend
    let control = (matches!(gc, Gc::Zl | Gc::Zp | Gc::Cc | Gc::Cf) || gc == Gc::Cn && p.di()) && c != 13 && c != 10 && c != 0x200C && c != 0x200D && !p.pcm();
    if (gcb == Gcb::CN) != (control && gcb != Gcb::EX && gcb != Gcb::PP) && !(0xE0020..=0xE007F).contains(&c) {
        return bad("Grapheme_Cluster_Break Control follows from category and ignorability");
    }
    if gc == Gc::Mn && p.ccc() as u8 != 0 && gcb != Gcb::EX {
        return bad("a non-spacing mark with a combining class extends a cluster");
    }
    if p.ahex() != ((0x30..=0x39).contains(&c) || (0x41..=0x46).contains(&c) || (0x61..=0x66).contains(&c)) || p.ri() != (0x1F1E6..=0x1F1FF).contains(&c) || p.emod() != (0x1F3FB..=0x1F3FF).contains(&c) {
        return bad("ASCII_Hex_Digit, Regional_Indicator and Emoji_Modifier are the ranges the standard names");
    }
    if (gc == Gc::Co) != ((0xE000..0xF900).contains(&c) || (c >= 0xF0000 && c & 0xFFFE != 0xFFFE)) || (gc == Gc::Cc) != (c < 0x20 || (0x7F..0xA0).contains(&c)) {
        return bad("private use and controls are the ranges the standard names");
    }
    Ok(assigned)
}

/// UAX #31: XID closure under the normalization forms
fn closure(c: u32) -> Result<bool, String> {
    let ch = match char::from_u32(c) {
        None => return Ok(false),
        Some(x) => x,
    };
    let s = ch.to_string();
    let mut hit = false;
    for (f, t) in [s.to_nfd(), s.to_nfc(), s.to_nfkd(), s.to_nfkc()].iter().enumerate() {
        if ch.xidc() && !t.chars().all(|x| x.xidc()) {
            return Err(format!("U+{:04X} is XID_Continue but its {} {} is not", c, refnorm::FORM[f], ucd::hex(t)));
        }
        if ch.xids() {
            hit = true;
            let mut it = t.chars();
            if !it.next().map(|x| x.xids()).unwrap_or(false) || !it.all(|x| x.xidc()) {
                return Err(format!("U+{:04X} is XID_Start but its {} {} is no identifier", c, refnorm::FORM[f], ucd::hex(t)));
            }
        }
    }
    Ok(hit)
}

/// the number of every class, also of those no code point has
fn class_numbers() -> Result<(), String> {
    for (k, _, full, v) in va::CCC {
        let n: u8 = k.parse().map_err(|_| format!("no class number {}", k))?;
        if *v as u8 != n {
            return Err(format!("the class {} has the number {}, Unicode 15.1 says {}", full, *v as u8, n));
        }
    }
    Ok(())
}

struct Props {
    id: &'static str,
    what: &'static str,
    fns: Vec<PropFn>,
    /// also a global case
    global: Option<fn() -> Result<(), String>>,
}
const CP: u32 = 1;
const GLOBAL: u32 = 2;

fn unique_names() -> Result<(), String> {
    let mut m: HashMap<String, u32> = HashMap::new();
    for c in 0..ucd::N as u32 {
        let n = CodePoint::new(c)?.na();
        if !n.is_empty() {
            if let Some(o) = m.insert(n.clone(), c) {
                return Err(format!("U+{:04X} and U+{:04X} have the same name {:?}", o, c, n));
            }
        }
    }
    Ok(())
}

impl Check for Props {
    fn id(&self) -> &'static str {
        self.id
    }
    fn units(&self, _t: Tier) -> Vec<Unit> {
        let mut u = vec![];
        blocks(&mut u, CP, ucd::N as u64, 2048);
        if self.global.is_some() {
            blocks(&mut u, GLOBAL, 1, 1);
        }
        u
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        for i in u.lo..u.hi {
            cx.case(u.family, &[i as u32]);
            if cx.stopped() {
                return;
            }
        }
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        if kind == GLOBAL {
            self.global.unwrap()()?;
            return Ok(Seen::Nontrivial);
        }
        let mut n = false;
        for f in &self.fns {
            n |= f(args[0])?;
        }
        Ok(if n { Seen::Nontrivial } else { Seen::Trivial })
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        if kind == GLOBAL {
            "all code points together".into()
        } else {
            format!("U+{:04X}", args[0])
        }
    }
    fn rule(&self, _t: Tier) -> String {
        format!("{}: all 1114112 code points, surrogates and unassigned included, through CodePoint and (scalar values) char. {} properties or relations per code point, one evaluation per code point. Non-trivial: at least one value is not the most common value of its property.", self.what, self.fns.len())
    }
}

/// U12
struct Names;
fn name_cases() -> Vec<(&'static str, usize, String, &'static str, &'static str, PropertyName)> {
    let mut v = vec![];
    macro_rules! add {
        ($t:ident) => {
            for (i, (_, s, f, var)) in va::$t.iter().enumerate() {
                v.push((stringify!($t), i, format!("{:?}", var), *s, *f, var.property_value_name()));
            }
        };
    }
    add!(GC);
    add!(CCC);
    add!(BC);
    add!(DT);
    add!(GCB);
    add!(WB);
    add!(HST);
    add!(INSC);
    add!(INCB);
    add!(BLK);
    add!(SC);
    add!(AGE);
    v.push(("BIN", 0, "Y".into(), "Y", "Yes", BinaryProperty::Y.property_value_name()));
    v.push(("BIN", 1, "N".into(), "N", "No", BinaryProperty::N.property_value_name()));
    v.push(("BIN", 2, "from(true)".into(), "Y", "Yes", BinaryProperty::from(true).property_value_name()));
    v.push(("BIN", 3, "from(false)".into(), "N", "No", BinaryProperty::from(false).property_value_name()));
    v
}
impl Check for Names {
    fn id(&self) -> &'static str {
        "U12"
    }
    fn units(&self, _t: Tier) -> Vec<Unit> {
        let mut u = vec![];
        blocks(&mut u, 1, name_cases().len() as u64, 32);
        // every ordered pair of values of one property: equality
        blocks(&mut u, 3, name_cases().len() as u64, 32);
        // through the property value of every code point
        blocks(&mut u, 2, ucd::N as u64, 4096);
        u
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        for i in u.lo..u.hi {
            cx.case(u.family, &[i as u32]);
            if cx.stopped() {
                return;
            }
        }
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        if kind == 1 {
            static C: OnceLock<Vec<(&'static str, usize, String, &'static str, &'static str)>> = OnceLock::new();
            let c = C.get_or_init(|| name_cases().into_iter().map(|x| (x.0, x.1, x.2, x.3, x.4)).collect());
            let (p, i, var, s, f) = &c[args[0] as usize];
            macro_rules! val {
                ($($t:ident)*) => { match *p { $(stringify!($t) => va::$t[*i].3.property_value_name(),)* _ => match *i {
                    0 => BinaryProperty::Y.property_value_name(),
                    1 => BinaryProperty::N.property_value_name(),
                    2 => BinaryProperty::from(true).property_value_name(),
                    _ => BinaryProperty::from(false).property_value_name(),
                } } };
            }
            let n = val!(GC CCC BC DT GCB WB HST INSC INCB BLK SC AGE);
            if n.abbr != *s || n.full != *f {
                return Err(format!("names of {}::{} are {:?}/{:?}, PropertyValueAliases says {:?}/{:?}", p, var, n.abbr, n.full, s, f));
            }
            return Ok(Seen::Nontrivial);
        }
        if kind == 3 {
            static C: OnceLock<Vec<(&'static str, usize)>> = OnceLock::new();
            let (t, i) = C.get_or_init(|| name_cases().into_iter().map(|x| (x.0, x.1)).collect())[args[0] as usize];
            macro_rules! eqs {
                ($($t:ident)*) => { match t {
                    $(stringify!($t) => {
                        let a = va::$t[i].3;
                        for (j, x) in va::$t.iter().enumerate() {
                            // both ways of asking, and the copy
                            if (a == x.3) != (i == j) || (a != x.3) != (i != j) || (a.clone() == x.3) != (i == j) {
                                return Err(format!("{}: {:?} == {:?} is {}", t, a, x.3, a == x.3));
                            }
                        }
                    })*
                    _ => {
                        let v = [BinaryProperty::Y, BinaryProperty::N, BinaryProperty::from(true), BinaryProperty::from(false)];
                        for (j, x) in v.iter().enumerate() {
                            if (v[i] == *x) != (i % 2 == j % 2) || (v[i] != *x) != (i % 2 != j % 2) {
                                return Err(format!("{:?} == {:?} is {}", v[i], x, v[i] == *x));
                            }
                        }
                    }
                } };
            }
            eqs!(GC CCC BC DT GCB WB HST INSC INCB BLK SC AGE);
            return Ok(Seen::Nontrivial);
        }
        let p = CodePoint::new(args[0])?;
        macro_rules! one {
            ($($m:ident)*) => { $( {
                let n = p.$m().property_value_name();
                let k = data().enums[stringify!($m)].key(args[0]);
                let t = stringify!($m);
                if t != "ccc" && k != "?" && t != "age" && !n.abbr.eq_ignore_ascii_case(k) {
                    return Err(format!("the name of {} of U+{:04X} is {:?}, Unicode 15.1 says {:?}", t, args[0], n.abbr, k));
                }
            } )* };
        }
        one!(gc bc dt gcb wb hst insc incb blk sc age);
        Ok(if p.gc() == Gc::Cn { Seen::Trivial } else { Seen::Nontrivial })
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        if kind != 2 {
            let c = &name_cases()[args[0] as usize];
            format!("{}::{}", c.0, c.2)
        } else {
            format!("U+{:04X}", args[0])
        }
    }
    fn rule(&self, _t: Tier) -> String {
        "every variant of the twelve property enums and of BinaryProperty (both conversions from bool): short and long name against PropertyValueAliases 15.1; the short names of the values of every code point; and equality of every ordered pair of values of one property. Non-trivial: an enum variant, or an assigned code point.".into()
    }
}

/// U13
struct Cp;
const NEW: u32 = 1;
const SHOW: u32 = 2;
const VER: u32 = 3;
const VERC: u32 = 4;
const VN: [u32; 8] = [0, 1, 2, 9, 10, 15, 65536, u32::MAX];
fn ver(i: u32) -> UnicodeVersion {
    UnicodeVersion { major: VN[(i / 64 % 8) as usize], minor: VN[(i / 8 % 8) as usize], update: VN[(i % 8) as usize] }
}
impl Check for Cp {
    fn id(&self) -> &'static str {
        "U13"
    }
    fn units(&self, _t: Tier) -> Vec<Unit> {
        let mut u = vec![];
        blocks(&mut u, SHOW, ucd::N as u64, 4096);
        blocks(&mut u, VER, 512, 512);
        blocks(&mut u, VERC, 512 * 512, 8192);
        blocks(&mut u, NEW, 65536, 256);
        u
    }
    fn run(&self, cx: &mut Ctx, u: &Unit) {
        for i in u.lo..u.hi {
            cx.case(u.family, &[i as u32]);
            if cx.stopped() {
                return;
            }
        }
    }
    fn eval(&self, kind: u32, args: &[u32]) -> Verdict {
        match kind {
            NEW => {
                // all 2^32 numbers, 65536 at a time
                for lo in 0..65536u32 {
                    let x = black_box(args[0] << 16 | lo);
                    match CodePoint::new(x) {
                        Ok(c) => {
                            if x > 0x10FFFF {
                                return Err(format!("CodePoint::new({:#X}) is accepted", x));
                            }
                            if c.to_u32() != x {
                                return Err(format!("CodePoint::new({:#X}).to_u32() is {:#X}", x, c.to_u32()));
                            }
                        }
                        Err(_) => {
                            if x <= 0x10FFFF {
                                return Err(format!("CodePoint::new({:#X}) is refused", x));
                            }
                        }
                    }
                }
                Ok(Seen::Nontrivial)
            }
            SHOW => {
                let x = args[0];
                let c = CodePoint::new(x)?;
                let exp = format!("U+{}{:X}", &"0000"[..4usize.saturating_sub(format!("{:X}", x).len())], x);
                if c.to_string() != exp || format!("{}", c) != exp {
                    return Err(format!("{:#X} is shown as {}, should be {}", x, c, exp));
                }
                if let Some(ch) = char::from_u32(x) {
                    let d = ch.to_code_point();
                    if d.to_u32() != x || d.to_string() != exp {
                        return Err(format!("char {:?} becomes {}", ch, d));
                    }
                }
                let e = c;
                #[allow(clippy::clone_on_copy)]
                let f = c.clone();
                if e.to_u32() != x || f.to_u32() != x {
                    return Err(format!("a copy of {} is {} or {}", c, e, f));
                }
                Ok(Seen::Nontrivial)
            }
            VER => {
                let u = UNICODE_VERSION;
                if (u.major, u.minor, u.update) != (15, 1, 0) || u.to_string() != "15.1.0" {
                    return Err(format!("the supported version is {}", u.to_string()));
                }
                let v = ver(args[0]);
                let exp = format!("{}.{}.{}", v.major as u64, v.minor as u64, v.update as u64);
                if v.to_string() != exp {
                    return Err(format!("version {:?} is shown as {}", v, v.to_string()));
                }
                Ok(Seen::Nontrivial)
            }
            _ => {
                let (a, b) = (ver(args[0] / 512), ver(args[0] % 512));
                let exp = (a.major, a.minor, a.update).cmp(&(b.major, b.minor, b.update));
                if a.partial_cmp(&b) != Some(exp) || (a == b) != (exp == std::cmp::Ordering::Equal) {
                    return Err(format!("{} and {} compare as {:?}, should be {:?}", a.to_string(), b.to_string(), a.partial_cmp(&b), exp));
                }
                Ok(Seen::Nontrivial)
            }
        }
    }
    fn show(&self, kind: u32, args: &[u32]) -> String {
        match kind {
            NEW => format!("CodePoint::new of {:#X}..={:#X}", args[0] << 16, args[0] << 16 | 0xFFFF),
            SHOW => format!("display of {:#X}", args[0]),
            VER => format!("version {:?}", ver(args[0])),
            _ => format!("compare {:?} with {:?}", ver(args[0] / 512), ver(args[0] % 512)),
        }
    }
    fn rule(&self, _t: Tier) -> String {
        "CodePoint::new on all 2^32 numbers (blocks of 65536 count as one evaluation); display, copies and char conversion of all 1114112 code points; text of 512 version triples and comparison of all 512 x 512 pairs. All are non-trivial.".into()
    }
}

pub fn register(v: &mut Vec<Box<dyn Check>>) {
    let mut p = |id, what, fns: Vec<PropFn>, global| v.push(Box::new(Props { id, what, fns, global }) as Box<dyn Check>);
    p("U01", "General_Category", vec![ep!(gc, GC, "gc")], None);
    p("U02", "Bidi_Class", vec![ep!(bc, BC, "bc")], None);
    p("U03", "Canonical_Combining_Class", vec![ep!(ccc, CCC, "ccc"), ccc_number as PropFn], Some(class_numbers));
    let mut f = vec![ep!(dt, DT, "dt"), dm_prop as PropFn];
    f.extend(bp!(ce comp_ex));
    p("U04", "decomposition type, mapping, composition exclusions", f, None);
    p(
        "U05",
        "Grapheme_Cluster_Break, Word_Break, Hangul_Syllable_Type, Indic_Syllabic_Category, Indic_Conjunct_Break",
        vec![ep!(gcb, GCB, "gcb"), ep!(wb, WB, "wb"), ep!(hst, HST, "hst"), ep!(insc, INSC, "insc"), ep!(incb, INCB, "incb")],
        None,
    );
    p("U06", "Block, Script, Age", vec![ep!(blk, BLK, "blk"), ep!(sc, SC, "sc"), ep!(age, AGE, "age")], None);
    p("U07", "Name", vec![na_prop], Some(unique_names));
    p(
        "U08",
        "the PropList properties",
        bp!(wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext olower oupper nchar ogr_ext idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri).to_vec(),
        None,
    );
    p("U09", "the derived core properties", bp!(math alpha lower upper cased ci di gr_ext).to_vec(), None);
    let mut f = bp!(ids idc xids xidc).to_vec();
    f.push(closure);
    p("U10", "identifier properties and their closure under normalization", f, None);
    p("U11", "the emoji properties", bp!(emoji epres emod ebase ecomp ext_pict).to_vec(), None);
    v.push(Box::new(Names));
    v.push(Box::new(Cp));
    let mut p = |id, what, fns: Vec<PropFn>, global| v.push(Box::new(Props { id, what, fns, global }) as Box<dyn Check>);
    p("U14", "agreement of the two implementations of the trait, 68 properties", vec![agree_prop], None);
    p("U15", "relations between properties", vec![relations], None);
}
