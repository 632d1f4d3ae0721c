//! `mc ref`: prints what the references say about strings, for cross-validation against ICU 74
//! (oracle/validate_icu.sh). Not used by any check.
use std::io::{BufRead, Write};
pub fn main(a: &[String]) -> i32 {
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut o = std::io::BufWriter::new(out.lock());
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let s: String = l.split_whitespace().map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
        if a.first().map(|x| x == "seg").unwrap_or(false) {
            let mut b = vec![];
            crate::refseg::boundaries(&s, &mut b);
            writeln!(o, "{}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        } else {
            let v: Vec<String> =
                (0..4).map(|f| crate::refnorm::normalize(&s, f).chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ")).collect();
            writeln!(o, "{}", v.join("|")).unwrap();
        }
    }
    0
}
