//! P02: threads. The exploration is a program of its own (/verif/conc), because the library and the
//! standard library are compiled with instrumentation for it; this runs it and reads its report.
use crate::core::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::Command;

pub struct Conc;
fn exe() -> PathBuf {
    let e = std::env::current_exe().unwrap();
    e.parent().unwrap().join("../conc/x86_64-unknown-linux-gnu/release/conc")
}
impl Check for Conc {
    fn id(&self) -> &'static str {
        "P02"
    }
    fn units(&self, _t: Tier) -> Vec<Unit> {
        vec![]
    }
    fn run(&self, _cx: &mut Ctx, _u: &Unit) {}
    fn oracle(&self) -> String {
        "oracle: the answer each call gives alone in a process of its own; executions are sequentially consistent; unordered plain accesses to statics are reported as data races; reorderings among atomics are not explored; no randomness, so the seed changes nothing".into()
    }
    fn custom(&self, t: Tier, out: &Path, _known: &BTreeSet<String>) -> Option<Result<Report, String>> {
        let _ = std::fs::remove_file(out.join("result"));
        let st = Command::new(exe()).args(["explore", t.name()]).arg(out).status();
        Some(match st {
            Ok(s) if s.code() == Some(0) => std::fs::read_to_string(out.join("result")).map(|t| parse_report(&t)).map_err(|e| e.to_string()),
            Ok(s) => Err(format!("the schedule explorer ended with {}", s)),
            Err(e) => Err(format!("the schedule explorer does not run: {}", e)),
        })
    }
    fn eval(&self, kind: u32, a: &[u32]) -> Verdict {
        let o = Command::new(exe()).args(["eval", &case_key(kind, a)]).output().expect("schedule explorer");
        match o.status.code() {
            Some(0) => Ok(Seen::Nontrivial),
            Some(1) => Err(String::from_utf8_lossy(&o.stdout).trim().replace('\n', "; ")),
            c => Err(format!("replay ended with {:?}", c)),
        }
    }
    fn show(&self, kind: u32, a: &[u32]) -> String {
        format!("driver and schedule {}", case_key(kind, a))
    }
    fn rule(&self, t: Tier) -> String {
        format!(
            "Phase 1: every operation of the API (every property method through CodePoint and char over {} code points; six text operations over texts that include {} characters with a mapping, and texts of up to 700 repetitions) is executed with every memory access of the library and of the standard library observed; the writable global memory each operation touches is recorded. Operations that share no written place commute at every step, so all schedules of them are equivalent to one. Phase 2: for the operations that do share a written place, programs of two threads of one to three calls each and (for the first pairs of each place{}) of three threads, and (for the first pairs) of two threads behind 2 to 16 (thorough 64) other calls, so that a ring of that size comes round, and convoys of 5 and 9 (thorough 4 to 12) threads, each stopped at its k-th access for every k, every schedule with at most {} preemptions (switch points: every access to a written global place, every access to heap memory two threads share, every blocking call), at most {} schedules of one program at the deepest level. In every schedule the accesses to written globals are also checked for data races (happens-before by the memory orders the code uses). Controls in every run: a racy memo and a value published without order must be caught, a locked memo and an ordered publication must not. Besides, for every method and text operation, programs of two threads of two calls each are explored whatever the footprints say, with a switch point at every function entry, at most {} preemption(s) and {} schedules. Non-trivial: operations recorded (all distinct) plus distinct answer vectors of explored programs.",
            t.pick("about 270000 (steps of 5 and all edges)", "all 1114112"),
            t.pick("a quarter of the", "all"),
            t.pick("", "; here for all pairs"),
            t.pick(2, 3),
            t.pick(600, 20000),
            t.pick(1, 2),
            t.pick(4000, 20000)
        )
    }
}

pub fn register(v: &mut Vec<Box<dyn Check>>) {
    v.push(Box::new(Conc));
}
