//! P02: the library called by several threads at once. The crate and the standard library are
//! compiled with thread-sanitizer instrumentation whose calls go to rt.c, a scheduler that runs one
//! thread at a time and decides at every access to shared memory who runs next.
//!
//! Phase 1 runs every operation alone and records which writable global memory it touches. An
//! operation that touches none that any operation writes commutes with every other operation at
//! every step, so one order stands for all of them. Phase 2 explores, for operations that do share
//! written memory, all schedules of small programs with a bounded number of preemptions.
#[path = "../../harness/src/ops.rs"]
mod ops;
use ops::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

extern "C" {
    fn rt_init();
    fn rt_table() -> *mut u8;
    fn rt_use(t: *mut u8);
    fn rt_merge(t: *mut u8);
    fn rt_window(on: i32);
    fn rt_record(on: i32, dirty_only: i32);
    fn rt_op_begin();
    fn rt_touched(out: *mut usize, cap: u32) -> u32;
    fn rt_dirty() -> u32;
    fn rt_counts(out: *mut u64);
    fn rt_run(x: *mut Exec, heap: *mut u8, n: i32, f: extern "C" fn(i32, *mut u8), arg: *mut u8);
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
}
const MAXPOINTS: usize = 600;
const MAXT: usize = 12;
const HEAPTAB: usize = 4096 * 16;
#[repr(C)]
#[derive(Clone, Copy)]
struct Point {
    enabled: u16,
    cur: u8,
    cur_enabled: u8,
    chosen: u8,
}
#[repr(C)]
struct Exec {
    nprefix: u32,
    npoints: u32,
    total: u32,
    outcome: u32,
    cut: u32,
    heap_n: u32,
    mode_heap: u32,
    /// every function entry is a scheduling point
    mode_func: u32,
    prefix: [u8; MAXPOINTS],
    pt: [Point; MAXPOINTS],
}
const FAIL: u32 = 0xFFFF_FFFD;
const UNSET: u32 = 0xFFFF_FFFC;

fn shared(bytes: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), bytes, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}
/// runs f in a forked process; its wait status
fn isolated(limit_s: u32, f: impl FnOnce()) -> i32 {
    unsafe {
        let p = fork();
        assert!(p >= 0, "fork");
        if p == 0 {
            alarm(limit_s);
            f();
            _exit(0);
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) != p {}
        st
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Op {
    M(u32, u32),
    S(u32, Vec<u32>),
    /// controls of the explorer itself: 0 a racy memo, 1 the same behind a lock,
    /// 2 a value published without order, 3 with order
    C(u32, u32),
}
mod control {
    //! A memo whose two halves are written separately (wrong), and one behind a lock (right).
    use std::sync::atomic::*;
    use std::sync::Mutex;
    static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
    static VAL: AtomicU32 = AtomicU32::new(0);
    static BOTH: Mutex<(u32, u32)> = Mutex::new((u32::MAX, 0));
    #[inline(never)]
    pub fn racy(c: u32) -> u32 {
        if KEY.load(Ordering::Acquire) == c {
            return VAL.load(Ordering::Acquire);
        }
        let v = c.wrapping_mul(77);
        VAL.store(v, Ordering::Release);
        KEY.store(c, Ordering::Release);
        v
    }
    /// A value published by a flag, with or without the order that makes it visible.
    static FLAG: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
    static mut PLAIN: [u32; 2] = [0, 0];
    #[inline(never)]
    pub fn published(c: u32, k: usize) -> u32 {
        let (w, r) = if k == 0 { (Ordering::Relaxed, Ordering::Relaxed) } else { (Ordering::Release, Ordering::Acquire) };
        let p = unsafe { (&raw mut PLAIN as *mut u32).add(k) };
        if FLAG[k].load(r) == 2 {
            return unsafe { *p }.wrapping_mul(c);
        }
        if FLAG[k].compare_exchange(0, 1, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
            unsafe { *p = 77 }
            FLAG[k].store(2, w);
        }
        c.wrapping_mul(77)
    }
    #[inline(never)]
    pub fn locked(c: u32) -> u32 {
        let mut g = BOTH.lock().unwrap();
        if g.0 != c {
            *g = (c, c.wrapping_mul(77));
        }
        g.1
    }
}
struct World {
    ms: Vec<Method>,
}
impl World {
    fn call(&self, o: &Op, buf: &mut String) -> u32 {
        match o {
            Op::M(mv, c) => {
                let m = &self.ms[*mv as usize / 2];
                let f = if mv & 1 == 0 { m.cp } else { m.ch };
                guard(|| f(*c))
            }
            Op::S(op, s) => {
                buf.clear();
                buf.extend(s.iter().map(|c| char::from_u32(*c).unwrap()));
                let b: &str = buf;
                guard(|| str_op(*op, b))
            }
            Op::C(0, c) => guard(|| control::racy(*c)),
            Op::C(1, c) => guard(|| control::locked(*c)),
            Op::C(k, c) => guard(|| control::published(*c, *k as usize - 2)),
        }
    }
    fn name(&self, o: &Op) -> String {
        match o {
            Op::M(m, c) => format!("{}(U+{:04X}){}", self.ms[*m as usize / 2].name, c, if m & 1 == 1 { " as char" } else { "" }),
            Op::S(op, s) => format!("{}(<{}>)", STR_OPS[*op as usize], s.iter().map(|c| format!("{:04X}", c)).collect::<Vec<_>>().join(" ")),
            Op::C(k, c) => format!("control {}({})", k, c),
        }
    }
    fn alone(&self, o: &Op) -> u32 {
        let m = shared(4096) as *mut u32;
        unsafe {
            m.write(FAIL);
            isolated(60, || m.write_volatile(self.call(o, &mut String::with_capacity(1 << 14))));
            let r = m.read_volatile();
            munmap(m as *mut u8, 4096);
            r
        }
    }
}
/// window on, call, window off
fn guard(f: impl FnOnce() -> u32) -> u32 {
    unsafe { rt_window(1) }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { rt_window(0) }
    r.unwrap_or(FAIL)
}

fn enc(o: &Op, out: &mut Vec<u32>) {
    match o {
        Op::M(m, c) => out.extend([0, *m, *c]),
        Op::C(k, c) => out.extend([2, *k, *c]),
        Op::S(op, s) => {
            out.extend([1, *op, s.len() as u32]);
            out.extend(s);
        }
    }
}
fn dec(a: &[u32], i: &mut usize) -> Option<Op> {
    let (t, x, y) = (*a.get(*i)?, *a.get(*i + 1)?, *a.get(*i + 2)?);
    *i += 3;
    Some(match t {
        0 => Op::M(x, y),
        2 => Op::C(x, y),
        _ => {
            let s = a.get(*i..*i + y as usize)?.to_vec();
            *i += y as usize;
            Op::S(x, s)
        }
    })
}

/// a small program: calls before the threads start, and the calls of each thread
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Driver {
    pre: Vec<Op>,
    th: Vec<Vec<Op>>,
    /// switch at function entries too
    func: bool,
}
impl Driver {
    fn encode(&self, choices: &[u8]) -> Vec<u32> {
        let mut v = vec![self.func as u32, self.pre.len() as u32];
        self.pre.iter().for_each(|o| enc(o, &mut v));
        v.push(self.th.len() as u32);
        for t in &self.th {
            v.push(t.len() as u32);
            t.iter().for_each(|o| enc(o, &mut v));
        }
        v.extend(choices.iter().map(|c| *c as u32));
        v
    }
    fn decode(a: &[u32]) -> Option<(Driver, Vec<u8>)> {
        let func = *a.first()? == 1;
        let mut i = 2;
        let pre = (0..*a.get(1)?).map(|_| dec(a, &mut i)).collect::<Option<Vec<_>>>()?;
        let n = *a.get(i)?;
        i += 1;
        let mut th = vec![];
        for _ in 0..n {
            let k = *a.get(i)?;
            i += 1;
            th.push((0..k).map(|_| dec(a, &mut i)).collect::<Option<Vec<_>>>()?);
        }
        Some((Driver { pre, th, func }, a[i..].iter().map(|c| *c as u8).collect()))
    }
    fn show(&self, w: &World) -> String {
        let l = |v: &Vec<Op>| v.iter().map(|o| w.name(o)).collect::<Vec<_>>().join("; ");
        format!("{}{}", if self.pre.is_empty() { String::new() } else { format!("first {}; then ", l(&self.pre)) }, self.th.iter().map(l).collect::<Vec<_>>().join(" || "))
    }
}
struct Arg<'a> {
    w: &'a World,
    d: &'a Driver,
    res: *mut u32,
}
extern "C" fn body(id: i32, arg: *mut u8) {
    let a = unsafe { &*(arg as *const Arg) };
    let mut buf = String::with_capacity(1 << 14);
    for (k, o) in a.d.th[id as usize].iter().enumerate() {
        let r = a.w.call(o, &mut buf);
        unsafe { a.res.add(id as usize * 16 + k).write_volatile(r) }
    }
}

/// one explorer: shared buffers for executions
struct Explorer<'a> {
    w: &'a World,
    x: *mut Exec,
    heap: *mut u8,
    res: *mut u32,
    alone: BTreeMap<Op, u32>,
    execs: u64,
    points: u64,
    cut: u64,
    diverged: u64,
    outcomes: BTreeSet<Vec<u32>>,
    capped: u64,
}
const DONE: u32 = 1;
const DEADLOCK: u32 = 3;
const CUT: u32 = 4;
const DIVERGED: u32 = 5;
const RACE: u32 = 6;
impl<'a> Explorer<'a> {
    fn new(w: &'a World) -> Self {
        Explorer {
            w,
            x: shared(std::mem::size_of::<Exec>()) as *mut Exec,
            heap: shared(HEAPTAB),
            res: shared(4096) as *mut u32,
            alone: BTreeMap::new(),
            execs: 0,
            points: 0,
            cut: 0,
            diverged: 0,
            outcomes: BTreeSet::new(),
            capped: 0,
        }
    }
    fn expect(&mut self, o: &Op) -> u32 {
        if let Some(v) = self.alone.get(o) {
            return *v;
        }
        let v = self.w.alone(o);
        self.alone.insert(o.clone(), v);
        v
    }
    /// one execution under a schedule; Err describes what went wrong with the answers
    fn run(&mut self, d: &Driver, prefix: &[u8], mode: u32) -> Result<Vec<Point>, String> {
        let n = d.th.len();
        unsafe {
            let x = &mut *self.x;
            x.nprefix = prefix.len() as u32;
            x.prefix[..prefix.len()].copy_from_slice(prefix);
            x.npoints = 0;
            x.outcome = 0;
            x.mode_heap = mode;
            x.mode_func = d.func as u32;
            for i in 0..16 * MAXT {
                self.res.add(i).write_volatile(UNSET);
            }
        }
        let (w, xp, hp, res) = (self.w, self.x, self.heap, self.res);
        let st = isolated(60, || {
            let mut buf = String::with_capacity(1 << 14);
            for o in &d.pre {
                w.call(o, &mut buf);
            }
            let a = Arg { w, d, res };
            unsafe { rt_run(xp, hp, n as i32, body, &a as *const Arg as *mut u8) }
        });
        self.execs += 1;
        let x = unsafe { &*self.x };
        self.points += x.total as u64;
        if st != 0 {
            return Err(format!("the process ends with status {} under this schedule", st));
        }
        match x.outcome {
            DONE => {}
            CUT => {
                self.cut += 1;
                return Ok(vec![]);
            }
            DIVERGED => {
                self.diverged += 1;
                return Ok(vec![]);
            }
            DEADLOCK => return Err("the threads wait for each other for ever under this schedule".into()),
            RACE => return Err("two threads access the same static without order under this schedule, at least one of them writing plainly (data race: the answer is not determined)".into()),
            o => return Err(format!("execution ended with {}", o)),
        }
        let mut got = vec![];
        for (t, p) in d.th.iter().enumerate() {
            for (k, o) in p.iter().enumerate() {
                let r = unsafe { self.res.add(t * 16 + k).read_volatile() };
                got.push(r);
                let e = self.expect(o);
                if r != e {
                    return Err(format!("thread {} call {}: {} answers (hash) {:X}{}, alone {:X}", t, k, self.w.name(o), r, if r == FAIL { " (panic)" } else { "" }, e));
                }
            }
        }
        self.outcomes.insert(got);
        Ok(x.pt[..x.npoints as usize].to_vec())
    }
    /// many threads in one call at once: every thread stops at its k-th decision, for every k, and
    /// then they go on, the last or the first of them first
    fn convoy(&mut self, d: &Driver) -> Option<(Vec<u8>, String)> {
        let n = d.th.len();
        // places that are only written when threads meet become known on the way: then once more
        for _ in 0..3 {
            let known = unsafe { rt_dirty() };
            let pts = match self.run(d, &[0], 2) {
                Ok(p) => p,
                Err(m) => return Some((vec![0], m)),
            };
            let most = pts.iter().filter(|p| p.cur == 0 && p.cur_enabled == 1).count().min((MAXPOINTS - 2) / n);
            for k in 1..=most {
                let mut v: Vec<u8> = (0..n as u8).flat_map(|t| std::iter::repeat(t).take(k)).collect();
                for more in [false, true] {
                    if more {
                        v.push(0);
                    }
                    if let Err(m) = self.run(d, &v, 2) {
                        return Some((v, m));
                    }
                }
            }
            if unsafe { rt_dirty() } == known {
                break;
            }
        }
        None
    }
    /// all schedules with at most `bound` preemptions, at most `cap` of them
    fn explore(&mut self, d: &Driver, from: u32, bound: u32, cap: u64) -> Option<(Vec<u8>, String)> {
        unsafe { std::ptr::write_bytes(self.heap, 0, HEAPTAB) }
        unsafe { (*self.x).heap_n = 0 }
        if d.th.len() > 3 {
            return self.convoy(d);
        }
        // gather shared heap memory on the sequential orders
        for first in 0..d.th.len() as u8 {
            if let Err(m) = self.run(d, &[first], 0) {
                return Some((vec![first], m));
            }
        }
        // too much shared heap memory: only globals are scheduling points
        let mode = if unsafe { (*self.x).heap_n } <= 48 { 1 } else { 2 };
        let mut done = 0;
        for b in from..=bound {
            // schedules with exactly b preemptions
            let mut stack: Vec<(Vec<u8>, u32)> = vec![(vec![], 0)];
            while let Some((prefix, cost)) = stack.pop() {
                if done >= cap {
                    self.capped += 1;
                    return None;
                }
                let leaf = cost == b;
                done += leaf as u64;
                let pts = match self.run(d, &prefix, mode) {
                    Ok(p) => p,
                    Err(m) => return Some((prefix, m)),
                };
                let chosen: Vec<u8> = pts.iter().map(|p| p.chosen).collect();
                for i in (prefix.len()..pts.len()).rev() {
                    let p = pts[i];
                    let c = cost + (p.cur_enabled == 1) as u32;
                    if c > b {
                        continue;
                    }
                    for t in 0..d.th.len() as u8 {
                        if p.enabled >> t & 1 == 1 && t != p.chosen {
                            let mut v = chosen[..i].to_vec();
                            v.push(t);
                            stack.push((v, c));
                        }
                    }
                }
            }
        }
        None
    }
}

fn report(lines: &str, out: &str) {
    let tmp = format!("{}/result.tmp", out);
    std::fs::write(&tmp, lines).expect("write");
    std::fs::rename(&tmp, format!("{}/result", out)).expect("rename");
}

/// the operations of phase 1
fn alphabet(w: &World, thorough: bool) -> (Vec<u32>, Vec<Op>) {
    let step = if thorough { 1 } else { 5 };
    let mut cps: Vec<u32> = (0..0x110000u32).step_by(step).collect();
    if !thorough {
        cps.retain(|c| *c < 0x32000 || c % 3 == 0);
        cps.extend((0..0x500).chain(0xABF0..0xAC80).chain(0xD790..0xD800).chain(0x1F1E0..0x1F700).chain(0x2F7F0..0x2FA30));
        for p in 0..17 {
            cps.extend([p << 16, (p << 16) + 1, (p << 16) + 0x41, (p << 16) + 0xFFFF]);
        }
        cps.sort_unstable();
        cps.dedup();
    }
    let mut s: Vec<Vec<u32>> = strings().iter().map(|s| s.chars().map(|c| c as u32).collect()).collect();
    // every character that has a mapping, with a mark; long texts
    let dm = w.ms.iter().position(|m| m.name == "dm").unwrap();
    let none = (w.ms[dm].cp)(0x41);
    let mut n = 0;
    for c in 0..0x30000u32 {
        if (w.ms[dm].ch)(c) != none && char::from_u32(c).is_some() {
            n += 1;
            if thorough || n % 4 == 0 || n < 400 {
                s.push(vec![c, 0x301]);
            }
        }
    }
    for base in [vec![0x65, 0x301], vec![0x1F1E6], vec![0xAC00], vec![0x41], vec![0x915, 0x94D], vec![0x1F469, 0x200D]] {
        for k in [3usize, 9, 31, 65, 129, 257, 700] {
            s.push(base.iter().cycle().take(base.len() * k).cloned().collect());
        }
    }
    let mut so = vec![];
    for op in 0..6 {
        for x in &s {
            so.push(Op::S(op, x.clone()));
        }
    }
    (cps, so)
}

fn drivers_of(x: &Op, y: &Op, three: bool, thorough: bool) -> Vec<Driver> {
    let mut v = vec![
        Driver { pre: vec![], th: vec![vec![x.clone(), y.clone()], vec![y.clone(), x.clone()]], func: false },
        Driver { pre: vec![y.clone()], th: vec![vec![x.clone()], vec![x.clone(), y.clone()]], func: false },
        Driver { pre: vec![], th: vec![vec![x.clone(), x.clone()], vec![y.clone(), y.clone()]], func: false },
    ];
    if three {
        v.push(Driver { pre: vec![], th: vec![vec![x.clone()], vec![y.clone()], vec![x.clone()]], func: false });
        v.push(Driver { pre: vec![], th: vec![vec![x.clone()], vec![x.clone()], vec![y.clone(), x.clone()]], func: false });
    }
    if thorough {
        v.push(Driver { pre: vec![x.clone(), y.clone()], th: vec![vec![x.clone(), y.clone(), x.clone()], vec![y.clone(), x.clone(), y.clone()]], func: false });
    }
    v
}

/// x put away first, then so many others that a ring of any size comes round to it when y follows
fn rings(e: &mut Explorer, x: &Op, y: &Op, thorough: bool) -> Vec<Driver> {
    let max = if thorough { 64 } else { 16 };
    let mut used: BTreeSet<u32> = [e.expect(x), e.expect(y)].into();
    let mut others: Vec<Op> = vec![];
    let mut spare: Vec<Op> = vec![];
    // values that differ from one another first: at most one of them is the value of what is not listed
    let mut add = |o: Op, e: &mut Explorer, others: &mut Vec<Op>| {
        if o == *x || o == *y || others.len() >= max {
            return;
        }
        if used.insert(e.expect(&o)) {
            others.push(o);
        } else {
            spare.push(o);
        }
    };
    match x {
        Op::M(m, _) => (0xC1..0x110).chain([0xAC01, 0xFB01, 0x1E69, 0x958, 0x304C]).for_each(|c| add(Op::M(*m, c), e, &mut others)),
        Op::S(op, _) => (0xC1..0x110).for_each(|c| add(Op::S(*op, vec![c, 0x41, 0x316]), e, &mut others)),
        _ => return vec![],
    }
    others.extend(spare);
    let mut v = vec![];
    for n in [2usize, 4, 8, 16, 3, 5, 6, 7, 32, 64] {
        if n <= max && others.len() >= n - 1 {
            let pre: Vec<Op> = std::iter::once(x.clone()).chain(others[..n - 1].iter().cloned()).collect();
            v.push(Driver { pre, th: vec![vec![x.clone()], vec![y.clone(), x.clone()]], func: false });
        }
    }
    v
}

/// programs that are explored whatever the footprints say, with switches at function entries
fn baseline(w: &World, e: &mut Explorer, thorough: bool) -> Vec<Driver> {
    let nm = 2 * w.ms.len() as u32;
    let probes = [0x41u32, 0x301, 0xAC01, 0x1F1E6, 0x958, 0x2F800, 0x200D, 0xD800, 0x30, 0x20];
    let mut pairs = vec![];
    for mv in 0..nm {
        let ops: Vec<Op> = probes.iter().filter(|c| mv & 1 == 0 || char::from_u32(**c).is_some()).map(|c| Op::M(mv, *c)).collect();
        let y = ops[1..].iter().find(|o| e.expect(o) != e.expect(&ops[0])).unwrap_or(&ops[1]);
        pairs.push((ops[0].clone(), y.clone()));
        pairs.push((y.clone(), Op::M((mv + 2) % nm, 0x301)));
    }
    let t: [&[u32]; 8] = [&[0x41, 0x301], &[0xAC01, 0x11A8], &[0x1F1E6, 0x1F1E7, 0x1F1E8], &[0x958, 0x94D, 0x915], &[0x2F800, 0x301, 0x323], &[0x1F469, 0x200D, 0x1F469], &[0xFB01, 0x1100, 0x1161], &[0xD, 0xA, 0x65]];
    for op in 0..6u32 {
        for (i, a) in t.iter().enumerate() {
            for b in if thorough { &t[..] } else { std::slice::from_ref(&t[(i + 1) % 8]) } {
                pairs.push((Op::S(op, a.to_vec()), Op::S(op, b.to_vec())));
                pairs.push((Op::S(op, a.to_vec()), Op::S((op + 1) % 6, b.to_vec())));
            }
        }
    }
    pairs
        .into_iter()
        .map(|(x, y)| Driver { pre: vec![], th: vec![vec![x.clone(), y.clone()], vec![y, x]], func: true })
        .collect()
}

/// finds the places that operations write (8 processes)
fn phase1(w: &World, cps: &[u32], so: &[Op], main: *mut u8) -> (u64, Result<(), String>) {
    let nm = 2 * w.ms.len() as u32;
    let tabs: Vec<*mut u8> = (0..8).map(|_| unsafe { rt_table() }).collect();
    let mut pids = vec![];
    for sh in 0..8u32 {
        unsafe {
            let p = fork();
            if p == 0 {
                alarm(600);
                rt_use(tabs[sh as usize]);
                rt_record(1, 0);
                let mut buf = String::with_capacity(1 << 14);
                for mv in (sh..nm).step_by(8) {
                    for c in cps {
                        w.call(&Op::M(mv, *c), &mut buf);
                    }
                }
                for o in so.iter().skip(sh as usize).step_by(8) {
                    w.call(o, &mut buf);
                }
                _exit(0);
            }
            pids.push(p);
        }
    }
    let mut r = Ok(());
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) != p {} }
        if st != 0 {
            r = Err(format!("recording process ended with status {}", st));
        }
    }
    unsafe {
        rt_use(main);
        for t in tabs {
            rt_merge(t);
            munmap(t, 1 << 20);
        }
    }
    (nm as u64 * cps.len() as u64 + so.len() as u64, r)
}

/// operations that touch written places, grouped by place (diverse samples)
fn phase2_candidates(w: &World, cps: &[u32], so: &[Op]) -> Vec<(usize, Vec<Op>)> {
    // in a forked process, results through a shared buffer: place, op
    const CAP: usize = 1 << 22;
    let buf = shared(CAP * 4) as *mut u32;
    isolated(600, || unsafe {
        rt_record(1, 1);
        let mut per: BTreeMap<usize, BTreeMap<u32, (u32, BTreeSet<u32>)>> = BTreeMap::new();
        let mut out: Vec<u32> = vec![];
        let mut b = String::with_capacity(1 << 14);
        let mut touched = vec![0usize; 4096];
        let mut one = |o: &Op, class: u32, b: &mut String, out: &mut Vec<u32>| {
            rt_op_begin();
            let r = w.call(o, b);
            let n = rt_touched(touched.as_mut_ptr(), 4096) as usize;
            for g in &touched[..n.min(40)] {
                if per.len() > 4000 && !per.contains_key(g) {
                    continue;
                }
                let m = per.entry(*g).or_default();
                if m.len() >= 12 && !m.contains_key(&class) {
                    continue;
                }
                let e = m.entry(class).or_default();
                if e.0 >= 6 || (e.1.contains(&r) && e.1.len() + 3 <= e.0 as usize + 1) {
                    continue;
                }
                e.0 += 1;
                e.1.insert(r);
                out.extend([*g as u32, (*g as u64 >> 32) as u32]);
                enc(o, out);
            }
        };
        let nm = 2 * w.ms.len() as u32;
        // a thinned walk over the code points in a mixing order, so that samples differ
        let n = cps.len();
        for mv in 0..nm {
            for i in 0..n.min(60000) {
                one(&Op::M(mv, cps[(i * 7919 + 0x41) % n]), mv, &mut b, &mut out);
            }
        }
        for o in so {
            if let Op::S(op, _) = o {
                one(o, 1000 + op, &mut b, &mut out);
            }
        }
        out.truncate(CAP - 8);
        for (i, x) in out.iter().enumerate() {
            buf.add(1 + i).write(*x);
        }
        buf.write(out.len() as u32);
    });
    let a: Vec<u32> = unsafe { (0..buf.read() as usize).map(|i| buf.add(1 + i).read()).collect() };
    let mut m: BTreeMap<usize, Vec<Op>> = BTreeMap::new();
    let mut i = 0;
    while i + 2 < a.len() {
        let g = a[i] as usize | (a[i + 1] as usize) << 32;
        i += 2;
        match dec(&a, &mut i) {
            Some(o) => m.entry(g).or_default().push(o),
            None => break,
        }
    }
    unsafe { munmap(buf as *mut u8, CAP * 4) };
    m.into_iter().collect()
}

fn control(w: &World, table: *mut u8) -> Result<(u64, u64), String> {
    // the controls have their own footprint
    unsafe {
        let t = rt_table();
        rt_use(t);
        isolated(60, || {
            rt_record(1, 0);
            let mut b = String::new();
            for k in 0..4 {
                w.call(&Op::C(k, 5), &mut b);
                w.call(&Op::C(k, 6), &mut b);
            }
        });
        let dirty = rt_dirty();
        if dirty < 5 {
            return Err(format!("the controls write {} shared places, at least 5 expected", dirty));
        }
        let mut e = Explorer::new(w);
        for k in [0, 2] {
            let mut found = 0;
            for d in drivers_of(&Op::C(k, 5), &Op::C(k, 6), false, false) {
                if let Some((p, _)) = e.explore(&d, 0, 2, 4000) {
                    // the schedule must fail again
                    if e.run(&d, &p, 1).is_ok() {
                        return Err(format!("a failing schedule of control {} does not fail again", k));
                    }
                    found += 1;
                }
            }
            if found == 0 {
                return Err(format!("control {} was not caught", k));
            }
        }
        let racy = e.execs;
        let mut e = Explorer::new(w);
        for k in [1, 3] {
            for d in drivers_of(&Op::C(k, 5), &Op::C(k, 6), false, false) {
                if let Some((p, m)) = e.explore(&d, 0, 2, 4000) {
                    return Err(format!("alarm on the correct control {}: {} {:?}", k, m, p));
                }
            }
        }
        if e.diverged > 0 || e.execs < 30 {
            return Err(format!("correct controls: {} executions, {} diverged", e.execs, e.diverged));
        }
        rt_use(table);
        Ok((racy, e.execs))
    }
}

fn explore_main(thorough: bool, out: &str) -> i32 {
    let w = World { ms: methods() };
    unsafe { rt_init() }
    let table = unsafe { rt_table() };
    unsafe { rt_use(table) }
    let (racy, locked) = match control(&w, table) {
        Ok(x) => x,
        Err(m) => {
            println!("ERROR conc control: {}", m);
            return 2;
        }
    };
    // the alphabet looks at the library: in another process, the code points are the same anyway
    let lst = shared(1 << 24) as *mut u32;
    isolated(120, || unsafe {
        let (c, s) = alphabet(&w, thorough);
        let mut v = vec![c.len() as u32];
        v.extend(c);
        for o in &s {
            enc(o, &mut v);
        }
        assert!(v.len() < (1 << 22) - 2);
        lst.write(v.len() as u32);
        for (i, x) in v.iter().enumerate() {
            lst.add(1 + i).write(*x);
        }
    });
    let a: Vec<u32> = unsafe { (0..lst.read() as usize).map(|i| lst.add(1 + i).read()).collect() };
    if a.is_empty() {
        println!("ERROR conc: no alphabet");
        return 2;
    }
    let cps = a[1..1 + a[0] as usize].to_vec();
    let mut i = 1 + a[0] as usize;
    let mut so = vec![];
    while i < a.len() {
        match dec(&a, &mut i) {
            Some(o) => so.push(o),
            None => break,
        }
    }
    let (nops, r) = phase1(&w, &cps, &so, table);
    if let Err(m) = r {
        println!("ERROR conc: {}", m);
        return 2;
    }
    let mut cnt = [0u64; 4];
    unsafe { rt_counts(cnt.as_mut_ptr()) };
    let dirty = unsafe { rt_dirty() } as u64;
    let mut drivers: Vec<(usize, Driver)> = vec![];
    let mut places = 0;
    if dirty > 0 {
        let groups = phase2_candidates(&w, &cps, &so);
        places = groups.len();
        let mut seen = BTreeSet::new();
        let maxg = if thorough { 400 } else { 60 };
        let per = if thorough { 60 } else { 24 };
        let step = (groups.len() / maxg).max(1);
        let mut e = Explorer::new(&w);
        for (_, ops) in groups.iter().step_by(step) {
            let mut rank = 0;
            let mut pairs = vec![];
            for i in 0..ops.len() {
                for j in i..ops.len() {
                    let (x, y) = (&ops[i], &ops[j]);
                    let differ = e.expect(x) != e.expect(y);
                    let same = matches!((x, y), (Op::M(a, _), Op::M(b, _)) if a == b) || matches!((x, y), (Op::S(a, _), Op::S(b, _)) if a == b);
                    pairs.push((match (differ, same, i == j) {
                        (true, true, _) => 0,
                        (_, _, true) => 1,
                        (true, false, _) => 2,
                        _ => 3,
                    }, i, j));
                }
            }
            pairs.sort();
            // half of the pairs from the same way of asking, half across
            let (near, far): (Vec<_>, Vec<_>) = pairs.into_iter().partition(|p| p.0 < 2);
            for (k, (_, i, j)) in near.iter().take(per).chain(far.iter().take(per / 2)).enumerate() {
                for d in drivers_of(&ops[*i], &ops[*j], thorough || k < 6, thorough) {
                    if seen.insert(d.clone()) {
                        drivers.push((rank, d));
                        rank += 1;
                    }
                }
                // the first pairs, by many threads at once
                if k < 2 {
                    for n in if thorough { &[4, 5, 6, 8, 9, 10, 12][..] } else { &[5, 9][..] } {
                        let th = (0..*n).map(|t| vec![if t % 2 == 0 { ops[*i].clone() } else { ops[*j].clone() }]).collect();
                        let d = Driver { pre: vec![], th, func: false };
                        if seen.insert(d.clone()) {
                            drivers.push((rank, d));
                            rank += 1;
                        }
                    }
                }
                // the first pairs with different answers, also behind other calls
                if k < 3 && e.expect(&ops[*i]) != e.expect(&ops[*j]) {
                    for d in rings(&mut e, &ops[*i], &ops[*j], thorough).into_iter().chain(rings(&mut e, &ops[*j], &ops[*i], thorough)) {
                        if seen.insert(d.clone()) {
                            drivers.push((rank, d));
                            rank += 1;
                        }
                    }
                }
            }
        }
    }
    let base = {
        let mut e = Explorer::new(&w);
        baseline(&w, &mut e, thorough)
    };
    let nbase = base.len();
    // explore the drivers on 8 processes
    let t0 = std::time::Instant::now();
    let budget = if thorough { 2400 } else { 150 };
    let (fcap, fbound) = if thorough { (20000, 2) } else { (4000, 1) };
    let cap = if thorough { 20000 } else { 600 };
    let bound = if thorough { 3 } else { 2 };
    let maxd = if thorough { 6000 } else { 1500 };
    // all groups take turns
    drivers.sort_by_key(|d| d.0);
    let mut drivers: Vec<Driver> = drivers.into_iter().map(|d| d.1).collect();
    let total_drivers = drivers.len();
    drivers.truncate(maxd);
    drivers.extend(base);
    let next = shared(4096) as *const std::sync::atomic::AtomicU32;
    let next = unsafe { &*next };
    let stopf = unsafe { &*((next as *const std::sync::atomic::AtomicU32).add(1)) };
    let outs: Vec<*mut u64> = (0..8).map(|_| shared(1 << 16) as *mut u64).collect();
    if !drivers.is_empty() {
        let mut pids = vec![];
        for sh in 0..8 {
            let p = unsafe { fork() };
            if p == 0 {
                let o = outs[sh];
                let mut late = 0u64;
                let mut e = Explorer::new(&w);
                loop {
                    // all programs with few preemptions first, then deeper
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
                    if i >= 2 * drivers.len() || stopf.load(std::sync::atomic::Ordering::SeqCst) != 0 {
                        break;
                    }
                    let deep = i >= drivers.len();
                    let d = &drivers[i % drivers.len()];
                    if (d.func || d.th.len() > 3) && deep {
                        continue;
                    }
                    if t0.elapsed().as_secs() > budget {
                        late += 1;
                        continue;
                    }
                    let (f, b, c) = if d.func { (0, fbound, fcap) } else if deep { (2, bound, cap) } else { (0, 1, cap) };
                    if let Some((p, m)) = e.explore(d, f, b, c) {
                        // it must fail again under the same schedule
                        let again = (0..2).filter(|_| e.run(d, &p, 1).is_err()).count();
                        let v = d.encode(&p);
                        unsafe {
                            let q = o as *mut u32;
                            q.add(64).write(v.len() as u32);
                            v.iter().enumerate().for_each(|(k, x)| q.add(65 + k).write(*x));
                            let mb = m.as_bytes();
                            let mb = &mb[..mb.len().min(2000)];
                            std::ptr::copy_nonoverlapping(mb.as_ptr(), (o as *mut u8).add(40000), mb.len());
                            q.add(20).write(mb.len() as u32);
                            q.add(21).write(again as u32);
                            q.add(22).write(1);
                        }
                        stopf.store(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
                unsafe {
                    o.write(e.execs);
                    o.add(1).write(e.points);
                    o.add(2).write(e.cut);
                    o.add(3).write(e.diverged);
                    o.add(4).write(e.outcomes.len() as u64);
                    o.add(5).write(e.capped);
                    o.add(6).write(late);
                    _exit(0)
                }
            }
            pids.push(p);
        }
        for p in pids {
            let mut st = 0;
            unsafe { while waitpid(p, &mut st, 0) != p {} }
            if st != 0 {
                println!("ERROR conc: explorer ended with status {}", st);
                return 2;
            }
        }
    }
    let sum = |k: usize| -> u64 { outs.iter().map(|o| unsafe { o.add(k).read() }).sum() };
    let mut r = String::new();
    let execs = sum(0);
    let mut viol = false;
    for o in &outs {
        unsafe {
            let q = *o as *mut u32;
            if q.add(22).read() == 1 {
                viol = true;
                let n = q.add(64).read() as usize;
                let v: Vec<u32> = (0..n).map(|k| q.add(65 + k).read()).collect();
                let m = std::slice::from_raw_parts((*o as *const u8).add(40000), q.add(20).read() as usize);
                let d = Driver::decode(&v).unwrap();
                let _ = writeln!(r, "viol {}\t{} [{}] schedule {:?}; failed again {} of 2", std::iter::once("1".to_string()).chain(v.iter().map(|x| format!("{:X}", x))).collect::<Vec<_>>().join(" "), String::from_utf8_lossy(m).replace(['\n', '\t'], " "), d.0.show(&w), d.1, q.add(21).read());
            }
        }
    }
    let _ = writeln!(r, "complete 1\nevals {}\nnontrivial {}\ndistinct {}", nops + execs, nops + execs, nops + sum(4));
    for (k, v) in [
        ("operations_recorded", nops),
        ("memory_accesses_recorded", cnt[0]),
        ("accesses_to_writable_globals", cnt[1]),
        ("writable_global_places_touched", cnt[2]),
        ("places_written_by_operations", dirty),
        ("footprint_table_overflow", cnt[3]),
        ("places_with_candidates", places as u64),
        ("drivers", drivers.len() as u64),
        ("drivers_explored_regardless", nbase as u64),
        ("drivers_beyond_the_cap", (total_drivers + nbase - drivers.len()) as u64),
        ("schedules_executed", execs),
        ("scheduling_points_executed", sum(1)),
        ("schedules_cut_at_the_horizon", sum(2)),
        ("schedules_diverged", sum(3)),
        ("distinct_outcomes_sum", sum(4)),
        ("drivers_cut_at_the_schedule_cap", sum(5)),
        ("drivers_not_reached_in_time", sum(6)),
        ("preemption_bound", bound as u64),
        ("control_schedules_wrong_ones_caught", racy),
        ("control_schedules_right_ones_quiet", locked),
    ] {
        let _ = writeln!(r, "extra {} {}", k, v);
    }
    for o in [Op::M(0, 0x41), so[7].clone(), so[so.len() / 2].clone()] {
        let _ = writeln!(r, "sample {}", w.name(&o));
    }
    for d in drivers.iter().step_by((drivers.len() / 4).max(1)).take(5) {
        let _ = writeln!(r, "sample {}", d.show(&w));
    }
    report(&r, out);
    let _ = viol;
    0
}

/// replays one schedule of one driver
fn eval_main(key: &str) -> i32 {
    let a: Vec<u32> = key.split_whitespace().skip(1).filter_map(|x| u32::from_str_radix(x, 16).ok()).collect();
    let w = World { ms: methods() };
    let (d, c) = match Driver::decode(&a) {
        Some(x) => x,
        None => return 2,
    };
    unsafe {
        rt_init();
        rt_use(rt_table());
    }
    println!("case: {} schedule {:?}", d.show(&w), c);
    // the same scheduling points as in the exploration: places written by the calls of this driver
    isolated(60, || {
        unsafe { rt_record(1, 0) }
        let mut b = String::with_capacity(1 << 14);
        for _ in 0..2 {
            for o in d.pre.iter().chain(d.th.iter().flatten()) {
                w.call(o, &mut b);
            }
        }
    });
    let mut e = Explorer::new(&w);
    match e.run(&d, &c, 2) {
        Err(m) => {
            println!("broken: {}", m);
            1
        }
        Ok(_) => match e.explore(&d, 0, 2, 20000) {
            Some((p, m)) => {
                println!("broken under schedule {:?}: {}", p, m);
                1
            }
            None => {
                println!("held");
                0
            }
        },
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    std::panic::set_hook(Box::new(|_| {}));
    std::process::exit(match arg(1) {
        "explore" => explore_main(arg(2) == "thorough", arg(3)),
        "eval" => eval_main(arg(2)),
        _ => 2,
    })
}
