//! The surroundings of a call as a choice: what the system answers when code asks it for the
//! environment, the time, random bytes, files, identities, processors or directories. The C library's
//! functions are replaced by these; while recording is on, a call notes its kind, and the current
//! world decides the answer. Outside of that they hand on to the C library.
#![allow(invalid_runtime_symbol_definitions)]
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
    static mut environ: *mut *mut c_char;
    fn setlocale(c: c_int, l: *const c_char) -> *mut c_char;
    fn chdir(p: *const c_char) -> c_int;
    fn memfd_create(n: *const c_char, f: u32) -> c_int;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn lseek(fd: c_int, o: i64, w: c_int) -> i64;
}

pub const KINDS: [&str; 7] = ["environment variable", "time", "random bytes", "file", "process or user number", "processors", "directory or host name"];
const CHOICES: [u32; 7] = [9, 8, 4, 3, 4, 2, 2];
/// a world: four bits per kind, 0 for what the system says; bits 28.. choose a surrounding that
/// is there without being asked for
pub const OTHERS: [u32; 4] = [1 << 28, 2 << 28, 3 << 28, 4 << 28];

static ON: AtomicBool = AtomicBool::new(false);
static SEEN: AtomicU32 = AtomicU32::new(0);
static WORLD: AtomicU32 = AtomicU32::new(0);
static TICK: AtomicUsize = AtomicUsize::new(0);

fn choice(kind: u32) -> u32 {
    if !ON.load(SeqCst) {
        return 0;
    }
    SEEN.fetch_or(1 << kind, SeqCst);
    WORLD.load(SeqCst) >> (4 * kind) & 15
}
/// all worlds in which the kinds of call in `seen` are answered in every combination (two kinds at a
/// time when there are more than two)
pub fn worlds(seen: u32) -> Vec<u32> {
    let ks: Vec<u32> = (0..7).filter(|k| seen >> k & 1 == 1).collect();
    let mut v = vec![];
    for (i, a) in ks.iter().enumerate() {
        for x in 1..=CHOICES[*a as usize] {
            v.push(x << (4 * a));
            for b in &ks[i + 1..] {
                for y in 1..=CHOICES[*b as usize] {
                    v.push(x << (4 * a) | y << (4 * b));
                }
            }
        }
    }
    v
}
pub fn show(w: u32) -> String {
    let mut v: Vec<String> = (0..7).filter(|k| w >> (4 * k) & 15 != 0).map(|k| format!("{} answered in way {}", KINDS[k as usize], w >> (4 * k) & 15)).collect();
    match w >> 28 {
        1 => v.push("an empty environment".into()),
        2 => v.push("an environment with LANG, LC_ALL, UNICODE_VERSION and others set".into()),
        3 => v.push("another locale, working directory and errno".into()),
        4 => v.push("a thread with a name and a deep stack".into()),
        _ => {}
    }
    v.join(", ")
}
#[inline(never)]
fn deep(n: usize, f: &mut dyn FnMut()) {
    let a = [n as u8; 4000];
    std::hint::black_box(&a);
    if n == 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    std::hint::black_box(&a);
}
/// runs f in world w, in a thread of its own (so that what the run-time keeps per thread starts anew);
/// returns the kinds of calls it made
pub fn inside(w: u32, mut f: impl FnMut() + Send) -> u32 {
    WORLD.store(w, SeqCst);
    SEEN.store(0, SeqCst);
    unsafe {
        match w >> 28 {
            1 => environ = Box::leak(Box::new([std::ptr::null_mut()])).as_mut_ptr(),
            2 => {
                let v: Vec<*mut c_char> = [c"LANG=tr_TR.UTF-8", c"LC_ALL=tr_TR.UTF-8", c"UNICODE_VERSION=13.0.0", c"SESHAT=1", c"SESHAT_DEBUG=1", c"HOME=/", c"PATH=", c"RUST_LOG=trace", c"DEBUG=1", c"CI=true", c"NO_COLOR=1"].iter().map(|s| s.as_ptr() as *mut c_char).chain([std::ptr::null_mut()]).collect();
                environ = Box::leak(v.into_boxed_slice()).as_mut_ptr();
            }
            3 => {
                if setlocale(6, c"C.UTF-8".as_ptr()).is_null() {
                    setlocale(6, c"POSIX".as_ptr());
                }
                chdir(c"/".as_ptr());
                *__errno_location() = 34;
            }
            _ => {}
        }
    }
    let b = std::thread::Builder::new().stack_size(16 << 20);
    let b = if w >> 28 == 4 { b.name("main-2".into()) } else { b };
    std::thread::scope(|s| {
        let h = b.spawn_scoped(s, move || {
            ON.store(true, SeqCst);
            if w >> 28 == 4 {
                deep(500, &mut f)
            } else {
                f()
            }
            ON.store(false, SeqCst);
        });
        let _ = h.map(|h| h.join());
    });
    SEEN.load(SeqCst)
}

fn real(n: &CStr, cache: &AtomicUsize) -> *mut c_void {
    let p = cache.load(SeqCst);
    if p != 0 {
        return p as *mut c_void;
    }
    let p = unsafe { dlsym(-1isize as *mut c_void, n.as_ptr()) };
    if p.is_null() {
        std::process::abort();
    }
    cache.store(p as usize, SeqCst);
    p
}
macro_rules! hand_on {
    ($name:expr, ($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        static C: AtomicUsize = AtomicUsize::new(0);
        let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(real($name, &C));
        f($($a),*)
    }};
}
unsafe fn fail<T>(e: c_int, r: T) -> T {
    *__errno_location() = e;
    r
}

const ENV: [Option<&CStr>; 10] = [None, None, Some(c""), Some(c"0"), Some(c"1"), Some(c"true"), Some(c"C"), Some(c"tr_TR.UTF-8"), Some(c"13.0.0"), Some(c"off")];
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char {
    match choice(0) {
        0 => hand_on!(c"getenv", (*const c_char) -> *mut c_char, n),
        c => ENV[c as usize].map_or(std::ptr::null_mut(), |s| s.as_ptr() as *mut c_char),
    }
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(n: *const c_char) -> *mut c_char {
    getenv(n)
}

fn clock(c: u32) -> (i64, i64) {
    let t = TICK.fetch_add(1, SeqCst) as i64;
    match c {
        1 => (0, 0),
        2 => (1, 1),
        3 => (0x7FFF_FFFF, 999_999_999),
        4 => (0x8000_0000, 0),
        5 => (1 << 33, 500),
        6 => (1_700_000_000 + t, t % 1_000_000_000),
        7 => (1_700_000_000 + 86_400 * t, 123_456_789),
        _ => (1_700_000_000, (123_456_788 + t) % 1_000_000_000),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(k: c_int, t: *mut [i64; 2]) -> c_int {
    match choice(1) {
        0 => hand_on!(c"clock_gettime", (c_int, *mut [i64; 2]) -> c_int, k, t),
        c => {
            let (s, n) = clock(c);
            *t = [s, n];
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut [i64; 2], z: *mut c_void) -> c_int {
    match choice(1) {
        0 => hand_on!(c"gettimeofday", (*mut [i64; 2], *mut c_void) -> c_int, t, z),
        c => {
            let (s, n) = clock(c);
            *t = [s, n / 1000];
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    match choice(1) {
        0 => hand_on!(c"time", (*mut i64) -> i64, t),
        c => {
            let s = clock(c).0;
            if !t.is_null() {
                *t = s;
            }
            s
        }
    }
}

unsafe fn bytes(c: u32, b: *mut u8, n: usize) {
    for i in 0..n {
        *b.add(i) = match c {
            1 => 0,
            2 => 0xFF,
            3 => TICK.fetch_add(1, SeqCst) as u8,
            _ => 0x5A,
        };
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    match choice(2) {
        0 => hand_on!(c"getrandom", (*mut u8, usize, u32) -> isize, b, n, f),
        c => {
            bytes(c, b, n);
            n as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut u8, n: usize) -> c_int {
    match choice(2) {
        0 => hand_on!(c"getentropy", (*mut u8, usize) -> c_int, b, n),
        c => {
            bytes(c, b, n);
            0
        }
    }
}

unsafe fn some_file(c: u32) -> Result<c_int, c_int> {
    match c {
        1 => Err(2),
        2 => Err(24),
        _ => {
            let fd = memfd_create(c"x".as_ptr(), 1);
            write(fd, c"1\n".as_ptr() as *const c_void, 2);
            lseek(fd, 0, 0);
            Ok(fd)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: u32) -> c_int {
    match choice(3) {
        0 => hand_on!(c"open64", (*const c_char, c_int, u32) -> c_int, p, f, m),
        c => some_file(c).unwrap_or_else(|e| fail(e, -1)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: u32) -> c_int {
    open64(p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int {
    match choice(3) {
        0 => hand_on!(c"openat64", (c_int, *const c_char, c_int, u32) -> c_int, d, p, f, m),
        c => some_file(c).unwrap_or_else(|e| fail(e, -1)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int {
    openat64(d, p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: u32, b: *mut c_void) -> c_int {
    match choice(3) {
        0 => hand_on!(c"statx", (c_int, *const c_char, c_int, u32, *mut c_void) -> c_int, d, p, f, m, b),
        1 => fail(2, -1),
        2 => fail(13, -1),
        _ => hand_on!(c"statx", (c_int, *const c_char, c_int, u32, *mut c_void) -> c_int, d, c"/".as_ptr(), f, m, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut c_void) -> c_int {
    match choice(3) {
        0 => hand_on!(c"stat64", (*const c_char, *mut c_void) -> c_int, p, b),
        1 => fail(2, -1),
        2 => fail(13, -1),
        _ => hand_on!(c"stat64", (*const c_char, *mut c_void) -> c_int, c"/".as_ptr(), b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    match choice(3) {
        0 => hand_on!(c"access", (*const c_char, c_int) -> c_int, p, m),
        1 => fail(2, -1),
        2 => fail(13, -1),
        _ => 0,
    }
}

fn who(c: u32) -> c_int {
    [0, 1, 2, 65535, 4_194_304][c as usize]
}
macro_rules! who {
    ($($f:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f() -> c_int {
            match choice(4) {
                0 => hand_on!(&*std::ffi::CString::new(stringify!($f)).unwrap(), () -> c_int,),
                c => who(c),
            }
        }
    )* };
}
who!(getpid getppid gettid getuid geteuid getgid getegid);

#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    match choice(5) {
        0 => hand_on!(c"sysconf", (c_int) -> c_long, n),
        1 => 1,
        _ => 4096,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: c_int, n: usize, m: *mut u8) -> c_int {
    match choice(5) {
        0 => hand_on!(c"sched_getaffinity", (c_int, usize, *mut u8) -> c_int, p, n, m),
        c => {
            for i in 0..n {
                *m.add(i) = if c == 1 { (i == 0) as u8 } else { 0xFF };
            }
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> c_int {
    match choice(5) {
        0 => hand_on!(c"sched_getcpu", () -> c_int,),
        c => (c as c_int - 1) * 7,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    match choice(6) {
        0 => hand_on!(c"getcwd", (*mut c_char, usize) -> *mut c_char, b, n),
        2 if !b.is_null() && n > 1 => {
            *b = b'/' as c_char;
            *b.add(1) = 0;
            b
        }
        _ => fail(2, std::ptr::null_mut()),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
    match choice(6) {
        0 => hand_on!(c"readlink", (*const c_char, *mut c_char, usize) -> isize, p, b, n),
        2 if n > 0 => {
            *b = b'/' as c_char;
            1
        }
        _ => fail(2, -1),
    }
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(b: *mut c_char, n: usize) -> c_int {
    match choice(6) {
        0 => hand_on!(c"gethostname", (*mut c_char, usize) -> c_int, b, n),
        2 if n > 1 => {
            *b = b'x' as c_char;
            *b.add(1) = 0;
            0
        }
        _ => fail(36, -1),
    }
}

/// every kind of question must be seen when the standard library asks it; returns what is not
pub fn self_test() -> Vec<&'static str> {
    let asks: [(u32, &str, fn()); 6] = [
        (0, "std::env::var", || drop(std::env::var("X_NOT_SET"))),
        (1, "SystemTime and Instant", || {
            std::hint::black_box((std::time::SystemTime::now(), std::time::Instant::now()));
        }),
        (2, "HashMap", || drop(std::collections::HashMap::from([(1, 2)]))),
        (3, "fs::read and metadata", || drop((std::fs::read("/x_not_there"), std::fs::metadata("/x_not_there")))),
        (4, "process::id", || {
            std::hint::black_box(std::process::id());
        }),
        (6, "current_dir", || drop(std::env::current_dir())),
    ];
    let mut bad = vec![];
    for (k, n, f) in asks {
        if inside(0, f) != 1 << k {
            bad.push(n);
        }
    }
    let mut v = None;
    inside(4, || v = std::env::var("X_NOT_SET").ok());
    if v.as_deref() != Some("1") {
        bad.push("answers");
    }
    bad
}
