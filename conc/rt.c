/* Controlled scheduler behind the thread-sanitizer instrumentation of the library (the real
 * sanitizer runtime is not linked). Every instrumented access to memory that threads can share is
 * a scheduling point; only one registered thread runs at a time; futex waits and wakes of the
 * instrumented code go through the scheduler. Compiled without instrumentation. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>

#define MAXT 12
#define MAXPOINTS 600      /* recorded decisions */
#define HORIZON 60000      /* scheduling points of one execution */
#define SPIN 1500          /* points in a row before a switch is forced */

struct point { uint16_t enabled; uint8_t cur, cur_enabled, chosen; };
/* shared with the coordinator */
struct exec {
    uint32_t nprefix, npoints, total, outcome, cut, heap_n, mode_heap, mode_func;
    uint8_t prefix[MAXPOINTS];
    struct point pt[MAXPOINTS];
};
enum { RUNNING = 0, DONE = 1, DEADLOCK = 3, CUT = 4, DIVERGED = 5, RACE = 6 };

static struct { uintptr_t lo, hi; } rng[16];
static int nrng;
static int recording, controlled;
static __thread int tid = -1, window;
static struct exec *X;

/* ---- footprint recording ---- */
#define FP (1 << 20)
struct fp { uintptr_t addr; uint32_t written, stamp; };
/* in memory shared with forked processes */
static struct fp *fps;
static struct { uint64_t accesses, global_accesses, n, overflow; } *fc;
static uint32_t fp_stamp;
static uintptr_t touched[4096];
static uint32_t touched_n;
static int only_dirty;

static int is_global(uintptr_t a) {
    for (int i = 0; i < nrng; i++)
        if (a >= rng[i].lo && a < rng[i].hi) return 1;
    return 0;
}
static struct fp *fp_get(uintptr_t g, int create) {
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 44) & (FP - 1);
    while (fps[h].addr) {
        if (fps[h].addr == g) return &fps[h];
        h = (h + 1) & (FP - 1);
    }
    if (!create) return 0;
    if (fc->n > FP / 2) { fc->overflow = 1; return 0; }
    fc->n++;
    fps[h].addr = g;
    return &fps[h];
}
/* w: 1 write, 2 atomic load, 3 atomic write; whatever is accessed atomically counts as written */
static void footprint(uintptr_t a, int w) {
    fc->accesses++;
    if (!is_global(a)) return;
    fc->global_accesses++;
    struct fp *f = fp_get(a >> 3, !only_dirty);
    if (!f) return;
    if (w) f->written = 1;
    if (only_dirty && f->written && f->stamp != fp_stamp) {
        f->stamp = fp_stamp;
        if (touched_n < 4096) touched[touched_n++] = a >> 3;
    }
}

/* ---- controlled execution ---- */
static struct { sem_t sem; int finished, blocked; const void *addr; int woken; } T[MAXT];
static int nthreads, current, row;
static uint64_t points;
/* heap memory that two threads touch, one of them writing */
#define HS 4096
static struct { uintptr_t g; uint8_t conflict; } *heap;
static struct { uintptr_t g; uint16_t mask, wmask; } seen[1 << 16];

static int enabled_mask(void) {
    int m = 0;
    for (int i = 0; i < nthreads; i++)
        if (!T[i].finished && !T[i].blocked) m |= 1 << i;
    return m;
}
static void stop_exec(int outcome) {
    X->outcome = outcome;
    X->total = points;
    _exit(0);
}
static void wait_turn(int me) {
    while (sem_wait(&T[me].sem) != 0) {}
}
static void switch_to(int to, int me, int wait) {
    row = 0;
    current = to;
    sem_post(&T[to].sem);
    if (wait) wait_turn(me);
}
/* decide who runs; me may be finished or blocked */
static void decide(int me, int forced) {
    int m = enabled_mask();
    if (!m) {
        int all = 1;
        for (int i = 0; i < nthreads; i++) all &= T[i].finished;
        if (all) return;
        /* a wait with a time-out may end now */
        stop_exec(DEADLOCK);
    }
    int me_on = (m >> me) & 1;
    int next = me_on ? me : __builtin_ctz(m);
    if (forced && me_on && (m & ~(1 << me))) {
        int k = me;
        do k = (k + 1) % nthreads; while (!((m >> k) & 1));
        next = k;
    } else if (m & (m - 1)) {
        if (X->npoints < MAXPOINTS) {
            uint32_t k = X->npoints;
            if (k < X->nprefix) {
                next = X->prefix[k];
                if (!((m >> next) & 1)) stop_exec(DIVERGED);
            }
            X->pt[k].enabled = m;
            X->pt[k].cur = me;
            X->pt[k].cur_enabled = me_on;
            X->pt[k].chosen = next;
            X->npoints++;
        } else
            X->cut = 1;
    }
    if (next != me) switch_to(next, me, !T[me].finished);
}
/* a thread that stays on a few places for long is waiting for another one */
static uintptr_t near_[8];
static int near_i;
static void point_at(uintptr_t g, int forced) {
    if (++points > HORIZON) stop_exec(CUT);
    int known = 0;
    for (int i = 0; i < 8; i++) known |= near_[i] == g;
    if (known) row++;
    else { near_[near_i++ & 7] = g; row = 0; }
    if (row > SPIN) forced = 1;
    decide(tid, forced);
}
static int heap_point(uintptr_t a, int w) {
    uintptr_t g = a >> 3;
    if (X->mode_heap == 0) {
        /* gathering: remember who touches what */
        uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 48);
        for (int n = 0; n < 64; n++, h = (h + 1) & 0xFFFF) {
            if (seen[h].g == 0) { seen[h].g = g; }
            if (seen[h].g == g) {
                int me = 1 << tid;
                w &= 1;
                if (((seen[h].mask & ~me) && w) || (seen[h].wmask & ~me)) {
                    for (int i = 0; i < HS; i++) {
                        if (heap[i].g == g) break;
                        if (heap[i].g == 0) { heap[i].g = g; heap[i].conflict = 1; X->heap_n++; break; }
                    }
                }
                seen[h].mask |= me;
                if (w) seen[h].wmask |= me;
                return 0;
            }
        }
        return 0;
    }
    if (X->mode_heap == 1 && X->heap_n) {
        for (int i = 0; i < HS && heap[i].g; i++)
            if (heap[i].g == g) return 1;
    }
    return 0;
}
/* ---- order of accesses to global memory (a data race has no determined answer) ---- */
typedef struct { uint32_t c[MAXT]; } vc;
static vc tvc[MAXT], relf[MAXT], acqp[MAXT];
static struct { uintptr_t a; vc pw, pr, aw, ar; } *shadow; /* per byte: last plain and atomic accesses */
static struct { uintptr_t a; uint64_t val; int known; vc v; } *syn;
#define SHN (1 << 16)
static void vjoin(vc *d, const vc *s) {
    for (int i = 0; i < MAXT; i++)
        if (s->c[i] > d->c[i]) d->c[i] = s->c[i];
}
static int unordered(const vc *past, int me) {
    for (int i = 0; i < MAXT; i++)
        if (i != me && past->c[i] > tvc[me].c[i]) return 1;
    return 0;
}
static void race_check(uintptr_t a, int n, int w) {
    int me = tid, at = w >> 1, wr = w & 1;
    for (int k = 0; k < n; k++) {
        uint32_t h = (uint32_t)(((a + k) * 0x9E3779B97F4A7C15ull) >> 48) & (SHN - 1), j = 0;
        while (shadow[h].a && shadow[h].a != a + k && j++ < 4096) h = (h + 1) & (SHN - 1);
        if (shadow[h].a && shadow[h].a != a + k) return; /* full: give up on this byte */
        shadow[h].a = a + k;
        int bad = unordered(&shadow[h].pw, me);
        if (wr) bad |= unordered(&shadow[h].pr, me);
        if (!at) {
            bad |= unordered(&shadow[h].aw, me);
            if (wr) bad |= unordered(&shadow[h].ar, me);
        }
        if (bad) stop_exec(RACE);
        vc *v = at ? (wr ? &shadow[h].aw : &shadow[h].ar) : (wr ? &shadow[h].pw : &shadow[h].pr);
        v->c[me] = tvc[me].c[me];
    }
}
static int syn_at(uintptr_t a) {
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 48) & (SHN - 1), j = 0;
    while (syn[h].a && syn[h].a != a && j++ < 4096) h = (h + 1) & (SHN - 1);
    if (syn[h].a && syn[h].a != a) stop_exec(CUT);
    syn[h].a = a;
    return h;
}
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define REL(mo) ((mo) >= 3)
static void sync_load(const volatile void *p, uint64_t seen, int mo) {
    if (!window || !controlled || tid < 0) return;
    int h = syn_at((uintptr_t)p), me = tid;
    if (syn[h].known && syn[h].val != seen)
        /* written by an operation that the compiler does not report: assume it orders everything */
        for (int i = 0; i < nthreads; i++) vjoin(&tvc[me], &tvc[i]);
    vjoin(ACQ(mo) ? &tvc[me] : &acqp[me], &syn[h].v);
}
static void sync_store(const volatile void *p, uint64_t val, int mo, int rmw) {
    if (!window || !controlled || tid < 0) return;
    int h = syn_at((uintptr_t)p), me = tid;
    vc *from = REL(mo) ? &tvc[me] : &relf[me];
    if (rmw) vjoin(&syn[h].v, from); else syn[h].v = *from;
    syn[h].val = val;
    syn[h].known = 1;
    if (REL(mo)) tvc[me].c[me]++;
}
static void sync_fence(int mo) {
    if (!window || !controlled || tid < 0) return;
    int me = tid;
    if (ACQ(mo)) vjoin(&tvc[me], &acqp[me]);
    if (REL(mo)) { relf[me] = tvc[me]; tvc[me].c[me]++; }
}
static uintptr_t stack_lo[MAXT], stack_hi[MAXT];
static void access_(uintptr_t a, int n, int w) {
    if (!window) return;
    if (recording) { footprint(a, w); return; }
    if (controlled && tid >= 0) {
        if (is_global(a)) {
            struct fp *f = fp_get(a >> 3, 0);
            if (w && !(f && f->written) && X->mode_heap == 2) {
                /* only written when threads meet: known from now on, in later executions too */
                f = fp_get(a >> 3, 1);
                if (f) f->written = 1;
            }
            if (f && f->written) {
                point_at(a >> 3, 0);
                if (n) race_check(a, n, w);
            }
        } else if (!(a >= stack_lo[tid] && a < stack_hi[tid]) && heap_point(a, w))
            point_at(a >> 3, 0);
    }
}
static inline void acc(const volatile void *p, int n, int w) {
    if (__builtin_expect(window, 0)) access_((uintptr_t)p, n, w);
}
/* The compiler leaves some read-modify-write operations (min, max) without a call; what they do
 * happens after the previous call, so a thread can also lose its turn right after an atomic write. */
static inline void acc_after(const volatile void *p) {
    if (__builtin_expect(window && controlled, 0)) access_((uintptr_t)p, 0, 3);
}
static void acc_range(const void *p, size_t n, int w) {
    if (!window || n == 0) return;
    uintptr_t a = (uintptr_t)p;
    /* one point per range, at its first shared granule; the footprint gets all of them */
    if (recording) {
        for (uintptr_t x = a & ~7ull; x < a + n; x += 8) footprint(x < a ? a : x, w);
        return;
    }
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8) {
        uintptr_t y = x < a ? a : x;
        uint64_t before = points;
        uintptr_t e = x + 8 < a + n ? x + 8 : a + n;
        access_(y, e - y, w);
        if (points != before) {
            /* the rest of the range without further switches */
            for (y = e; controlled && tid >= 0 && y < a + n; y++)
                if (is_global(y)) {
                    struct fp *f = fp_get(y >> 3, 0);
                    if (f && f->written) race_check(y, 1, w);
                }
            return;
        }
    }
}

/* ---- instrumentation entry points ---- */
void __tsan_init(void) {}
/* optionally every function entry is a scheduling point */
void __tsan_func_entry(void *p) {
    if (__builtin_expect(window && controlled, 0) && tid >= 0 && X->mode_func) point_at(points + 16, 0);
}
void __tsan_func_exit(void) {}
void __tsan_vptr_read(void **p) { acc(p, 8, 0); }
void __tsan_vptr_update(void **p, void *v) { acc(p, 8, 1); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(N) \
    void __tsan_read##N(void *p) { acc(p, N, 0); } \
    void __tsan_write##N(void *p) { acc(p, N, 1); } \
    void __tsan_read_write##N(void *p) { acc(p, N, 1); } \
    void __tsan_unaligned_read##N(void *p) { acc(p, N, 0); } \
    void __tsan_unaligned_write##N(void *p) { acc(p, N, 1); } \
    void __tsan_unaligned_read_write##N(void *p) { acc(p, N, 1); } \
    void __tsan_volatile_read##N(void *p) { acc(p, N, 0); } \
    void __tsan_volatile_write##N(void *p) { acc(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc_range(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { acc_range(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc_range(s, n, 0); acc_range(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc_range(s, n, 0); acc_range(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc_range(d, n, 1); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); sync_fence(mo); }
void __tsan_atomic_signal_fence(int mo) {}
#define SC __ATOMIC_SEQ_CST
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { acc(p, N / 8, 2); T r = __atomic_load_n(p, SC); sync_load(p, r, mo); return r; } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { acc(p, N / 8, 3); __atomic_store_n(p, v, SC); sync_store(p, v, mo, 0); acc_after(p); } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { acc(p, N / 8, 3); T r = __atomic_exchange_n(p, v, SC); sync_load(p, r, mo); sync_store(p, v, mo, 1); acc_after(p); return r; } \
    RMW(N, T, add) RMW(N, T, sub) RMW(N, T, and) RMW(N, T, or) RMW(N, T, xor) RMW(N, T, nand) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fm) { \
        acc(p, N / 8, 3); T old = *c; int r = __atomic_compare_exchange_n(p, c, v, 0, SC, SC); \
        if (r) { sync_load(p, old, mo); sync_store(p, v, mo, 1); acc_after(p); } else sync_load(p, *c, fm); \
        return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fm) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fm); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fm) { __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fm); return c; }
#define RMW(N, T, OP) \
    T __tsan_atomic##N##_fetch_##OP(volatile T *p, T v, int mo) { \
        acc(p, N / 8, 3); T r = __atomic_fetch_##OP(p, v, SC); sync_load(p, r, mo); sync_store(p, __atomic_load_n(p, SC), mo, 1); acc_after(p); return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ---- blocking ---- */
static long real_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && controlled && tid >= 0) {
        int op = (int)b & FUTEX_CMD_MASK;
        int me = tid;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile uint32_t *)a != (uint32_t)c) { errno = EAGAIN; return -1; }
            T[me].blocked = 1;
            T[me].addr = (void *)a;
            if (d && !enabled_mask()) { T[me].blocked = 0; errno = ETIMEDOUT; return -1; }
            if (++points > HORIZON) stop_exec(CUT);
            decide(me, 0);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0;
            for (int i = 0; i < nthreads && k < c; i++)
                if (T[i].blocked && T[i].addr == (void *)a) { T[i].blocked = 0; k++; }
            return k;
        }
    }
    return real_syscall(n, a, b, c, d, e, f);
}
int sched_yield(void) {
    if (controlled && tid >= 0) { point_at(1, 1); return 0; }
    return (int)real_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

/* ---- interface for the explorer ---- */
void rt_init(void) {
    char line[512], exe[256];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    FILE *f = fopen("/proc/self/maps", "r");
    uintptr_t end = 0;
    while (f && fgets(line, sizeof line, f)) {
        unsigned long lo, hi;
        char perm[8], path[300] = "";
        sscanf(line, "%lx-%lx %7s %*s %*s %*s %299s", &lo, &hi, perm, path);
        int mine = strcmp(path, exe) == 0;
        if (perm[1] == 'w' && nrng < 16 && (mine || (path[0] == 0 && lo == end))) {
            rng[nrng].lo = lo;
            rng[nrng].hi = hi;
            nrng++;
            end = hi;
        } else if (mine)
            end = hi;
    }
    if (f) fclose(f);
}
/* a footprint table in shared memory */
void *rt_table(void) {
    char *p = mmap(0, FP * sizeof *fps + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? 0 : p;
}
void rt_use(void *t) {
    fc = t;
    fps = (struct fp *)((char *)t + 4096);
}
/* adds the written places of another table to the one in use */
void rt_merge(void *t) {
    struct fp *o = (struct fp *)((char *)t + 4096);
    uint64_t *c = t;
    fc->accesses += c[0];
    fc->global_accesses += c[1];
    fc->overflow |= c[3];
    for (uint32_t i = 0; i < FP; i++)
        if (o[i].addr) {
            struct fp *f = fp_get(o[i].addr, 1);
            if (f) f->written |= o[i].written;
        }
}
void rt_window(int on) { window = on; }
void rt_record(int on, int dirty_only) { recording = on; only_dirty = dirty_only; }
void rt_op_begin(void) { fp_stamp++; touched_n = 0; }
uint32_t rt_touched(uintptr_t *out, uint32_t cap) {
    uint32_t n = touched_n < cap ? touched_n : cap;
    memcpy(out, touched, n * sizeof *out);
    return n;
}
uint32_t rt_dirty(void) {
    uint32_t n = 0;
    for (uint32_t i = 0; i < FP; i++) n += fps[i].addr && fps[i].written;
    return n;
}
void rt_counts(uint64_t *out) { memcpy(out, fc, 32); }
uint32_t rt_ranges(uintptr_t *out) {
    for (int i = 0; i < nrng; i++) { out[2 * i] = rng[i].lo; out[2 * i + 1] = rng[i].hi; }
    return nrng;
}

struct start { int id; void (*f)(int, void *); void *arg; };
static void *trampoline(void *p) {
    struct start *s = p;
    pthread_attr_t at;
    void *lo;
    size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    stack_lo[s->id] = (uintptr_t)lo;
    stack_hi[s->id] = (uintptr_t)lo + sz;
    tid = s->id;
    wait_turn(s->id);
    s->f(s->id, s->arg);
    window = 0;
    T[s->id].finished = 1;
    decide(s->id, 0);
    tid = -1;
    return 0;
}
/* runs n threads under control; the first decision is who starts */
void rt_run(struct exec *x, void *heaptab, int n, void (*f)(int, void *), void *arg) {
    X = x;
    heap = heaptab;
    x->npoints = x->total = x->outcome = x->cut = 0;
    nthreads = n;
    shadow = mmap(0, SHN * sizeof *shadow, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syn = mmap(0, SHN * sizeof *syn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < n; i++) tvc[i].c[i] = 1;
    pthread_t th[MAXT];
    struct start st[MAXT];
    for (int i = 0; i < n; i++) sem_init(&T[i].sem, 0, 0);
    for (int i = 0; i < n; i++) {
        st[i].id = i;
        st[i].f = f;
        st[i].arg = arg;
        pthread_create(&th[i], 0, trampoline, &st[i]);
    }
    controlled = 1;
    int first = 0;
    if (n > 1) {
        if (x->nprefix > 0) first = x->prefix[0];
        x->pt[0].enabled = (1 << n) - 1;
        x->pt[0].cur = 0;
        x->pt[0].cur_enabled = 0;
        x->pt[0].chosen = first;
        x->npoints = 1;
    }
    current = first;
    sem_post(&T[first].sem);
    for (int i = 0; i < n; i++) pthread_join(th[i], 0);
    controlled = 0;
    x->total = points;
    x->outcome = DONE;
}
