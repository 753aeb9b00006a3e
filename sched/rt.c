// Controlled scheduler behind the compiler's thread-sanitizer hooks. The code under test and the Rust
// standard library are compiled with -Zsanitizer=thread, so every load, store, atomic operation and block
// copy calls a __tsan_* function; these are defined here instead of in the sanitizer's own runtime.
//
// Exactly one controlled thread runs at a time. Before every operation on a location that the explorer has
// declared hot (and at thread start and end, futex waits and yields) the running thread asks for a decision;
// the explorer dictates a prefix of the decisions and reads back all of them.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4
#define ARENA (96ul << 20)
#define STACK (16ul << 20)
#define MAXDEC 65536
#define MAXHOT 16384
#define MAXPAGES 65536
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct decision { u8 enabled, running, chosen, kind; }; // kind bit 0: the running thread could have gone on
struct shared {
    // in
    u32 n_threads, n_prefix, max_points, pad;
    u8 prefix[MAXDEC];
    u32 n_hot, n_pages;
    u64 hot[MAXHOT];     // granules with scheduling points
    u64 pages[MAXPAGES]; // private pages that other threads also touch
    // out
    u32 n_dec, status, finished, n_conf;
    struct decision dec[MAXDEC];
    u64 conf[MAXHOT];    // granules with conflicting accesses, see conf_kind
    u8 conf_kind[MAXHOT]; // 1: some access is atomic, 2: data race
    u32 n_foreign, race_found;
    u64 foreign[MAXPAGES];
    u64 accesses, shared_accesses, points;
    u64 race_addr;
    u32 race_t, race_u, race_tw, race_uw;
    u8 result[65536];
};
enum { OK = 0, DEADLOCK = 1, STUCK = 2, OVERFLOW = 3 };

static struct shared *S;
static volatile int active;
static __thread int tid __attribute__((tls_model("initial-exec"))) = -1;
static char *arena_base, *stack_base;
static u64 arena_off[MAXT];

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

// ---- token passing
static _Atomic int turn = -1;
static int n_alive;
static struct { int done; const void *blocked; int timed, woken; u64 spin; u64 last_progress; } T[MAXT];
static u64 progress; // changes to hot locations, wakes and thread ends
static void wait_turn(int me) {
    for (;;) {
        int t = atomic_load(&turn);
        if (t == me) return;
        raw6(SYS_futex, (long)&turn, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, t, 0, 0, 0);
    }
}
static void give(int to) {
    atomic_store(&turn, to);
    raw6(SYS_futex, (long)&turn, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1 << 30, 0, 0, 0);
}
static _Noreturn void stop(int status) {
    S->status = status;
    raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
static int enabled_mask(void) {
    int m = 0;
    for (u32 i = 0; i < S->n_threads; i++)
        if (!T[i].done && !T[i].blocked) m |= 1 << i;
    return m;
}
// Pick the next thread. me < 0: start. can_go_on: the running thread is enabled and need not yield.
static int decide(int me, int can_go_on) {
    int en = enabled_mask();
    if (!en) {
        for (u32 i = 0; i < S->n_threads; i++)
            if (T[i].blocked && T[i].timed) { T[i].blocked = 0; T[i].woken = 0; en |= 1 << i; }
    }
    if (!en) stop(DEADLOCK);
    if (S->points++ > S->max_points) stop(STUCK);
    if ((en & (en - 1)) == 0) return __builtin_ctz(en);
    int def = -1;
    if (can_go_on) def = me;
    else
        for (int k = 1; k <= MAXT; k++) {
            int c = (me + k + MAXT) % MAXT;
            if (c != me && (en >> c & 1)) { def = c; break; }
        }
    if (def < 0) def = me;
    int pick = def;
    u32 p = S->n_dec;
    if (p >= MAXDEC) stop(OVERFLOW);
    if (p < S->n_prefix && (en >> S->prefix[p] & 1)) pick = S->prefix[p];
    S->dec[p] = (struct decision){ (u8)en, (u8)(me & 0xff), (u8)pick, (u8)can_go_on };
    S->n_dec = p + 1;
    return pick;
}
static void point(int forced) {
    int me = tid;
    // a thread that spins without anything changing has to let others run
    if (T[me].last_progress == progress) T[me].spin++;
    else { T[me].spin = 0; T[me].last_progress = progress; }
    int tired = T[me].spin > 40;
    if (tired) T[me].spin = 0;
    int to = decide(me, !forced && !tired);
    if (to != me) { give(to); wait_turn(me); }
}
static void block(void) {
    int me = tid;
    int to = decide(me, 0);
    if (to != me) { give(to); wait_turn(me); }
}

// ---- vector clocks and shadow memory
static u32 vc[MAXT][MAXT], relf[MAXT][MAXT], acqp[MAXT][MAXT];
struct shadow { u64 key; u32 clk[4][MAXT]; u8 mask[4][MAXT]; u8 hot, conf; }; // 0 read 1 write 2 atomic read 3 atomic write
#define SH (1u << 19)
static struct shadow *shadow;
struct sync { u64 key; u32 vc[MAXT]; };
#define SY (1u << 14)
static struct sync *syncs;
static u32 n_shadow;

static struct shadow *sh_of(u64 g) {
    u32 h = (u32)((g * 0x9E3779B97F4A7C15ull) >> 40) & (SH - 1);
    while (shadow[h].key && shadow[h].key != g) h = (h + 1) & (SH - 1);
    if (!shadow[h].key) {
        if (++n_shadow > SH / 2) stop(OVERFLOW);
        shadow[h].key = g;
    }
    return &shadow[h];
}
static struct sync *sy_of(u64 a) {
    u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 40) & (SY - 1);
    u32 n = 0;
    while (syncs[h].key && syncs[h].key != a) {
        h = (h + 1) & (SY - 1);
        if (++n > SY / 2) stop(OVERFLOW);
    }
    syncs[h].key = a;
    return &syncs[h];
}
static u8 page_tab[1 << 16]; // bloom over (page >> 12), exact list in S->pages
static int page_listed(u64 a) {
    u64 p = a >> 12;
    if (!page_tab[p & 0xffff]) return 0;
    for (u32 i = 0; i < S->n_pages; i++)
        if (S->pages[i] == p) return 1;
    return 0;
}
static u64 ro_lo[64], ro_hi[64];
static int n_ro;
static int owner_of(u64 a) {
    if (a >= (u64)arena_base && a < (u64)arena_base + MAXT * ARENA) return (int)((a - (u64)arena_base) / ARENA);
    if (a >= (u64)stack_base && a < (u64)stack_base + MAXT * STACK) return (int)((a - (u64)stack_base) / STACK);
    return -1;
}
static void conflict(struct shadow *s, int kind) {
    if ((s->conf & kind) == kind && s->conf) return;
    s->conf |= kind | 4;
    for (u32 i = 0; i < S->n_conf; i++)
        if (S->conf[i] == s->key) { S->conf_kind[i] = s->conf; return; }
    if (S->n_conf >= MAXHOT) stop(OVERFLOW);
    S->conf[S->n_conf] = s->key;
    S->conf_kind[S->n_conf++] = s->conf;
}
// log one access to at most 8 bytes in one granule
static void log1(u64 g, u8 mask, int write, int atomic) {
    struct shadow *s = sh_of(g);
    int me = tid, k = (write ? 1 : 0) + (atomic ? 2 : 0);
    for (u32 u = 0; u < S->n_threads; u++) {
        if ((int)u == me) continue;
        for (int j = 0; j < 4; j++) {
            if (!(s->mask[j][u] & mask) || !(write || (j & 1))) continue;
            int race = !(atomic && j >= 2) && s->clk[j][u] > vc[me][u];
            conflict(s, ((atomic || j >= 2) ? 1 : 0) | (race ? 2 : 0));
            if (race && !S->race_found) {
                S->race_found = 1;
                S->race_addr = g << 3;
                S->race_t = me; S->race_u = u; S->race_tw = write; S->race_uw = j & 1;
            }
        }
    }
    s->clk[k][me] = vc[me][me];
    s->mask[k][me] |= mask;
}
// Whether an access at this address is of interest at all.
static int relevant(u64 a) {
    int o = owner_of(a);
    if (o == tid) return page_listed(a);
    if (o >= 0) {
        if (!page_listed(a)) {
            u64 p = a >> 12;
            for (u32 i = 0; i < S->n_foreign; i++)
                if (S->foreign[i] == p) return 1;
            if (S->n_foreign < MAXPAGES) S->foreign[S->n_foreign++] = p;
        }
        return 1;
    }
    for (int i = 0; i < n_ro; i++)
        if (a >= ro_lo[i] && a < ro_hi[i]) return 0;
    return 1;
}
static int is_hot(u64 g) {
    struct shadow *s = sh_of(g);
    if (s->hot) return s->hot == 1;
    s->hot = 2;
    for (u32 i = 0; i < S->n_hot; i++)
        if (S->hot[i] == g) { s->hot = 1; break; }
    return s->hot == 1;
}
static inline int on(void) { return active && tid >= 0; }
static void access_(const volatile void *p, u64 n, int write, int atomic) {
    if (!on()) return;
    S->accesses++;
    u64 a = (u64)p;
    if (!n || !relevant(a)) return;
    S->shared_accesses++;
    u64 g0 = a >> 3, g1 = (a + n - 1) >> 3;
    int hot = 0;
    for (u64 g = g0; g <= g1; g++) hot |= is_hot(g);
    if (hot) {
        point(0);
        if (write && !atomic) progress++;
    }
    for (u64 g = g0; g <= g1; g++) {
        u8 m = 0xff;
        if (g == g0) m &= (u8)(0xff << (a & 7));
        if (g == g1) { u64 e = ((a + n - 1) & 7); m &= (u8)(0xff >> (7 - e)); }
        log1(g, m, write, atomic);
    }
}
#define RW(n) \
    void __tsan_read##n(void *a) { access_(a, n, 0, 0); } \
    void __tsan_write##n(void *a) { access_(a, n, 1, 0); } \
    void __tsan_unaligned_read##n(void *a) { access_(a, n, 0, 0); } \
    void __tsan_unaligned_write##n(void *a) { access_(a, n, 1, 0); } \
    void __tsan_read_write##n(void *a) { access_(a, n, 0, 0); access_(a, n, 1, 0); } \
    void __tsan_unaligned_read_write##n(void *a) { access_(a, n, 0, 0); access_(a, n, 1, 0); } \
    void __tsan_volatile_read##n(void *a) { access_(a, n, 0, 0); } \
    void __tsan_volatile_write##n(void *a) { access_(a, n, 1, 0); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access_(a, n, 0, 0); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access_(a, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, u64 n) { access_(a, n, 0, 0); }
void __tsan_write_range(void *a, u64 n) { access_(a, n, 1, 0); }
void __tsan_vptr_read(void **a) { access_(a, 8, 0, 0); }
void __tsan_vptr_update(void **a, void *v) { (void)v; access_(a, 8, 1, 0); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, u64 n) { access_(s, n, 0, 0); access_(d, n, 1, 0); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { access_(s, n, 0, 0); access_(d, n, 1, 0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { access_(d, n, 1, 0); return memset(d, c, n); }

enum { RLX, CON, ACQ, REL, ACQREL, SEQ };
static int is_acq(int mo) { return mo == ACQ || mo == CON || mo == ACQREL || mo == SEQ; }
static int is_rel(int mo) { return mo == REL || mo == ACQREL || mo == SEQ; }
static void join_(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static int tracked(const volatile void *p) { return on() && relevant((u64)p); }
static void after_load(const volatile void *p, int mo) {
    struct sync *s = sy_of((u64)p);
    if (is_acq(mo)) join_(vc[tid], s->vc);
    else join_(acqp[tid], s->vc);
}
static void do_release(const volatile void *p, int mo, int rmw) {
    struct sync *s = sy_of((u64)p);
    const u32 *src = is_rel(mo) ? vc[tid] : relf[tid];
    if (rmw) join_(s->vc, src); // continues the release sequence
    else memcpy(s->vc, src, sizeof s->vc);
    if (is_rel(mo)) vc[tid][tid]++;
}
#define ATOMIC(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { \
        access_(a, sizeof(ty), 0, 1); \
        ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        if (tracked(a)) after_load(a, mo); \
        return v; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { \
        access_(a, sizeof(ty), 1, 1); \
        if (tracked(a)) do_release(a, mo, 0); \
        if (*a != v) progress++; \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { \
        access_(a, sizeof(ty), 1, 1); \
        if (tracked(a)) { after_load(a, mo); do_release(a, mo, 1); } \
        if (*a != v) progress++; \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { \
        access_(a, sizeof(ty), 1, 1); \
        ty e = c; \
        if (*a == c && c != v) progress++; \
        int ok = __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (tracked(a)) { after_load(a, ok ? mo : fmo); if (ok) do_release(a, mo, 1); } \
        return e; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
        ty e = *c, o = __tsan_atomic##bits##_compare_exchange_val(a, e, v, mo, fmo); \
        *c = o; return o == e; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    FETCH(bits, ty, add) FETCH(bits, ty, sub) FETCH(bits, ty, and) FETCH(bits, ty, or) FETCH(bits, ty, xor) FETCH(bits, ty, nand)
#define FETCH(bits, ty, op) \
    ty __tsan_atomic##bits##_fetch_##op(volatile ty *a, ty v, int mo) { \
        access_(a, sizeof(ty), 1, 1); \
        if (tracked(a)) { after_load(a, mo); do_release(a, mo, 1); } \
        progress++; \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    if (is_acq(mo)) join_(vc[tid], acqp[tid]);
    if (is_rel(mo)) { memcpy(relf[tid], vc[tid], sizeof vc[tid]); vc[tid][tid]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---- blocking operations of the standard library
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        int op = (int)a[1] & FUTEX_CMD_MASK;
        const void *addr = (const void *)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(0);
            if (*(volatile int *)addr != (int)a[2]) { errno = EAGAIN; return -1; }
            T[tid].blocked = addr;
            T[tid].timed = a[3] != 0;
            T[tid].woken = 1;
            block();
            if (!T[tid].woken) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long c = 0;
            for (u32 i = 0; i < S->n_threads && c < a[2]; i++)
                if (T[i].blocked == addr) { T[i].blocked = 0; T[i].woken = 1; c++; }
            progress++;
            point(0);
            return c;
        }
    }
    long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) {
    if (on()) { point(1); return 0; }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (on()) { point(1); return 0; }
    return (int)raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (on()) { point(1); return 0; }
    return -(int)raw6(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0);
}

// ---- interface to the explorer
void *rt_shared(void) {
    if (!S) {
        S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        arena_base = mmap(0, MAXT * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        stack_base = mmap(0, MAXT * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = mmap(0, SH * sizeof *shadow, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        syncs = mmap(0, SY * sizeof *syncs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (S == MAP_FAILED || arena_base == MAP_FAILED || stack_base == MAP_FAILED || shadow == MAP_FAILED || syncs == MAP_FAILED) abort();
        FILE *f = fopen("/proc/self/maps", "r");
        char line[512];
        while (f && fgets(line, sizeof line, f)) {
            u64 lo, hi;
            char p[8];
            if (sscanf(line, "%lx-%lx %7s", &lo, &hi, p) == 3 && p[1] != 'w' && n_ro < 64) {
                ro_lo[n_ro] = lo;
                ro_hi[n_ro++] = hi;
            }
        }
        if (f) fclose(f);
    }
    return S;
}
u64 rt_size(int what) {
    switch (what) {
    case 0: return sizeof(struct shared);
    case 1: return MAXDEC;
    case 2: return MAXHOT;
    case 3: return MAXPAGES;
    }
    return 0;
}
struct arg { void (*f)(void *, int); void *env; int id; };
static void *body(void *p) {
    struct arg *a = p;
    tid = a->id;
    wait_turn(a->id);
    a->f(a->env, a->id);
    int me = tid;
    T[me].done = 1;
    progress++;
    tid = -1;
    if (--n_alive == 0) {
        active = 0;
        give(MAXT);
    } else {
        give(decide(me, 0));
    }
    return 0;
}
// Run f(env, i) for i in 0..n_threads under the schedule in S.
void rt_run(void (*f)(void *, int), void *env) {
    pthread_t th[MAXT];
    struct arg as[MAXT];
    n_alive = (int)S->n_threads;
    for (u32 i = 0; i < S->n_pages; i++) page_tab[S->pages[i] & 0xffff] = 1;
    for (u32 i = 0; i < S->n_threads; i++) {
        vc[i][i] = 1;
        as[i] = (struct arg){ f, env, (int)i };
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stack_base + i * STACK, STACK);
        if (pthread_create(&th[i], &at, body, &as[i])) abort();
    }
    active = 1;
    give(decide(-1, 0));
    wait_turn(MAXT);
    for (u32 i = 0; i < S->n_threads; i++) pthread_join(th[i], 0);
    S->finished = 1;
}
// memory of controlled threads comes from an arena of their own
void *rt_alloc(u64 size, u64 align) {
    if (!on()) return 0;
    u64 o = (arena_off[tid] + align - 1) & ~(align - 1);
    if (o + size > ARENA) stop(OVERFLOW);
    arena_off[tid] = o + size;
    return arena_base + tid * ARENA + o;
}
int rt_in_arena(void *p) { return arena_base && (char *)p >= arena_base && (char *)p < arena_base + MAXT * ARENA; }
u8 *rt_result(void) { return S->result; }
