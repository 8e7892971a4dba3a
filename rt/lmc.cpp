// lmc runtime: controlled scheduler, happens-before race detector, allocator with
// use-after-free / out-of-bounds detection, and the exhaustive explorer.
//
// The code under test is compiled with "-fsanitize=thread" (instrumentation only); this file
// supplies the __tsan_* entry points and replaces the pthread/semaphore/futex/clock/malloc
// functions, so that exactly one thread of the program runs at a time and every
// synchronisation operation is a place where the explorer may switch threads.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "lmc.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef uintptr_t uptr;
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define RA ((uptr)__builtin_return_address(0))

// ------------------------------------------------------------------ constants
#ifndef LMC_NT
#define LMC_NT 14
#endif
static const int NT = LMC_NT;                       // threads per execution
static const uptr HEAP = 0x100000000000ull, HSZ = 64ull << 20, HTOT = (NT + 1) * HSZ;
static const uptr STK = 0x180000000000ull, SSZ = 1ull << 20, STOT = NT * SSZ;
static const int MAXDEV = 120;
static const u32 STACKCAP = 1u << 20;
static const u64 CACHECAP = 1ull << 26;
static const u32 SHCAP = 1u << 16;
static const u32 OUTCAP = 1u << 16;
static const u64 MAXSTEPS = 400000;             // atomic/blocking operations per execution
static const u64 CONSEC = 1500;                 // consecutive operations before others get a turn
static const u64 FFLIMIT = 22000;               // lone spinning beyond this is a livelock

static inline u64 mix(u64 a, u64 b) {
    u64 x = a * 0x9E3779B97F4A7C15ull + (b ^ (b >> 29)) * 0xBF58476D1CE4E5B9ull + 0x94D049BB133111EBull;
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29;
    return x;
}
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void futex_wait(volatile int* a, int v) { sys(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(volatile int* a) { sys(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1); }
static double wall() { struct timespec t; sys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ types
struct VC { u32 c[NT]; };
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < NT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum St : u8 { FREE_, RUN, B_MUTEX, B_COND, B_SEM, B_JOIN, B_FUTEX, B_SLEEP, B_ONCE, SPIN, DONE };
static const char* st_name[] = {"-", "runnable", "blocked-on-mutex", "waiting-on-condition", "waiting-on-semaphore", "joining",
                                "waiting-on-futex", "sleeping", "waiting-on-once", "spinning", "finished"};

struct Loc {
    uptr addr; VC rel; u64 vh; u32 ver; u64 mask; bool shared, hassub, atom; u8 lastsz; u8 lastoff;
    int owner; u32 depth; u32 sem; u32 seq; u32 extw;
    u32 aw[8][NT], ar[8][NT];
};
struct Watch { u32 loc; u32 ver; uptr pc; u32 cnt; };
struct Thr {
    volatile int go; St st; uptr waddr; u64 deadline; bool timed, woken, timedout, rt; u32 wseq; int jt;
    VC vc, relf, acqf; u64 h; u64 nops;
    pthread_t handle; void* (*fn)(void*); void* arg; void* ret;
    Watch w[48]; int nw; u64 consec; u64 ff; bool hard; u64 gwr;
    uptr cs[256]; int csd; bool inblk;
    u64 heap; u64* pend;
};
struct Cell { u32 w[NT]; u32 r[NT]; u8 wm[NT]; u8 rm[NT]; u8 at; };

struct Item { u16 ndev; u16 cost; u32 last; u64 chk; u32 idx[MAXDEV]; u8 ch[MAXDEV]; };
struct CacheE { volatile u64 key; volatile u8 rem; };

enum Res : u32 { Q_NONE, Q_OK, Q_PRUNED, Q_VIOL, Q_INTERNAL, Q_DIVERGED };
struct Slot {       // per worker
    volatile u32 res; char kind[64]; char msg[1800]; Item item; uptr cs[40]; int csn; u64 steps; u64 decisions; u32 nthreads;
    uptr raddr; char outcome[4096]; volatile u32 mkscratch;
};
struct Shm {
    volatile int lock; volatile u32 top, active; volatile u32 stop; volatile u32 grew; volatile u32 overflow, diverged, devlimit, internal;
    volatile u64 execs, pruned, states, trans, decisions, maxsteps; volatile u32 maxthreads;
    volatile u32 viol; volatile u32 nout;
    Slot vslot; Slot slot[64];
    char imsg[400];
};
struct ShE { volatile uptr addr; volatile u64 mask; };

// ------------------------------------------------------------------ globals
static Shm* S; static Item* STKM; static CacheE* CACHE; static u64 cache_used_hint;
static ShE* SHN;                                 // discovered sharing (all executions)
static uptr* FROZEN;                             // frozen shared set for this round (hash set)
static volatile u64* OUTS;
struct Samp { u32 n; char s[5][300]; };
static Samp* SAMP;               // a few distinct outcomes, written out
static Cell *hcell, *scell, *dcell; static u8* hstate;
static uptr dstart, dend;
extern "C" char __data_start[], _end[];

static int g_bound; static unsigned g_flags; static bool g_verbose; static int g_wid;
static volatile bool g_on;                       // child: controlled mode
static Thr* T; static int nthr; static int cur;
static __thread int me_tls __attribute__((tls_model("initial-exec"))) = -1;
static Loc* LOCS; static u32* LIDX; static u32 nloc; static const u32 LIDXCAP = 1u << 16, LOCCAP = 1u << 15;
static u64 vnow; static long long roff;      // what CLOCK_REALTIME shows beyond vnow
static const u64 VBASE = 1700000000ull * 1000000000ull;
static u64 nsteps, ndec, gwrites; static int cost_used;
static Item pre; static int prei; static Item mine; static bool exploring;
static pthread_key_t endkey; static u32 wseqc;
static Slot* SL; static lmc::Body g_body; static int trace_fd = 2; static uptr g_watch;
static char scratch_dir[200], exec_dir[240]; static std::map<std::string, long>* params;
static lmc::Scenario* scns;
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static void tr(const char* f, ...) {
    char b[600]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    sys(SYS_write, trace_fd, (long)b, n);
}
#define TRACE(...) do { if (unlikely(g_verbose)) tr(__VA_ARGS__); } while (0)
static inline int self_id() { return me_tls; }
static inline bool on() { return g_on && me_tls >= 0; }

// ------------------------------------------------------------------ end of execution
[[noreturn]] static void finish(Res r) {
    SL->steps = nsteps; SL->decisions = ndec; SL->nthreads = nthr; SL->item = mine; SL->item.cost = cost_used;
    __atomic_store_n(&SL->res, (u32)r, __ATOMIC_SEQ_CST);
    sys(SYS_exit_group, 0);
    for (;;) ;
}
[[noreturn]] static void violation(const char* kind, const char* fmt, ...) {
    g_on = false;
    snprintf(SL->kind, sizeof SL->kind, "%s", kind);
    va_list ap; va_start(ap, fmt); vsnprintf(SL->msg, sizeof SL->msg, fmt, ap); va_end(ap);
    int t = me_tls; SL->csn = 0;
    if (t >= 0 && T) for (int i = T[t].csd - 1; i >= 0 && SL->csn < 40; i--) if (i < 256) SL->cs[SL->csn++] = T[t].cs[i];
    if (g_verbose) tr("[lmc] VIOLATION %s: %s\n", kind, SL->msg);
    finish(Q_VIOL);
}
[[noreturn]] static void internal(const char* fmt, ...) {
    g_on = false;
    va_list ap; va_start(ap, fmt); vsnprintf(SL->msg, sizeof SL->msg, fmt, ap); va_end(ap);
    finish(Q_INTERNAL);
}

// ------------------------------------------------------------------ allocator
static uptr heap_top[NT + 1];
static bool heap_ready;
static void heap_init() {
    if (heap_ready) return;
    void* p = (void*)sys(SYS_mmap, HEAP, HTOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void*)HEAP) { static const char m[] = "lmc: heap map failed\n"; sys(SYS_write, 2, (long)m, sizeof m); sys(SYS_exit_group, 3); }
    p = (void*)sys(SYS_mmap, 0, HTOT / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hstate = (u8*)p;
    for (int i = 0; i <= NT; i++) heap_top[i] = HEAP + i * HSZ + 64;
    heap_ready = true;
}
static void* halloc(size_t n, size_t al = 16) {
    if (unlikely(!heap_ready)) heap_init();
    int t = g_on && me_tls >= 0 ? me_tls : NT;
    if (al < 16) al = 16;
    uptr p = (heap_top[t] + 16 + 16 + al - 1) & ~(al - 1);   // header (16) + red zone (>=16)
    uptr e = p + (n ? n : 1);
    if (e + 32 > HEAP + (t + 1) * HSZ) {
        if (g_on) internal("arena of thread %d exhausted (request %zu)", t, n);
        errno = ENOMEM; return nullptr;
    }
    heap_top[t] = (e + 7) & ~7ull;
    *(u64*)(p - 16) = n; *(u64*)(p - 8) = 0xA110CA7EDull;
    if (g_on || true) {
        u8* h = hstate + ((p - HEAP) >> 3); size_t full = n >> 3;
        memset(h, 8, full); if (n & 7) h[full] = n & 7;
        if (n == 0) h[0] = 0;
    }
    return (void*)p;
}
static void access_range(uptr a, size_t n, bool wr, uptr pc);
static void hfree(void* p, uptr pc) {
    if (!p) return;
    uptr a = (uptr)p;
    if (a - HEAP >= HTOT) return;                    // not ours (ld.so's early allocations)
    if (*(u64*)(a - 8) != 0xA110CA7EDull) {
        if (on()) violation("bad-free", "free of invalid or already freed pointer (pc %#lx)", (long)pc);
        return;
    }
    size_t n = *(u64*)(a - 16);
    if (on()) access_range(a, n, true, pc);
    *(u64*)(a - 8) = 0xDEADDEADull;
    if (g_on) memset(hstate + ((a - HEAP) >> 3), 0xFD, (n + 7) >> 3);
}
extern "C" {
void* malloc(size_t n) { return halloc(n); }
void free(void* p) { hfree(p, RA); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = halloc(n); return p; /* never reused: zero */ }
void* realloc(void* p, size_t n) {
    if (!p) return halloc(n);
    size_t o = *(u64*)((uptr)p - 16); void* q = halloc(n);
    if (q) { __builtin_memcpy(q, p, o < n ? o : n); hfree(p, RA); }
    return q;
}
void* memalign(size_t al, size_t n) { return halloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return halloc(n, al); }
int posix_memalign(void** o, size_t al, size_t n) { *o = halloc(n, al); return *o ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? *(u64*)((uptr)p - 16) : 0; }
}

// ------------------------------------------------------------------ memory access checking
static inline Cell* cell(uptr a) {
    if (likely(a - HEAP < HTOT)) return hcell + ((a - HEAP) >> 3);
    if (a - STK < STOT) return scell + ((a - STK) >> 3);
    if (a - dstart < dend - dstart) return dcell + ((a - dstart) >> 3);
    return nullptr;
}
static Loc* find_loc(uptr a);
[[noreturn]] static void race(uptr a, int t, bool wr, bool owr, bool oat, uptr pc) {
    SL->raddr = a;
    violation("data-race", "data race: thread %d %s (pc %#lx) is unordered with an earlier %s%s by thread %d, address %#lx (%s)",
              me_tls, wr ? "writes" : "reads", (long)pc, oat ? "atomic " : "", owr ? "write" : "read", t, (long)a,
              a - HEAP < HTOT ? "heap" : a - STK < STOT ? "stack" : "static");
}
static inline void access1(uptr a, unsigned sz, bool wr, uptr pc) {     // within one granule
    Cell* c = cell(a);
    if (!c) return;
    int m = me_tls; Thr& th = T[m];
    if (a - HEAP < HTOT) {
        u8 h = hstate[(a - HEAP) >> 3];
        if (unlikely(h != 8)) {
            if (h == 0xFD) { SL->raddr = a; violation("use-after-free", "thread %d %s freed memory (pc %#lx) at %#lx", m, wr ? "writes" : "reads", (long)pc, (long)a); }
            if ((a & 7) + sz > h) { SL->raddr = a; violation("out-of-bounds", "thread %d %s outside any heap block (pc %#lx) at %#lx", m, wr ? "writes" : "reads", (long)pc, (long)a); }
        }
    }
    u32 clk = th.vc.c[m]; u8 msk = (u8)(((1u << sz) - 1) << (a & 7));
    if (unlikely(g_watch) && (g_watch & ~7ull) == (a & ~7ull)) tr("[lmc] T%d %s %#lx size %u pc %#lx\n", m, wr ? "write" : "read", (long)a, sz, (long)pc);
    if (wr) {
        if (c->w[m] == clk && (c->wm[m] & msk) == msk) return;
        for (int t = 0; t < nthr; t++) if (t != m) {
            if ((c->wm[t] & msk) && c->w[t] > th.vc.c[t]) race(a, t, wr, true, false, pc);
            if ((c->rm[t] & msk) && c->r[t] > th.vc.c[t]) race(a, t, wr, false, false, pc);
        }
        if (c->w[m] != clk) { c->w[m] = clk; c->wm[m] = msk; } else c->wm[m] |= msk;
    } else {
        if (c->r[m] == clk && (c->rm[m] & msk) == msk) return;
        for (int t = 0; t < nthr; t++) if (t != m)
            if ((c->wm[t] & msk) && c->w[t] > th.vc.c[t]) race(a, t, wr, true, false, pc);
        if (c->r[m] != clk) { c->r[m] = clk; c->rm[m] = msk; } else c->rm[m] |= msk;
    }
    if (unlikely(c->at)) {
        Loc* L = find_loc(a & ~7ull);
        if (L) for (unsigned b = a & 7; b < (a & 7) + sz; b++) for (int t = 0; t < nthr; t++) if (t != m) {
            if (L->aw[b][t] > th.vc.c[t]) race(a, t, wr, true, true, pc);
            if (wr && L->ar[b][t] > th.vc.c[t]) race(a, t, wr, false, true, pc);
        }
    }
}
static inline void access_any(uptr a, unsigned sz, bool wr, uptr pc) {
    if (unlikely(!on())) return;
    unsigned off = a & 7;
    if (likely(off + sz <= 8)) { access1(a, sz, wr, pc); return; }
    access1(a, 8 - off, wr, pc); a += 8 - off; sz -= 8 - off;
    while (sz > 8) { access1(a, 8, wr, pc); a += 8; sz -= 8; }
    access1(a, sz, wr, pc);
}
static void access_range(uptr a, size_t n, bool wr, uptr pc) {
    if (!on() || !n) return;
    while (n) { unsigned k = 8 - (a & 7); if (k > n) k = n; access1(a, k, wr, pc); a += k; n -= k; }
}

// ------------------------------------------------------------------ locations
static Loc* find_loc(uptr a) {
    u32 i = (u32)(mix(a, 7) & (LIDXCAP - 1));
    while (LIDX[i]) { if (LOCS[LIDX[i]].addr == a) return &LOCS[LIDX[i]]; i = (i + 1) & (LIDXCAP - 1); }
    return nullptr;
}
static bool frozen_shared(uptr a) {
    u32 i = (u32)(mix(a, 9) & (SHCAP - 1));
    while (FROZEN[i]) { if (FROZEN[i] == a) return true; i = (i + 1) & (SHCAP - 1); }
    return false;
}
static void note_sharing(uptr a, u64 mask) {
    u32 i = (u32)(mix(a, 9) & (SHCAP - 1));
    for (u32 n = 0; n < SHCAP; n++) {
        uptr k = __atomic_load_n(&SHN[i].addr, __ATOMIC_ACQUIRE);
        if (k == 0) { uptr z = 0; if (!__atomic_compare_exchange_n(&SHN[i].addr, &z, a, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { if (z != a) { i = (i + 1) & (SHCAP - 1); continue; } } k = a; }
        if (k == a) {
            u64 o = __atomic_load_n(&SHN[i].mask, __ATOMIC_RELAXED);
            if ((o & mask) != mask) {
                o = __atomic_fetch_or(&SHN[i].mask, mask, __ATOMIC_ACQ_REL);
                u64 nw = o | mask;
                if (__builtin_popcountll(nw) >= 2 && __builtin_popcountll(o) < 2) __atomic_store_n(&S->grew, 1, __ATOMIC_SEQ_CST);
            }
            return;
        }
        i = (i + 1) & (SHCAP - 1);
    }
    internal("sharing table full");
}
static Loc* loc(uptr a) {
    a &= ~7ull;
    u32 i = (u32)(mix(a, 7) & (LIDXCAP - 1));
    while (LIDX[i]) { if (LOCS[LIDX[i]].addr == a) return &LOCS[LIDX[i]]; i = (i + 1) & (LIDXCAP - 1); }
    if (nloc + 1 >= LOCCAP) internal("location table full");
    LIDX[i] = ++nloc; Loc* L = &LOCS[nloc];
    L->addr = a; L->owner = -1; L->shared = frozen_shared(a);
    return L;
}

// ------------------------------------------------------------------ scheduler
static void wait_go(int m) { while (!__atomic_load_n(&T[m].go, __ATOMIC_ACQUIRE)) futex_wait(&T[m].go, 0); T[m].go = 0; }
static bool enabled(int t) {
    Thr& x = T[t];
    switch (x.st) {
        case RUN: return true;
        case B_MUTEX: { Loc* L = loc(x.waddr); return L->owner < 0; }
        case B_COND: case B_FUTEX: return x.woken;
        case B_SEM: return loc(x.waddr)->sem > 0 || x.woken;
        case B_JOIN: return T[x.jt].st == DONE;
        case B_ONCE: return x.woken;
        case B_SLEEP: return x.woken;
        case SPIN:
            if (x.gwr) return gwrites != x.gwr;
            for (int i = 0; i < x.nw; i++) if (LOCS[x.w[i].loc].ver != x.w[i].ver) return true;
            return false;
        default: return false;
    }
}
enum OK_ : u8 { O_RUN, O_TIMEOUT, O_SPUR, O_FF, O_VAL };
struct Opt { u8 kind, tid, cost; };

static u64 state_hash(int c) {
    u64 h = mix(vnow + (u64)roff * 3, c + 1);
    for (int t = 0; t < nthr; t++) h += mix(mix(T[t].h, t), (u64)T[t].st * 2 + T[t].woken);
    return h;
}
static bool cache_prune(u64 key, int rem) {
    if (!key) key = 1;
    u64 i = key & (CACHECAP - 1);
    for (int n = 0; n < 4096; n++) {
        u64 k = __atomic_load_n(&CACHE[i].key, __ATOMIC_ACQUIRE);
        if (k == 0) {
            u64 z = 0;
            if (__atomic_compare_exchange_n(&CACHE[i].key, &z, key, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED); k = key; }
            else k = z;
        }
        if (k == key) {
            u8 o = __atomic_load_n(&CACHE[i].rem, __ATOMIC_ACQUIRE);
            for (;;) {
                if (o >= rem + 1) return true;
                if (__atomic_compare_exchange_n(&CACHE[i].rem, &o, (u8)(rem + 1), false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return false;
            }
        }
        i = (i + 1) & (CACHECAP - 1);
    }
    return false;     // table crowded: explore without pruning
}
static void push_item(const Item& it) {
    while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sys(SYS_sched_yield);
    if (S->top < STACKCAP) { STKM[S->top] = it; S->top = S->top + 1; } else S->overflow = 1;
    __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE);
}
// Decide among n>1 options; option 0 is the default (cost 0).
static int decide(const Opt* o, int n, int c) {
    u32 id = (u32)ndec++;
    if (prei < pre.ndev) {
        if (pre.idx[prei] == id) {
            int v = pre.ch[prei];
            if (prei + 1 == pre.ndev) {
                u64 h = state_hash(c);
                if (pre.chk && h != pre.chk) { snprintf(SL->msg, sizeof SL->msg, "replay divergence at decision %u", id); g_on = false; finish(Q_DIVERGED); }
            }
            if (v >= n) { snprintf(SL->msg, sizeof SL->msg, "replay divergence (option) at decision %u", id); g_on = false; finish(Q_DIVERGED); }
            prei++; cost_used += o[v].cost;
            return v;
        }
        return 0;
    }
    if (!exploring) return 0;
    u64 h = state_hash(c);
    __atomic_fetch_add(&S->decisions, 1, __ATOMIC_RELAXED);
    if (cache_prune(h, g_bound - cost_used)) { g_on = false; finish(Q_PRUNED); }
    if (mine.ndev >= MAXDEV) { S->devlimit = 1; return 0; }
    Item it = mine;
    for (int v = n - 1; v >= 1; v--) {
        if (cost_used + o[v].cost > g_bound) continue;
        it.ndev = mine.ndev + 1; it.idx[mine.ndev] = id; it.ch[mine.ndev] = (u8)v; it.chk = h; it.cost = cost_used + o[v].cost;
        push_item(it);
    }
    return 0;
}
static void dump_threads(char* b, size_t n) {
    size_t k = 0; b[0] = 0;
    for (int t = 0; t < nthr && k < n; t++) {
        if (T[t].st == DONE) continue;
        k += snprintf(b + k, n - k, " T%d:%s", t, T[t].hard ? "spinning-forever" : st_name[T[t].st]);
    }
}
static void wake_prep(int t, int kind) {
    Thr& x = T[t];
    if (kind == O_TIMEOUT) {
        if (x.deadline > vnow) vnow = x.deadline;
        x.timedout = true; x.woken = true; x.h = mix(x.h, 0x71AE0 + vnow);
    } else if (kind == O_SPUR) { x.woken = true; x.h = mix(x.h, 0x59112); }
    else if (kind == O_FF) { x.st = RUN; x.ff = 1; x.nw = 0; x.gwr = 0; }
}
static void run_thread(int u) {
    int m = me_tls;
    if (T[u].st == SPIN) { T[u].st = RUN; T[u].nw = 0; T[u].gwr = 0; T[u].consec = 0; }
    cur = u;
    if (u == m) return;
    __atomic_store_n(&T[u].go, 1, __ATOMIC_RELEASE); futex_wake(&T[u].go);
    if (T[m].st == DONE) return;
    wait_go(m);
}
// The calling thread's state is set (RUN with a pending operation, or blocked).  Returns when it is
// scheduled again, which only happens when it is enabled.
static void schedule() {
    int m = me_tls;
    {
        Opt o[NT * 3 + 2]; int n = 0; bool en[NT] = {}; int nen = 0;
        for (int t = 0; t < nthr; t++) { en[t] = enabled(t); nen += en[t]; }
        bool me_en = en[m];
        if (me_en) o[n++] = {O_RUN, (u8)m, 0};
        for (int k = 1; k < nthr; k++) { int t = (m + k) % nthr; if (en[t]) { o[n] = {O_RUN, (u8)t, (u8)(n && (me_en || (g_flags & lmc::F_DELAY)) ? 1 : 0)}; n++; } }
        u64 mind = ~0ull;
        for (int t = 0; t < nthr; t++) if (T[t].timed && !T[t].woken && (T[t].st == B_COND || T[t].st == B_SEM || T[t].st == B_FUTEX || T[t].st == B_SLEEP) && !en[t] && T[t].deadline < mind) mind = T[t].deadline;
        // time passes when nothing can run; a thread whose time has come already competes like any other
        if (mind != ~0ull && (nen == 0 || mind <= vnow || (g_flags & lmc::F_TIMEOUTS)))
            for (int t = 0; t < nthr; t++) if (T[t].timed && !T[t].woken && (T[t].st == B_COND || T[t].st == B_SEM || T[t].st == B_FUTEX || T[t].st == B_SLEEP) && !en[t] && (T[t].deadline == mind || T[t].deadline <= vnow))
                o[n++] = {O_TIMEOUT, (u8)t, (u8)(me_en || (nen && (mind > vnow || (g_flags & lmc::F_DELAY))) ? 1 : 0)};
        if (nen && (g_flags & lmc::F_SPURIOUS))
            for (int t = 0; t < nthr; t++) if (T[t].st == B_COND && !T[t].woken) o[n++] = {O_SPUR, (u8)t, 1};
        // a spinning thread may go on spinning (its time slice has not ended)
        if (T[m].st == SPIN && !me_en && !T[m].hard && nen) o[n++] = {O_FF, (u8)m, 1};
        else if (!nen && n) for (int t = 0; t < nthr; t++) if (T[t].st == SPIN && !T[t].hard) o[n++] = {O_FF, (u8)t, 1};   // ... before time passes
        if (n == 0) {
            for (int k = 0; k < nthr; k++) { int t = (m + k) % nthr; if (T[t].st == SPIN && !T[t].hard) { o[n++] = {O_FF, (u8)t, 0}; break; } }
        }
        if (n == 0) {
            bool all = true, spin = false; int live = 0;
            for (int t = 0; t < nthr; t++) if (T[t].st != DONE) { all = false; live++; if (T[t].st == SPIN) spin = true; }
            if (all) internal("scheduler: nothing left to run");
            char b[400]; dump_threads(b, sizeof b);
            violation(spin ? "livelock" : "deadlock", "%s: no thread can make progress:%s", spin ? "livelock" : "deadlock", b);
        }
        int c = n > 1 ? decide(o, n, m) : 0;
        Opt ch = o[c];
        if (c && g_verbose) TRACE("[lmc] --- decision %lu: option %d of %d -> %s T%d\n", (long)ndec - 1, c, n,
                     ch.kind == O_RUN ? "switch to" : ch.kind == O_TIMEOUT ? "time out" : ch.kind == O_SPUR ? "wake spuriously" : "keep spinning", ch.tid);
        if (ch.kind != O_RUN) wake_prep(ch.tid, ch.kind);
        run_thread(ch.tid);
        return;
    }
}

// ------------------------------------------------------------------ operations
enum OpK : u64 { OP_LOAD = 1, OP_STORE, OP_RMW, OP_CAS, OP_LOCK, OP_UNLOCK, OP_TRYLOCK, OP_WAIT, OP_SIGNAL, OP_SEM, OP_ONCE, OP_CREATE, OP_JOIN, OP_FUTEX, OP_FENCE, OP_END, OP_CHOOSE, OP_CLOCK, OP_FILE };

static void count_step() {
    if (++nsteps > MAXSTEPS) {
        char b[400]; dump_threads(b, sizeof b);
        violation("livelock", "no termination after %lu operations:%s", (long)nsteps, b);
    }
}
static inline void vis_check(Loc* L) {
    u64 b = 1ull << (me_tls < 63 ? me_tls : 63);
    if (!(L->mask & b)) { L->mask |= b; note_sharing(L->addr, L->mask); }
}
static u64 stamp_n, stamp_vh;
static u64 take_stamp() { Thr& x = T[me_tls]; x.h = mix(mix(x.h, 0x57a3), stamp_vh); stamp_vh = x.h; return ++stamp_n; }
static void hash_op(Loc* L, u64 op, bool wr) {
    Thr& x = T[me_tls];
    if (x.pend) { u64* p = x.pend; x.pend = nullptr; *p = take_stamp(); }
    if (L->shared) {
        x.h = mix(mix(x.h, op * 131 + L->addr), L->vh);
        if (wr) L->vh = x.h;
    }
    if (wr) { L->ver++; gwrites++; }
}
// A point just before an operation on L: other threads may run first.
static void point(Loc* L) {
    count_step(); vis_check(L);
    if (L->shared && !T[me_tls].ff) { T[me_tls].st = RUN; schedule(); }   // a fast-forwarded spin is one step
}
static void blocked(St st, uptr a) { Thr& x = T[me_tls]; x.st = st; x.waddr = a; schedule(); x.st = RUN; x.timed = false; }

static void spin_reset() { Thr& x = T[me_tls]; x.nw = 0; }
static void spin_read(Loc* L, uptr pc) {          // called for loads / failed CAS, before the operation
    Thr& x = T[me_tls]; u32 li = (u32)(L - LOCS);
    x.consec++;
    bool suspect = false;
    int i = 0;
    for (; i < x.nw; i++) if (x.w[i].loc == li && x.w[i].pc == pc) break;
    if (i < x.nw) {
        if (x.w[i].ver != L->ver) { x.nw = 0; x.ff = 0; x.hard = false; x.consec = 0; x.w[0] = {li, L->ver, pc, 1}; x.nw = 1; }
        else if (++x.w[i].cnt >= 3) suspect = true;
    } else {
        if (x.ff && x.nw && x.w[0].cnt >= 4) x.ff = 0;   // a new read: the loop has ended
        if (x.nw < 48) x.w[x.nw++] = {li, L->ver, pc, 1};
    }
    if (x.ff) {
        x.ff++;
        if (x.ff > FFLIMIT) { x.hard = true; x.ff = 0; x.gwr = 0; x.st = SPIN; schedule(); x.st = RUN; x.hard = false; x.consec = 0; }
        return;
    }
    if (suspect) { TRACE("[lmc] T%d spins (pc %#lx, loc %#lx)\n", me_tls, (long)pc, (long)L->addr); x.gwr = 0; x.st = SPIN; schedule(); x.st = RUN; if (!x.ff) x.nw = 0; x.consec = 0; }
}
static void spin_write() {                         // own write to a location: progress, unless it goes on for very long
    Thr& x = T[me_tls]; x.nw = 0; x.ff = 0; x.consec++;
    if (x.consec > CONSEC) {
        if (x.consec > FFLIMIT) { { x.hard = true; x.gwr = gwrites; x.st = SPIN; x.ff = 0; schedule(); x.st = RUN; x.hard = false; x.consec = 0; x.gwr = 0; } return; }
        int others = 0; for (int t = 0; t < nthr; t++) if (t != me_tls && enabled(t)) others++;
        if (others) { x.gwr = gwrites ? gwrites : 1; x.st = SPIN; schedule(); x.st = RUN; x.consec = 0; x.gwr = 0; }
    }
}
static void acquire_from(const VC& v) { vjoin(T[me_tls].vc, v); }
static void tick() { T[me_tls].vc.c[me_tls]++; }
static void release_join(Loc* L) { vjoin(L->rel, T[me_tls].vc); tick(); }
static void mark_atomic(Loc* L, uptr a, unsigned sz, bool wr, uptr pc) {
    Cell* c = cell(a); int m = me_tls; Thr& th = T[m];
    if (a - HEAP < HTOT) {
        u8 h = hstate[(a - HEAP) >> 3];
        if (h == 0xFD) { SL->raddr = a; violation("use-after-free", "thread %d uses a synchronisation object in freed memory (pc %#lx) at %#lx", m, (long)pc, (long)a); }
        if (h == 0) { SL->raddr = a; violation("out-of-bounds", "thread %d uses a synchronisation object outside any heap block (pc %#lx) at %#lx", m, (long)pc, (long)a); }
    }
    if (unlikely(g_watch) && (g_watch & ~7ull) == (a & ~7ull)) tr("[lmc] T%d atomic %s %#lx size %u pc %#lx\n", m, wr ? "write" : "read", (long)a, sz, (long)pc);
    if (c) {
        u8 msk = (u8)(((1u << sz) - 1) << (a & 7));
        for (int t = 0; t < nthr; t++) if (t != m) {
            if ((c->wm[t] & msk) && c->w[t] > th.vc.c[t]) race(a, t, wr, true, false, pc);
            if (wr && (c->rm[t] & msk) && c->r[t] > th.vc.c[t]) race(a, t, wr, false, false, pc);
        }
        c->at = 1;
    }
    for (unsigned b = a & 7; b < (a & 7) + sz && b < 8; b++) { if (wr) L->aw[b][m] = th.vc.c[m]; else L->ar[b][m] = th.vc.c[m]; }
}
static void note_sub(Loc* L, unsigned off, unsigned sz) {
    if (!L->atom) { L->atom = true; L->lastsz = sz; L->lastoff = off; }
    else if (L->lastsz != sz || L->lastoff != off) L->hassub = true;
}
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_read_sync(Loc* L, int mo) { if (is_acq(mo)) acquire_from(L->rel); else vjoin(T[me_tls].acqf, L->rel); }
static void at_write_sync(Loc* L, int mo, bool rmw) {
    Thr& x = T[me_tls];
    if (!rmw && !L->hassub) memset(&L->rel, 0, sizeof L->rel);
    if (is_rel(mo)) { vjoin(L->rel, x.vc); tick(); } else vjoin(L->rel, x.relf);
}
static Loc* at_begin(uptr a, unsigned sz, bool wr, bool maybe_read_only, uptr pc) {
    Loc* L = loc(a);
    point(L);
    if (!wr || maybe_read_only) spin_read(L, pc);
    note_sub(L, a & 7, sz);
    return L;
}
template <class V> static V at_load(volatile V* p, int mo, uptr pc) {
    if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    Loc* L = at_begin((uptr)p, sizeof(V), false, false, pc);
    mark_atomic(L, (uptr)p, sizeof(V), false, pc);
    V v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    at_read_sync(L, mo); hash_op(L, OP_LOAD, false);
    TRACE("[lmc] T%d load  %#lx -> %lld%s pc %#lx\n", me_tls, (long)(uptr)p, (long long)v, L->shared ? "" : " (private)", (long)pc);
    return v;
}
template <class V> static void at_store(volatile V* p, V v, int mo, uptr pc) {
    if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    Loc* L = at_begin((uptr)p, sizeof(V), true, false, pc);
    mark_atomic(L, (uptr)p, sizeof(V), true, pc);
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    at_write_sync(L, mo, false); hash_op(L, OP_STORE, true); spin_write();
    TRACE("[lmc] T%d store %#lx <- %lld%s pc %#lx\n", me_tls, (long)(uptr)p, (long long)v, L->shared ? "" : " (private)", (long)pc);
}
template <class V, class F> static V at_rmw(volatile V* p, int mo, uptr pc, F f) {
    if (!on()) { V o = __atomic_load_n(p, __ATOMIC_SEQ_CST); for (;;) { V n = f(o); if (__atomic_compare_exchange_n(p, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return o; } }
    Loc* L = at_begin((uptr)p, sizeof(V), true, false, pc);
    mark_atomic(L, (uptr)p, sizeof(V), true, pc);
    V o = *p, n = f(o); __atomic_store_n(p, n, __ATOMIC_SEQ_CST);
    at_read_sync(L, mo); at_write_sync(L, mo, true); hash_op(L, OP_RMW, true); spin_write();
    TRACE("[lmc] T%d rmw   %#lx %lld -> %lld%s pc %#lx\n", me_tls, (long)(uptr)p, (long long)o, (long long)n, L->shared ? "" : " (private)", (long)pc);
    return o;
}
template <class V> static bool at_cas(volatile V* p, V* e, V n, int mo, int fmo, uptr pc) {
    if (!on()) return __atomic_compare_exchange_n(p, e, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    Loc* L = loc((uptr)p);
    point(L);
    V o = *p;
    bool ok = o == *e;
    if (!ok) { spin_read(L, pc); o = *p; ok = o == *e; }   // a failing CAS is a read
    note_sub(L, (uptr)p & 7, sizeof(V));
    mark_atomic(L, (uptr)p, sizeof(V), ok, pc);
    if (ok) {
        __atomic_store_n(p, n, __ATOMIC_SEQ_CST);
        at_read_sync(L, mo); at_write_sync(L, mo, true); hash_op(L, OP_CAS, true); spin_write();
    } else { *e = o; at_read_sync(L, fmo); hash_op(L, OP_CAS, false); }
    TRACE("[lmc] T%d cas   %#lx %s (%lld)%s pc %#lx\n", me_tls, (long)(uptr)p, ok ? "ok" : "failed", (long long)o, L->shared ? "" : " (private)", (long)pc);
    return ok;
}

extern "C" {
#define ATOMICS(N, V)                                                                                              \
    V __tsan_atomic##N##_load(const volatile V* p, int mo) { return at_load((volatile V*)p, mo, RA); }             \
    void __tsan_atomic##N##_store(volatile V* p, V v, int mo) { at_store(p, v, mo, RA); }                          \
    V __tsan_atomic##N##_exchange(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V) { return v; }); }  \
    V __tsan_atomic##N##_fetch_add(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V o) { return (V)(o + v); }); } \
    V __tsan_atomic##N##_fetch_sub(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V o) { return (V)(o - v); }); } \
    V __tsan_atomic##N##_fetch_and(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V o) { return (V)(o & v); }); } \
    V __tsan_atomic##N##_fetch_or(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V o) { return (V)(o | v); }); }  \
    V __tsan_atomic##N##_fetch_xor(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V o) { return (V)(o ^ v); }); } \
    V __tsan_atomic##N##_fetch_nand(volatile V* p, V v, int mo) { return at_rmw(p, mo, RA, [=](V o) { return (V) ~(o & v); }); } \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile V* p, V* e, V n, int mo, int f) { return at_cas(p, e, n, mo, f, RA); } \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile V* p, V* e, V n, int mo, int f) { return at_cas(p, e, n, mo, f, RA); }   \
    V __tsan_atomic##N##_compare_exchange_val(volatile V* p, V e, V n, int mo, int f) { at_cas(p, &e, n, mo, f, RA); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)

void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    Thr& x = T[me_tls];
    if (is_acq(mo)) vjoin(x.vc, x.acqf);
    if (is_rel(mo)) { x.relf = x.vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {}
void __tsan_func_entry(void* pc) { int m = me_tls; if (m >= 0 && T) { Thr& x = T[m]; if (x.csd >= 0 && x.csd < 256) x.cs[x.csd] = (uptr)pc; x.csd++; } }
void __tsan_func_exit() { int m = me_tls; if (m >= 0 && T && T[m].csd > 0) T[m].csd--; }
#define RW(N)                                                                              \
    void __tsan_read##N(void* p) { access_any((uptr)p, N, false, RA); }                    \
    void __tsan_write##N(void* p) { access_any((uptr)p, N, true, RA); }                    \
    void __tsan_unaligned_read##N(void* p) { access_any((uptr)p, N, false, RA); }          \
    void __tsan_unaligned_write##N(void* p) { access_any((uptr)p, N, true, RA); }          \
    void __tsan_volatile_read##N(void* p) { access_any((uptr)p, N, false, RA); }           \
    void __tsan_volatile_write##N(void* p) { access_any((uptr)p, N, true, RA); }           \
    void __tsan_unaligned_volatile_read##N(void* p) { access_any((uptr)p, N, false, RA); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access_any((uptr)p, N, true, RA); } \
    void __tsan_read##N##_pc(void* p, void* pc) { access_any((uptr)p, N, false, (uptr)pc); } \
    void __tsan_write##N##_pc(void* p, void* pc) { access_any((uptr)p, N, true, (uptr)pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access_range((uptr)p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access_range((uptr)p, n, true, RA); }
// A constructor or destructor of a polymorphic object sets the vptr: only a change is a write.
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access_any((uptr)p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access_any((uptr)p, 8, false, RA); }

// block copies from instrumented and library code
void* memcpy(void* d, const void* s, size_t n) {
    if (on() && n) { access_range((uptr)s, n, false, RA); access_range((uptr)d, n, true, RA); }
    void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if (on() && n) { access_range((uptr)s, n, false, RA); access_range((uptr)d, n, true, RA); }
    char* a = (char*)d; const char* b = (const char*)s;
    if (a <= b || a >= b + n) { void* dd = d; __asm__ volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n)::"memory"); }
    else { while (n--) a[n] = b[n]; __asm__ volatile("" ::: "memory"); }
    return d;
}
void* memset(void* d, int c, size_t n) {
    if (on() && n) access_range((uptr)d, n, true, RA);
    void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
}

// ------------------------------------------------------------------ threads
static void thread_end(void*) {
    if (!g_on || me_tls < 0) return;
    int m = me_tls; Thr& x = T[m];
    TRACE("[lmc] T%d ends\n", m);
    x.h = mix(x.h, OP_END); x.st = DONE; x.csd = 0; gwrites++;
    schedule();
    me_tls = -1;
}
static void* trampoline(void* a) {
    int id = (int)(uptr)a;
    wait_go(id);
    me_tls = id;
    pthread_setspecific(endkey, (void*)1);
    TRACE("[lmc] T%d starts\n", id);
    return T[id].fn(T[id].arg);
}
static int new_thread(void* (*fn)(void*), void* arg, pthread_t* out) {
    if (nthr >= NT) internal("more than %d threads", NT);
    int id = nthr;
    Thr& x = T[id];
    x.fn = fn; x.arg = arg; x.st = RUN; x.go = 0;
    x.h = mix(0x7472, id); x.vc.c[id] = 1;
    if (me_tls >= 0) { vjoin(x.vc, T[me_tls].vc); tick(); T[me_tls].h = mix(T[me_tls].h, OP_CREATE + 100 * id); x.h = mix(x.h, T[me_tls].h); }
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STK + id * SSZ), SSZ);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t h;
    int sv = me_tls; bool o = g_on;
    int r = real_pthread_create(&h, &at, trampoline, (void*)(uptr)id);
    (void)sv; (void)o;
    if (r) internal("pthread_create failed: %d", r);
    x.handle = h; if (out) *out = h;
    nthr++;
    pthread_attr_destroy(&at);
    return id;
}
static int tid_of(pthread_t h) { for (int i = 0; i < nthr; i++) if (pthread_equal(T[i].handle, h)) return i; return -1; }

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!on()) { if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create"); return real_pthread_create(out, at, fn, arg); }
    count_step();
    int id = new_thread(fn, arg, out);
    TRACE("[lmc] T%d creates T%d\n", me_tls, id);
    return 0;
}
int pthread_join(pthread_t h, void** rv) {
    if (!on()) return 0;
    int t = tid_of(h);
    if (t < 0) return ESRCH;
    if (t == me_tls) return EDEADLK;
    count_step();
    TRACE("[lmc] T%d joins T%d\n", me_tls, t);
    Thr& x = T[me_tls];
    if (T[t].st != DONE) { x.jt = t; blocked(B_JOIN, 0); }
    acquire_from(T[t].vc); x.h = mix(x.h, mix(OP_JOIN, T[t].h)); spin_reset();
    if (rv) *rv = nullptr;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }

// ---- mutexes
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int mutex_lock(pthread_mutex_t* m, int mode, u64 dl, uptr pc) {   // mode 0 lock, 1 try, 2 timed
    Loc* L = loc((uptr)m);
    point(L); mark_atomic(L, (uptr)m, 8, true, pc);
    int t = me_tls;
    if (L->owner == t) {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { L->depth++; hash_op(L, OP_LOCK, true); return 0; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (mode == 1) return EBUSY;
    }
    if (L->owner >= 0) {
        if (mode == 1) { hash_op(L, OP_TRYLOCK, false); spin_read(L, pc); return EBUSY; }
        TRACE("[lmc] T%d waits for mutex %#lx held by T%d\n", t, (long)(uptr)m, L->owner);
        (void)dl;
        blocked(B_MUTEX, (uptr)m);
    }
    L->owner = t; L->depth = 1;
    acquire_from(L->rel); hash_op(L, OP_LOCK, true); spin_write();
    TRACE("[lmc] T%d locks mutex %#lx%s\n", t, (long)(uptr)m, L->shared ? "" : " (private)");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) return 0; return mutex_lock(m, 0, 0, RA); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) return 0; return mutex_lock(m, 1, 0, RA); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { if (!on()) return 0; return mutex_lock(m, 2, 0, RA); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { if (!on()) return 0; return mutex_lock(m, 2, 0, RA); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) return 0;
    Loc* L = loc((uptr)m); count_step(); vis_check(L); mark_atomic(L, (uptr)m, 8, true, RA);
    if (L->owner != me_tls) violation("bad-unlock", "thread %d unlocks a mutex it does not hold (%#lx)", me_tls, (long)(uptr)m);
    if (--L->depth == 0) { L->owner = -1; release_join(L); }
    hash_op(L, OP_UNLOCK, true); spin_reset();
    TRACE("[lmc] T%d unlocks mutex %#lx\n", me_tls, (long)(uptr)m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!on()) return 0;
    Loc* L = loc((uptr)m);
    if (L->owner >= 0) violation("bad-destroy", "mutex destroyed while held by thread %d", L->owner);
    return 0;
}

// ---- condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl, uptr pc) {
    Loc* C = loc((uptr)c); Loc* L = loc((uptr)m); Thr& x = T[me_tls]; int t = me_tls;
    count_step(); vis_check(C); vis_check(L); mark_atomic(C, (uptr)c, 8, true, pc);
    if (L->owner != t) violation("bad-wait", "thread %d waits on a condition without holding its mutex", t);
    u32 dep = L->depth;
    L->owner = -1; L->depth = 0; release_join(L);
    hash_op(L, OP_UNLOCK, true); hash_op(C, OP_WAIT, true); spin_reset(); x.consec = 0;
    x.woken = x.timedout = false; x.timed = dl != 0; x.deadline = dl; x.wseq = ++wseqc;
    TRACE("[lmc] T%d waits on condition %#lx%s\n", t, (long)(uptr)c, dl ? " (timed)" : "");
    if (dl && dl <= vnow) { x.timedout = true; x.timed = false; }
    else blocked(B_COND, (uptr)c);
    bool to = x.timedout;
    TRACE("[lmc] T%d woken from condition %#lx%s\n", t, (long)(uptr)c, to ? " (timeout)" : "");
    x.woken = x.timedout = false;
    if (L->owner >= 0) blocked(B_MUTEX, (uptr)m);
    else if (L->shared) { x.st = RUN; schedule(); if (L->owner >= 0) blocked(B_MUTEX, (uptr)m); }
    L->owner = t; L->depth = dep; acquire_from(L->rel); hash_op(L, OP_LOCK, true);
    return to ? ETIMEDOUT : 0;
}
static u64 ts_ns(clockid_t, const struct timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
// an absolute time of clock k; waits for a time of CLOCK_REALTIME follow that clock when it is set
static u64 abs_ns(clockid_t k, const struct timespec* ts) {
    T[me_tls].rt = k == CLOCK_REALTIME; u64 d = ts_ns(k, ts); if (k != CLOCK_REALTIME) return d;
    long long v = (long long)d - roff; return v < 1 ? 1 : (u64)v;
}
static void cond_signal(pthread_cond_t* c, bool all, uptr pc) {
    Loc* C = loc((uptr)c);
    point(C); mark_atomic(C, (uptr)c, 8, true, pc);
    hash_op(C, OP_SIGNAL, true); spin_reset();
    int ws[NT], n = 0;
    for (int t = 0; t < nthr; t++) if (T[t].st == B_COND && T[t].waddr == (uptr)c && !T[t].woken) ws[n++] = t;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (T[ws[j]].wseq < T[ws[i]].wseq) { int k = ws[i]; ws[i] = ws[j]; ws[j] = k; }
    TRACE("[lmc] T%d %s condition %#lx (%d waiting)\n", me_tls, all ? "broadcasts" : "signals", (long)(uptr)c, n);
    if (!n) return;
    if (all) { for (int i = 0; i < n; i++) { T[ws[i]].woken = true; T[ws[i]].h = mix(T[ws[i]].h, T[me_tls].h); } return; }
    int k = 0;
    if (n > 1) { Opt o[NT]; for (int i = 0; i < n; i++) o[i] = {O_VAL, (u8)ws[i], (u8)(i && (g_flags & lmc::F_DELAY) ? 1 : 0)}; k = decide(o, n, me_tls); }
    T[ws[k]].woken = true; T[ws[k]].h = mix(T[ws[k]].h, T[me_tls].h);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return 0; return cond_wait(c, m, 0, RA); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!on()) return ETIMEDOUT; return cond_wait(c, m, abs_ns(CLOCK_REALTIME, ts), RA); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!on()) return ETIMEDOUT; return cond_wait(c, m, abs_ns(k, ts), RA); }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) return 0; cond_signal(c, false, RA); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) return 0; cond_signal(c, true, RA); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __builtin_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ---- semaphores
int sem_init(sem_t* s, int, unsigned v) { *(u32*)s = v; if (on()) { Loc* L = loc((uptr)s); L->sem = v; access_any((uptr)s, 8, true, RA); } return 0; }
int sem_destroy(sem_t*) { return 0; }
static int sem_down(sem_t* s, int mode, u64 dl, uptr pc) {
    Loc* L = loc((uptr)s); Thr& x = T[me_tls];
    point(L); mark_atomic(L, (uptr)s, 8, true, pc);
    if (!L->sem) {
        if (mode == 1) { hash_op(L, OP_SEM, false); spin_read(L, pc); errno = EAGAIN; return -1; }
        x.woken = x.timedout = false; x.timed = mode == 2; x.deadline = dl; x.consec = 0; spin_reset();
        if (mode == 2 && dl <= vnow) { hash_op(L, OP_SEM, false); errno = ETIMEDOUT; return -1; }
        TRACE("[lmc] T%d waits on semaphore %#lx\n", me_tls, (long)(uptr)s);
        blocked(B_SEM, (uptr)s);
        bool to = x.timedout; x.woken = x.timedout = false;
        if (!L->sem) { if (to) { hash_op(L, OP_SEM, false); errno = ETIMEDOUT; return -1; } internal("semaphore wake"); }
    }
    L->sem--; acquire_from(L->rel); hash_op(L, OP_SEM, true); spin_write();
    TRACE("[lmc] T%d takes semaphore %#lx\n", me_tls, (long)(uptr)s);
    return 0;
}
int sem_wait(sem_t* s) { if (!on()) return 0; return sem_down(s, 0, 0, RA); }
int sem_trywait(sem_t* s) { if (!on()) return 0; return sem_down(s, 1, 0, RA); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { if (!on()) return 0; return sem_down(s, 2, abs_ns(CLOCK_REALTIME, ts), RA); }
int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* ts) { if (!on()) return 0; return sem_down(s, 2, abs_ns(k, ts), RA); }
int sem_post(sem_t* s) {
    if (!on()) return 0;
    Loc* L = loc((uptr)s); point(L); mark_atomic(L, (uptr)s, 8, true, RA);
    L->sem++; release_join(L); hash_op(L, OP_SEM + 50, true); spin_reset();
    TRACE("[lmc] T%d posts semaphore %#lx\n", me_tls, (long)(uptr)s);
    return 0;
}
int sem_getvalue(sem_t* s, int* v) { *v = on() ? (int)loc((uptr)s)->sem : 0; return 0; }

// ---- once / static-local guards
static int once_begin(volatile u8* p, u8 done, u8 busy, uptr pc) {     // 1: run the initialiser
    Loc* L = loc((uptr)p); point(L); mark_atomic(L, (uptr)p & ~7ull, 8, true, pc);
    for (;;) {
        u8 v = *p;
        if (v == done) { acquire_from(L->rel); hash_op(L, OP_ONCE, false); return 0; }
        if (v != busy) { *p = busy; hash_op(L, OP_ONCE + 60, true); spin_reset(); return 1; }
        Thr& x = T[me_tls]; x.woken = false; hash_op(L, OP_ONCE + 61, false);
        blocked(B_ONCE, (uptr)p); x.woken = false;
    }
}
static void once_end(volatile u8* p, u8 v) {
    Loc* L = loc((uptr)p);
    *p = v; release_join(L); hash_op(L, OP_ONCE + 62, true);
    for (int t = 0; t < nthr; t++) if (T[t].st == B_ONCE && T[t].waddr == (uptr)p) { T[t].woken = true; T[t].h = mix(T[t].h, T[me_tls].h); }
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    volatile u8* p = (volatile u8*)o;
    if (!on()) { if (*p != 2) { *p = 2; fn(); } return 0; }
    if (once_begin(p, 2, 1, RA)) {
        try { fn(); } catch (...) { once_end(p, 0); throw; }
        once_end(p, 2);
    }
    return 0;
}
// Itanium ABI: byte 0 of the guard is 1 when initialised; byte 1 is ours (in progress).
int __cxa_guard_acquire(u64* g) {
    volatile u8* p = (volatile u8*)g;
    if (!on()) return p[0] != 1;
    Loc* L = loc((uptr)g); point(L); mark_atomic(L, (uptr)g, 8, true, RA);
    for (;;) {
        if (p[0] == 1) { acquire_from(L->rel); hash_op(L, OP_ONCE, false); return 0; }
        if (!p[1]) { p[1] = 1; hash_op(L, OP_ONCE + 60, true); spin_reset(); return 1; }
        Thr& x = T[me_tls]; x.woken = false; hash_op(L, OP_ONCE + 61, false);
        blocked(B_ONCE, (uptr)g); x.woken = false;
    }
}
static void guard_end(u64* g, u8 v) {
    volatile u8* p = (volatile u8*)g;
    p[1] = 0; p[0] = v;
    if (!on()) return;
    Loc* L = loc((uptr)g); release_join(L); hash_op(L, OP_ONCE + 62, true);
    for (int t = 0; t < nthr; t++) if (T[t].st == B_ONCE && T[t].waddr == (uptr)g) { T[t].woken = true; T[t].h = mix(T[t].h, T[me_tls].h); }
}
void __cxa_guard_release(u64* g) { guard_end(g, 1); }
void __cxa_guard_abort(u64* g) { guard_end(g, 0); }

// ---- futex (std::future's wait/notify reaches it through syscall()) and thread ids
static void fut_wake(uptr a, long nmax) {
    Loc* L = loc(a); hash_op(L, OP_FUTEX + 70, true); release_join(L);
    for (int t = 0; t < nthr && nmax > 0; t++) if (T[t].st == B_FUTEX && T[t].waddr == a && !T[t].woken) { T[t].woken = true; T[t].h = mix(T[t].h, T[me_tls].h); nmax--; }
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on()) {
        if (n == SYS_gettid) return 100001 + 53001 * me_tls;
        if (n == SYS_futex) {
            int op = (int)b & 127 & ~FUTEX_PRIVATE_FLAG & ~FUTEX_CLOCK_REALTIME;
            Loc* L = loc((uptr)a); point(L);
            Thr& x = T[me_tls];
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                if (*(volatile int*)a != (int)c) { hash_op(L, OP_FUTEX, false); errno = EAGAIN; return -1; }
                u64 dl = 0; if (d) { const struct timespec* ts = (const struct timespec*)d; dl = op == FUTEX_WAIT ? ts_ns(0, ts) + vnow : abs_ns(b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); if (op == FUTEX_WAIT) x.rt = false; }
                hash_op(L, OP_FUTEX + 71, true); spin_reset(); x.consec = 0;
                x.woken = x.timedout = false; x.timed = dl != 0; x.deadline = dl;
                if (dl && dl <= vnow) { errno = ETIMEDOUT; return -1; }
                TRACE("[lmc] T%d waits on futex %#lx\n", me_tls, a);
                blocked(B_FUTEX, (uptr)a);
                bool to = x.timedout; x.woken = x.timedout = false;
                if (!to) return 0;
                errno = ETIMEDOUT; return -1;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { TRACE("[lmc] T%d wakes futex %#lx\n", me_tls, a); fut_wake((uptr)a, c); return 1; }
            internal("futex op %d", op);
        }
    }
    long r = sys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
pid_t gettid(void) { return on() ? 100001 + 53001 * me_tls : (pid_t)sys(SYS_gettid); }

// ---- time
int clock_gettime(clockid_t k, struct timespec* ts) {
    if (!on() || (k != CLOCK_REALTIME && k != CLOCK_MONOTONIC && k != CLOCK_REALTIME_COARSE && k != CLOCK_MONOTONIC_COARSE && k != CLOCK_BOOTTIME))
        return (int)sys(SYS_clock_gettime, k, (long)ts);
    u64 v = vnow; if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) v += (u64)roff;
    T[me_tls].h = mix(T[me_tls].h, OP_CLOCK + v);
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
    return 0;
}
static int vsleep(u64 until, bool keep = false) {
    Thr& x = T[me_tls]; count_step(); if (!keep) x.rt = false;
    x.woken = x.timedout = false; x.timed = true; x.deadline = until; x.consec = 0; spin_reset();
    TRACE("[lmc] T%d sleeps until +%lu ns\n", me_tls, (long)(until - VBASE));
    blocked(B_SLEEP, 0);
    x.woken = x.timedout = false;
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) { if (!on()) return 0; return vsleep(vnow + ts_ns(0, ts)); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec* ts, struct timespec*) { if (!on()) return 0; if (fl & TIMER_ABSTIME) { u64 d = abs_ns(k, ts); return vsleep(d, true); } return vsleep(vnow + ts_ns(k, ts)); }
int usleep(useconds_t us) { if (!on()) return 0; return vsleep(vnow + us * 1000ull); }
unsigned sleep(unsigned s) { if (!on()) return 0; vsleep(vnow + s * 1000000000ull); return 0; }
int sched_yield(void) { if (on()) { Thr& x = T[me_tls]; count_step(); x.gwr = gwrites ? gwrites : 1; x.st = SPIN; schedule(); x.st = RUN; x.gwr = 0; } return 0; }
}

// ---- stdio: FILE operations are serialised by the stream's own lock
static void file_sync(void* f, uptr pc) {
    if (!on() || !f) return;
    Loc* L = loc((uptr)f); point(L); (void)pc;
    acquire_from(L->rel); release_join(L); hash_op(L, OP_FILE, true); spin_reset();
}
template <class F> static F next_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static decltype(&fwrite) r_fwrite; static decltype(&fflush) r_fflush; static decltype(&fclose) r_fclose; static decltype(&fputs) r_fputs;
static void bind_stdio() {
    r_fwrite = next_sym<decltype(&fwrite)>("fwrite"); r_fflush = next_sym<decltype(&fflush)>("fflush");
    r_fclose = next_sym<decltype(&fclose)>("fclose"); r_fputs = next_sym<decltype(&fputs)>("fputs");
}
extern "C" {
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
    if (!r_fwrite) bind_stdio();
    if (on()) { access_range((uptr)p, s * n, false, RA); file_sync(f, RA); }
    return r_fwrite(p, s, n, f);
}
// names in the file system: one object, its operations in the order of the schedule
static int r_fs_dummy;
static void fs_sync(uptr pc) { file_sync(&r_fs_dummy, pc); }
int mkdir(const char* p, mode_t m) { static auto r = next_sym<int (*)(const char*, mode_t)>("mkdir"); fs_sync(RA); return r(p, m); }
int stat(const char* p, struct stat* b) noexcept { static auto r = next_sym<int (*)(const char*, struct stat*)>("stat"); fs_sync(RA); return r(p, b); }
int open(const char* p, int fl, ...) { static auto r = next_sym<int (*)(const char*, int, ...)>("open"); mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } fs_sync(RA); return r(p, fl, m); }
int rename(const char* a, const char* b) noexcept { static auto r = next_sym<int (*)(const char*, const char*)>("rename"); fs_sync(RA); return r(a, b); }
int remove(const char* a) noexcept { static auto r = next_sym<int (*)(const char*)>("remove"); fs_sync(RA); return r(a); }
int fflush(FILE* f) { if (!r_fflush) bind_stdio(); if (on()) file_sync(f, RA); return r_fflush(f); }
int fclose(FILE* f) { if (!r_fclose) bind_stdio(); if (on()) file_sync(f, RA); return r_fclose(f); }
}

// ------------------------------------------------------------------ public helpers
namespace lmc {
Scenario::Scenario(const char* n, Body b, int qb, int tb, unsigned f) : name(n), body(b), quick_bound(qb), thorough_bound(tb), flags(f), next(nullptr) {
    Scenario** p = &scns; while (*p) p = &(*p)->next; *p = this;
}
int choose(int n, const char* what) {
    if (n <= 1 || !on()) return 0;
    if (n > 255) internal("choose(%d)", n);
    static Opt o[256];
    for (int i = 0; i < n; i++) o[i] = {O_VAL, 0, 0};
    int v = decide(o, n, me_tls);
    T[me_tls].h = mix(T[me_tls].h, OP_CHOOSE * 1000 + v); spin_reset();
    TRACE("[lmc] T%d chooses %d of %d%s%s\n", me_tls, v, n, what ? " for " : "", what ? what : "");
    return v;
}
void fail(const char* fmt, ...) {
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violation("property", "%s", b);
}
void outcome(const std::string& s) {
    snprintf(SL->outcome, sizeof SL->outcome, "%s", s.c_str());
    u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull;
    if (!h) h = 1;
    u32 i = (u32)h & (OUTCAP - 1);
    for (u32 n = 0; n < OUTCAP; n++, i = (i + 1) & (OUTCAP - 1)) {
        u64 k = __atomic_load_n(&OUTS[i], __ATOMIC_ACQUIRE);
        if (k == h) return;
        if (k == 0) { u64 z = 0; if (__atomic_compare_exchange_n(&OUTS[i], &z, h, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { __atomic_fetch_add(&S->nout, 1, __ATOMIC_RELAXED); u32 q = __atomic_fetch_add(&SAMP->n, 1, __ATOMIC_RELAXED); if (q < 5) snprintf(SAMP->s[q], sizeof SAMP->s[q], "%s", s.c_str()); return; } if (z == h) return; }
    }
}
void note(const char* fmt, ...) {
    if (!g_verbose) return;
    char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    tr("[lmc] T%d note: %s\n", me_tls, b);
}
int self() { return me_tls; }
void stamp_call(uint64_t* at) { *at = 0; if (on()) T[me_tls].pend = (u64*)at; }
uint64_t stamp_ret() { if (!on()) return 0; Thr& x = T[me_tls]; if (x.pend) { u64* p = x.pend; x.pend = nullptr; *p = take_stamp(); } return take_stamp(); }
void set_clock(long long ns) {
    count_step(); roff += ns; T[me_tls].h = mix(T[me_tls].h, 0x5E7C + (u64)ns); TRACE("[lmc] T%d sets the clock by %ld ns\n", me_tls, (long)ns);
    for (int t = 0; t < nthr; t++) if (T[t].timed && T[t].rt && !T[t].woken) { long long d = (long long)T[t].deadline - ns; T[t].deadline = d < 1 ? 1 : (u64)d; }
    spin_reset();
}
uint64_t now_ms() { return (vnow - VBASE) / 1000000; }
int live_threads() { int n = 0; for (int t = 0; t < nthr; t++) if (t != me_tls && T[t].st != DONE) n++; return n; }
long param(const char* name, long d) { if (!params) return d; auto i = params->find(name); return i == params->end() ? d : i->second; }
const char* scratch() {
    if (!SL->mkscratch) { snprintf(exec_dir, sizeof exec_dir, "%s/x%d", scratch_dir, g_wid); ::syscall(SYS_mkdir, exec_dir, 0755); SL->mkscratch = 1; }
    return exec_dir;
}
static void (*exit_after)();
static void at_end() { if (exit_after) exit_after(); g_on = false; finish(Q_OK); }
void exit_process(void (*after)()) { exit_after = after; ::exit(0); }
}  // namespace lmc
static void early_atexit() { lmc::at_end(); }

// ------------------------------------------------------------------ one execution
static void* main_thread(void*) {
    g_on = true;
    g_body();
    g_on = false;
    finish(Q_OK);
}
static void on_crash(int sig, siginfo_t* si, void*) {
    if (sig == SIGALRM) violation("hang", "execution did not finish within the wall-clock limit (thread %d running)", cur);
    if (sig == SIGABRT) violation("abort", "the program called abort()/std::terminate() in thread %d", me_tls);
    violation("crash", "signal %d (%s) in thread %d, fault address %#lx", sig, strsignal(sig), me_tls, (long)(uptr)si->si_addr);
}
static void* mapmem(size_t n, bool shared) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("lmc: mmap"); _exit(3); }
    return p;
}
extern "C" char __libc_single_threaded;
static void child_run(const Item& it) {
    static char altstk[65536];
    stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    pre = it; mine = it; prei = 0; cost_used = 0; ndec = 0; nsteps = 0; nthr = 0; vnow = VBASE; roff = 0;
    SL->mkscratch = 0; SL->raddr = 0; SL->outcome[0] = 0; SL->csn = 0; SL->msg[0] = 0; SL->kind[0] = 0;
    alarm(25);
    new_thread(main_thread, nullptr, nullptr);
    __libc_single_threaded = 0;
    atexit(early_atexit);
    cur = 0; T[0].go = 1; futex_wake(&T[0].go);
    for (;;) pause();
}
// without malloc: the worker's heap is what every execution starts from
struct DEnt { u64 ino; int64_t off; unsigned short len; unsigned char type; char name[1]; };
static void rmat(int at, const char* name, int depth) {
    if (sys(SYS_unlinkat, at, (long)name, 0) == 0 || depth > 40) return;
    int d = (int)sys(SYS_openat, at, (long)name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC); if (d < 0) return;
    char b[4096]; long k; bool again = true; int left = 50;
    while (again && left--) { again = false; sys(SYS_lseek, d, 0, 0); while ((k = sys(SYS_getdents64, d, (long)b, sizeof b)) > 0) for (long i = 0; i < k; i += ((DEnt*)(b + i))->len) { DEnt* e = (DEnt*)(b + i); if (strcmp(e->name, ".") && strcmp(e->name, "..")) { rmat(d, e->name, depth + 1); again = true; } } }
    sys(SYS_close, d); sys(SYS_unlinkat, at, (long)name, AT_REMOVEDIR);
}
static void rmtree(const char* p) { rmat(AT_FDCWD, p, 0); }

static u32 exec_one(const Item& it, bool explore) {       // in a worker: fork one execution
    SL->res = Q_NONE;
    exploring = explore;
    pid_t p = fork();
    if (p == 0) {
        if (!g_verbose) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); }
        child_run(it);
        _exit(0);
    }
    if (p < 0) { struct timespec tz = {0, 1000000}; sys(SYS_nanosleep, (long)&tz); snprintf(SL->msg, sizeof SL->msg, "fork failed: %s", strerror(errno)); return Q_INTERNAL; }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (SL->mkscratch) { char d[260]; snprintf(d, sizeof d, "%s/x%d", scratch_dir, g_wid); rmtree(d); }
    u32 r = SL->res;
    if (r == Q_NONE) {
        snprintf(SL->kind, sizeof SL->kind, "exit"); SL->item = it;
        snprintf(SL->msg, sizeof SL->msg, "the program ended the process (%s %d) during the execution", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { snprintf(SL->msg, sizeof SL->msg, "execution killed (out of memory?)"); return Q_INTERNAL; }
        r = Q_VIOL;
    }
    return r;
}
static void pin(int w) {
    cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one);
    if (sched_getaffinity(0, sizeof all, &all)) return;
    int n = CPU_COUNT(&all), k = w % (n ? n : 1);
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) { if (k-- == 0) { CPU_SET(i, &one); break; } }
    sched_setaffinity(0, sizeof one, &one);
}
static void worker(int w, double deadline) {
    g_wid = w; SL = &S->slot[w]; pin(w);
    for (;;) {
        if (S->stop) break;
        if (wall() > deadline) { S->stop = 2; break; }
        if (S->grew) break;
        Item it; bool got = false;
        while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sys(SYS_sched_yield);
        if (S->top > 0) { S->top = S->top - 1; it = STKM[S->top]; got = true; S->active = S->active + 1; }
        bool idle = !got && S->active == 0;
        __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE);
        if (idle) break;
        if (!got) { struct timespec ts = {0, 100000}; sys(SYS_nanosleep, (long)&ts); continue; }
        u32 r = exec_one(it, true);
        __atomic_fetch_add(&S->execs, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&S->trans, SL->steps, __ATOMIC_RELAXED);
        if (SL->steps > S->maxsteps) S->maxsteps = SL->steps;
        if (SL->nthreads > S->maxthreads) S->maxthreads = SL->nthreads;
        if (r == Q_PRUNED) __atomic_fetch_add(&S->pruned, 1, __ATOMIC_RELAXED);
        if (r == Q_DIVERGED) { __atomic_fetch_add(&S->diverged, 1, __ATOMIC_RELAXED); snprintf(S->imsg, sizeof S->imsg, "%.390s", SL->msg); }
        if (r == Q_INTERNAL) { __atomic_fetch_add(&S->internal, 1, __ATOMIC_RELAXED); snprintf(S->imsg, sizeof S->imsg, "%.390s", SL->msg); }
        while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) sys(SYS_sched_yield);
        if (r == Q_VIOL && !S->viol) { S->viol = 1; S->vslot = *SL; S->stop = 1; }
        S->active = S->active - 1;
        __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE);
    }
    _exit(0);
}

// ------------------------------------------------------------------ master
static std::string exe_path;
static std::string symbolize(const uptr* a, int n) {
    if (!n) return "";
    std::string cmd = "addr2line -f -C -p -s -e " + exe_path;
    char b[40]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, " %#lx", (long)a[i] - 1); cmd += b; }
    std::string out; FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
    if (f) { char l[600]; while (fgets(l, sizeof l, f)) { std::string s = l; if (s.size() > 260) s = s.substr(0, 250) + "...\n"; out += "    " + s; } pclose(f); }
    return out;
}
static void jesc(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f); else if (*s == '\n') fputs("\\n", f); else if ((u8)*s < 32 || (u8)*s > 126) fprintf(f, "\\u%04x", (u8)*s); else fputc(*s, f); } fputc('"', f); }
static std::vector<uptr> frozen_list;
static void freeze(const std::vector<uptr>& v) {
    memset(FROZEN, 0, SHCAP * sizeof(uptr));
    for (uptr a : v) { u32 i = (u32)(mix(a, 9) & (SHCAP - 1)); while (FROZEN[i]) i = (i + 1) & (SHCAP - 1); FROZEN[i] = a; }
    frozen_list = v;
}
static std::vector<uptr> collect_shared() { std::vector<uptr> v; for (u32 i = 0; i < SHCAP; i++) if (SHN[i].addr && __builtin_popcountll(SHN[i].mask) >= 2) v.push_back((uptr)SHN[i].addr); return v; }
static void write_replay(const char* path, const char* scn, const Slot& v) {
    FILE* f = fopen(path, "w"); if (!f) return;
    fprintf(f, "scenario %s\nbound %d\nkind %s\nmsg %s\n", scn, g_bound, v.kind, v.msg);
    if (params) for (auto& p : *params) fprintf(f, "set %s %ld\n", p.first.c_str(), p.second);
    for (int i = 0; i < v.item.ndev; i++) fprintf(f, "dev %u %u\n", v.item.idx[i], v.item.ch[i]);
    for (uptr a : frozen_list) fprintf(f, "shared %#lx\n", (long)a);
    if (v.raddr) fprintf(f, "watch %#lx\n", (long)v.raddr);
    fclose(f);
}
static lmc::Scenario* find_scn(const char* n) { for (auto* s = scns; s; s = s->next) if (!strcmp(s->name, n)) return s; return nullptr; }

int main(int argc, char** argv) {
    char ep[500]; ssize_t el = readlink("/proc/self/exe", ep, sizeof ep - 1); ep[el > 0 ? el : 0] = 0; exe_path = ep;
    bool thorough = false; double budget = 60; int workers = 8, forceb = -1; const char *out = nullptr, *only = nullptr, *replay = nullptr, *rdir = "."; bool list = false, quiet = false;
    params = new std::map<std::string, long>;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--tier") thorough = !strcmp(nx(), "thorough"); else if (a == "--time") budget = atof(nx()); else if (a == "--workers") workers = atoi(nx());
        else if (a == "--out") out = nx(); else if (a == "--scenario") only = nx(); else if (a == "--bound") forceb = atoi(nx());
        else if (a == "--replay") replay = nx(); else if (a == "--replay-dir") rdir = nx(); else if (a == "--list") list = true; else if (a == "--quiet") quiet = true;
        else if (a == "--set") { std::string kv = nx(); auto p = kv.find('='); (*params)[kv.substr(0, p)] = atol(kv.c_str() + p + 1); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (list) { for (auto* s = scns; s; s = s->next) printf("%s %d %d\n", s->name, s->quick_bound, s->thorough_bound); return 0; }
    if (workers > 64) workers = 64;
    if (workers < 1) workers = 1;
    heap_init(); bind_stdio();
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    S = (Shm*)mapmem(sizeof(Shm), true); STKM = (Item*)mapmem(sizeof(Item) * (size_t)STACKCAP, true);
    SHN = (ShE*)mapmem(sizeof(ShE) * SHCAP, true); FROZEN = (uptr*)mapmem(sizeof(uptr) * SHCAP, false); OUTS = (u64*)mapmem(8 * OUTCAP, true); SAMP = (Samp*)mapmem(sizeof(Samp), true);
    CACHE = (CacheE*)mapmem(sizeof(CacheE) * CACHECAP, true);
    hcell = (Cell*)mapmem(sizeof(Cell) * (HTOT / 8), false); scell = (Cell*)mapmem(sizeof(Cell) * (STOT / 8), false);
    dstart = (uptr)__data_start & ~7ull; dend = ((uptr)_end + 7) & ~7ull; dcell = (Cell*)mapmem(sizeof(Cell) * ((dend - dstart) / 8), false);
    LOCS = (Loc*)mapmem(sizeof(Loc) * LOCCAP, false); LIDX = (u32*)mapmem(4 * LIDXCAP, false); T = (Thr*)mapmem(sizeof(Thr) * NT, false);
    if ((uptr)sys(SYS_mmap, STK, STOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != STK) { fprintf(stderr, "lmc: stack map failed\n"); return 3; }
    pthread_key_create(&endkey, thread_end);
    snprintf(scratch_dir, sizeof scratch_dir, "%s/lmc.%d", getenv("TMPDIR") && strlen(getenv("TMPDIR")) < 100 ? getenv("TMPDIR") : "/tmp", (int)getpid()); mkdir(scratch_dir, 0755);

    if (replay) {
        FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 3; }
        char l[2500], sn[200] = ""; Item it; memset(&it, 0, sizeof it); std::vector<uptr> sh; uptr watch = 0;
        while (fgets(l, sizeof l, f)) { unsigned a, b; long x; char k[200]; if (sscanf(l, "scenario %199s", sn) == 1) continue; if (sscanf(l, "bound %d", &g_bound) == 1) continue;
            if (sscanf(l, "dev %u %u", &a, &b) == 2 && it.ndev < MAXDEV) { it.idx[it.ndev] = a; it.ch[it.ndev++] = b; } else if (sscanf(l, "shared %lx", &x) == 1) sh.push_back(x); else if (sscanf(l, "watch %lx", &x) == 1) watch = x; else if (sscanf(l, "set %199s %ld", k, &x) == 2) (*params)[k] = x; }
        fclose(f);
        auto* sc = find_scn(sn); if (!sc) { fprintf(stderr, "no scenario %s\n", sn); return 3; }
        freeze(sh); g_body = sc->body; g_flags = sc->flags; SL = &S->slot[0]; g_verbose = !quiet; trace_fd = dup(1); g_watch = quiet ? 0 : watch;
        u32 r = exec_one(it, false); rmtree(scratch_dir);
        printf("replay result: %s %s %s\n", r == Q_VIOL ? "VIOLATION" : r == Q_OK ? "ok" : "other", SL->kind, SL->msg);
        if (r == Q_VIOL) printf("%s", symbolize(SL->cs, SL->csn).c_str());
        return r == Q_VIOL ? 1 : r == Q_OK ? 0 : 3;
    }
    std::vector<lmc::Scenario*> todo; for (auto* s = scns; s; s = s->next) if (!only || !strcmp(only, s->name)) todo.push_back(s);
    if (todo.empty()) { fprintf(stderr, "no such scenario\n"); return 3; }
    FILE* jf = out ? fopen(out, "w") : nullptr;
    if (jf) fprintf(jf, "{\"scenarios\": [");
    double tend = wall() + budget; int nviol = 0; bool first = true;
    for (size_t si = 0; si < todo.size(); si++) {
        auto* sc = todo[si]; double t0 = wall(); double slice = (tend - t0) / (todo.size() - si); if (!thorough) slice = std::min(tend - t0, (tend - t0) / 3 + slice); if (slice < 0.5) slice = 0.5; double dl = t0 + slice;    // the quick budget is only a safety net
        int B = forceb >= 0 ? forceb : thorough ? sc->thorough_bound : sc->quick_bound, done_bound = -1;
        if (B < 0) continue;     // not in this tier
        memset((void*)SHN, 0, sizeof(ShE) * SHCAP); memset((void*)OUTS, 0, 8 * OUTCAP); memset(SAMP, 0, sizeof *SAMP); freeze({});
        g_body = sc->body; g_flags = sc->flags; u64 execs = 0, pruned = 0, trans = 0, states = 0, msteps = 0; u32 mthr = 0, rounds = 0; bool viol = false, unconf = false, incomplete = false; std::string why; std::string perb;
        memset((void*)S, 0, sizeof *S);
        madvise(CACHE, sizeof(CacheE) * CACHECAP, MADV_REMOVE);
        for (int b = 0; b <= B && !viol && !incomplete; ) {
            g_bound = b; rounds++;
            u32 keep_out = S->nout; u64 keep_states = S->states;
            memset((void*)S, 0, sizeof *S); S->nout = keep_out; S->states = keep_states;
            Item root; memset(&root, 0, sizeof root); STKM[0] = root; S->top = 1;
            std::vector<pid_t> ps;
            fflush(stdout); if (jf) fflush(jf);
            for (int w = 0; w < workers; w++) { pid_t p = fork(); if (p == 0) worker(w, dl); if (p > 0) ps.push_back(p); }
            for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
            execs += S->execs; trans += S->trans; pruned += S->pruned; if (S->maxsteps > msteps) msteps = S->maxsteps; if (S->maxthreads > mthr) mthr = S->maxthreads;
            if (S->viol) {
                // confirm: the same execution must fail the same way, twice
                Slot v = S->vslot; Item it = v.item; it.chk = 0; int okc = 0; SL = &S->slot[63]; g_wid = 63;
                for (int k = 0; k < 2; k++) { u32 r = exec_one(it, false); if (r == Q_VIOL && !strcmp(SL->kind, v.kind)) okc++; }
                if (okc == 2) {
                    viol = true; nviol++;
                    char rp[600]; snprintf(rp, sizeof rp, "%s/%s.replay", rdir, sc->name); write_replay(rp, sc->name, v);
                    printf("FAIL scenario=%s kind=%s bound=%d replay=%s\n  %s\n%s", sc->name, v.kind, b, rp, v.msg, symbolize(v.cs, v.csn).c_str());
                    if (jf) { fprintf(jf, "%s\n{\"name\": \"%s\", \"violation\": true, \"kind\": \"%s\", \"replay\": ", first ? "" : ",", sc->name, v.kind); jesc(jf, rp); fprintf(jf, ", \"msg\": "); jesc(jf, v.msg); fprintf(jf, ", \"stack\": "); jesc(jf, symbolize(v.cs, v.csn).c_str()); }
                    break;
                }
                unconf = true; why = std::string("unconfirmed failure: ") + v.kind + " " + v.msg;
                if (!S->grew) { incomplete = true; break; }
            }
            std::vector<uptr> sh = collect_shared();
            if (S->grew || sh.size() != frozen_list.size()) {    // new shared locations: the round is repeated with them as switch points
                freeze(sh); madvise(CACHE, sizeof(CacheE) * CACHECAP, MADV_REMOVE); S->states = 0;
                if (wall() > dl) { incomplete = true; why = "time"; }
                unconf = false; why = incomplete ? why : "";
                continue;
            }
            if (S->stop == 2) { incomplete = true; why = "time"; }
            if (S->overflow) { incomplete = true; why = "work stack full"; }
            if (S->devlimit) { incomplete = true; why = "choice-count limit"; }
            if (S->diverged || S->internal) { incomplete = true; why = std::string("internal: ") + S->imsg; }
            if (!incomplete) { done_bound = b; char pb[100]; snprintf(pb, sizeof pb, "%s%lu", perb.empty() ? "" : ", ", (long)S->execs); perb += pb; b++; }
        }
        states = S->states;
        double dt = wall() - t0;
        if (!viol) {
            printf("%s scenario=%s bound=%d/%d execs=%lu (pruned %lu) states=%lu ops=%lu maxops=%lu threads=%u shared=%zu outcomes=%u rounds=%u %.1fs%s%s\n", incomplete ? "PART" : "PASS", sc->name, done_bound, B, (long)execs, (long)pruned, (long)states, (long)trans, (long)msteps, mthr, frozen_list.size(), S->nout, rounds, dt, why.empty() ? "" : " ", why.c_str());
            if (jf) fprintf(jf, "%s\n{\"name\": \"%s\", \"violation\": false", first ? "" : ",", sc->name);
        }
        if (jf) { fprintf(jf, ", \"bound_completed\": %d, \"bound_target\": %d, \"complete\": %s, \"executions\": %lu, \"pruned\": %lu, \"states\": %lu, \"transitions\": %lu, \"max_ops\": %lu, \"threads\": %u, \"outcomes\": %u, \"shared_locations\": %zu, \"per_bound\": [%s], \"wall_s\": %.2f, \"note\": ", done_bound, B, incomplete || viol ? "false" : "true", (long)execs, (long)pruned, (long)states, (long)trans, (long)msteps, mthr, S->nout, frozen_list.size(), perb.c_str(), dt); jesc(jf, why.c_str()); fprintf(jf, ", \"samples\": ["); for (u32 q = 0; q < SAMP->n && q < 5; q++) { if (q) fputc(',', jf); jesc(jf, SAMP->s[q]); } fprintf(jf, "]}"); first = false; }
        (void)unconf; fflush(stdout);
    }
    if (jf) { fprintf(jf, "\n]}\n"); fclose(jf); }
    rmtree(scratch_dir);
    return nviol ? 1 : 0;
}
