// The simulator runtime. Compiled WITHOUT instrumentation. Uses no std containers, so that no shared inline
// function of the code under test can be replaced by an uninstrumented copy.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "sim_internal.h"
#include <pthread.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <new>
#include <thread>

#define NOINL __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define PC() ((uintptr_t)__builtin_return_address(0))

extern "C" char _end;
extern "C" {
void* __real_malloc(size_t);
void  __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int   __real_posix_memalign(void**, size_t, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace sim {
Shared* g_sh = nullptr;

static const uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 2ull << 30;
static const uintptr_t STACKS = 0x200000000000ull, STACK_SZ = 8ull << 20;
static unsigned char* hshadow = nullptr;  // one byte per 8 bytes: 8 full, 1..7 partial, 0 never, 0xFE red zone, 0xFD freed

struct Th {
    int id;
    enum St { RUN, BLOCKED, DONE } st;
    const void* wait;
    bool wait_timed; bool timed_out; long wait_deadline; long wait_seq; bool woken;
    int quiet, nofault;
    int op; long n; long n0;
    int arm; long points; bool fired;
    int futex;
    bool joined, detached;
    pthread_t real;
    void* (*fn)(void*); void* arg; void* ret;
    uint32_t vc[MAXT];
    long prio;
    long streak;
};
static Th th[MAXT];
static int nth = 0, nlive = 0, cur = -1;
static bool multi = false;
static __thread Th* me = nullptr;
static SchedConf conf;
static Rng srng(1);
static long steps = 0;
static uint64_t H = 0, SIG = 0;
static unsigned concurrency = 4;
static int thread_fail = 0;
static int spurious_pm = 0;
static bool assert_ok = false;
static long vtime = 0; // ns
static long wait_serial = 0;
static pthread_key_t exit_key;
static bool active = false;

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
static int (*real_pthread_join)(pthread_t, void**) = nullptr;
static int (*real_pthread_detach)(pthread_t) = nullptr;

static inline void hmix(uint64_t v) { H = (H ^ v) * 0x9FB21C651E98DF25ull; H ^= H >> 29; }
static inline void smix(uint64_t v) { SIG = (SIG ^ v) * 0x9FB21C651E98DF25ull; SIG ^= SIG >> 29; }
static inline bool stable_addr(uintptr_t a) {
    return a < (uintptr_t)&_end || (a >= ARENA && a < ARENA + ARENA_SZ) || (a >= STACKS && a < STACKS + MAXT * STACK_SZ);
}

// ------------------------------------------------------------------------------------------------ reporting
static bool finishing = false;
static void named_inc(Named* a, int n, const char* name) {
    for (int i = 0; i < n; ++i) {
        if (!a[i].name[0]) { snprintf(a[i].name, sizeof a[i].name, "%s", name); a[i].count = 1; return; }
        if (!strncmp(a[i].name, name, sizeof(a[i].name) - 1)) { a[i].count++; return; }
    }
}
[[noreturn]] static void finish(int status) {
    if (g_sh) {
        g_sh->hash = H; g_sh->sched_sig = SIG; g_sh->steps = steps; g_sh->threads = nth; g_sh->vtime_ns = vtime;
        __sync_synchronize();
        g_sh->status = status;
    }
    _exit(status == ST_OK ? 0 : 10 + status);
}
static void stack_trace() {
    if (!g_sh) return;
    void* b[40]; int n = backtrace(b, 40);
    g_sh->npc = 0;
    for (int i = 0; i < n && g_sh->npc < 24; ++i) {
        uintptr_t p = (uintptr_t)b[i];
        if (p < 0x80000000ull) g_sh->pcs[g_sh->npc++] = p;
    }
}
[[noreturn]] static void vreport(int status, const char* kind, const char* fmt, va_list ap) {
    if (me) me->quiet += 1000;
    if (finishing) _exit(13);
    finishing = true;
    if (g_sh) {
        snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind);
        vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
        for (const char* c = kind; *c; ++c) hmix((unsigned char)*c);
        stack_trace();
    } else { vfprintf(stderr, fmt, ap); fputc('\n', stderr); }
    finish(status);
}
void violation(const char* kind, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vreport(ST_VIOLATION, kind, fmt, ap); }
void harness_error(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vreport(ST_HARNESS, "harness", fmt, ap); }

bool isolated(const std::function<void(std::vector<uint64_t>&)>& f, std::vector<uint64_t>& out) {
    const size_t N = 1 << 20;
    uint64_t* m = (uint64_t*)mmap(0, N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) harness_error("mmap failed");
    pid_t pid = fork();
    if (pid < 0) harness_error("fork failed");
    if (pid == 0) {
        g_sh = nullptr; finishing = true; // anything wrong in here is found again by the run itself
        std::vector<uint64_t> v; f(v);
        if (v.size() > N / 8 - 2) _exit(15);
        memcpy(m + 2, v.data(), v.size() * 8); m[0] = v.size(); m[1] = 0x600df00d;
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    out.clear(); bool ok = m[1] == 0x600df00d; if (ok) out.assign(m + 2, m + 2 + m[0]);
    munmap(m, N);
    return ok;
}

// ------------------------------------------------------------------------------------------------ token passing
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void record(Th* s, int to, int forced) {
    if (!g_sh) return;
    if (g_sh->ndec < MAXDEC) { Dec& d = g_sh->dec[g_sh->ndec++]; d.tid = s->id; d.op = s->op; d.n = s->n; d.to = to; d.forced = forced; }
    else g_sh->dec_overflow = 1;
}
static void switch_to(Th* s, int to) {
    if (g_sh) g_sh->switches++;
    hmix(0x5157 + ((uint64_t)s->id << 16) + ((uint64_t)to << 24)); smix(0x5157 + ((uint64_t)s->id << 16) + ((uint64_t)to << 24));
    if (me == s) s->streak = 0;
    cur = to;
    fwake(&th[to].futex);
    if (s->st != Th::DONE) fwait(&s->futex);
}
// fixed decisions: open addressing
struct PreKey { int tid, op; long n; int to; bool used; };
static PreKey* pretab = nullptr; static long premask = 0;
static void pre_init() {
    long cap = 16; while (cap < conf.npre * 3) cap <<= 1;
    pretab = (PreKey*)mmap(0, cap * sizeof(PreKey), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    premask = cap - 1;
    for (long i = 0; i < conf.npre; ++i) {
        uint64_t h = mix(mix(conf.pre_tid[i], conf.pre_op[i]), conf.pre_n[i]) & premask;
        while (pretab[h].used) h = (h + 1) & premask;
        pretab[h] = PreKey{conf.pre_tid[i], conf.pre_op[i], conf.pre_n[i], conf.pre_to[i], true};
    }
}
static int pre_find(Th* s) {
    if (!conf.npre) return -1;
    uint64_t h = mix(mix(s->id, s->op), s->n) & premask;
    while (pretab[h].used) {
        PreKey& k = pretab[h];
        if (k.tid == s->id && k.op == s->op && k.n == s->n) return k.to;
        h = (h + 1) & premask;
    }
    return -1;
}
static int runnable(int* out, int except) {
    int c = 0;
    for (int i = 0; i < nth; ++i) if (i != except && th[i].st == Th::RUN) out[c++] = i;
    return c;
}
static long pct_changes[16]; static int pct_n = 0, pct_i = 0; static bool prio_dirty = false; static long pct_low = -1;
static int best_prio(int* r, int c) { int b = r[0]; for (int i = 1; i < c; ++i) if (th[r[i]].prio > th[b].prio) b = r[i]; return b; }
static void sched_init() {
    srng = Rng(mix(conf.seed, 0x5c4ed));
    pct_n = pct_i = 0; pct_low = -1;
    if (conf.strat == 2) {
        pct_n = (int)(conf.p1 < 0 ? 0 : conf.p1 > 16 ? 16 : conf.p1);
        for (int i = 0; i < pct_n; ++i) pct_changes[i] = 1 + srng.below(conf.p2 > 0 ? conf.p2 : 1000);
        for (int i = 0; i < pct_n; ++i) for (int j = i + 1; j < pct_n; ++j) if (pct_changes[j] < pct_changes[i]) { long t = pct_changes[i]; pct_changes[i] = pct_changes[j]; pct_changes[j] = t; }
    }
    if (conf.fixed) pre_init();
}
enum Kind { K_ACCESS = 0, K_SHARED = 1, K_SYNC = 2, K_USER = 3 };
static long mpoints = 0; // points passed while more than one thread was live
static int decide(Th* s, int kind, uintptr_t pc) {
    if (conf.fixed) {
        int t = pre_find(s);
        if (t >= 0 && t < nth && th[t].st == Th::RUN) return t;
        if (++s->streak > 300000) { int r[MAXT]; int c = runnable(r, s->id); if (c) { for (int i = 0; i < c; ++i) if (r[i] > s->id) return r[i]; return r[0]; } }
        return -1;
    }
    int r[MAXT]; int c = -1;
    ++mpoints;
    if (++s->streak > 60000) { c = runnable(r, s->id); if (c) return r[srng.below(c)]; }
    switch (conf.strat) {
        case 0: return -1;
        case 1: if (srng.below(conf.p1 > 0 ? conf.p1 : 20) != 0) return -1; break;
        case 2: {
            bool ch = false;
            while (pct_i < pct_n && mpoints >= pct_changes[pct_i]) { s->prio = pct_low--; ++pct_i; ch = true; }
            if (!ch && !prio_dirty) return -1;
            prio_dirty = false;
            c = runnable(r, -1);
            int b = best_prio(r, c);
            return b == s->id ? -1 : b;
        }
        case 3: if (kind < K_SYNC || srng.below(conf.p1 > 0 ? conf.p1 : 2) != 0) return -1; break;
        case 4: if (kind == K_ACCESS) return -1; if (srng.below(conf.p1 > 0 ? conf.p1 : 3) != 0) return -1; break;
        case 5: if (kind >= K_SYNC ? srng.below(3) != 0 : (mix(pc, conf.seed) % (uint64_t)(conf.p1 > 0 ? conf.p1 : 50) != 0 || srng.below(conf.p2 > 0 ? conf.p2 : 2) != 0)) return -1; break;
        default: return -1;
    }
    if (c < 0) c = runnable(r, s->id);
    if (c <= 0) return -1;
    return r[srng.below(c)];
}
static inline void count_step(Th* s) {
    s->n++;
    if (UNLIKELY(++steps > conf.step_cap)) {
        violation("no-progress", "the run did not finish within %ld steps (task %d, operation %d)", conf.step_cap, s->id, s->op);
    }
}
static void point(Th* s, int kind, uintptr_t pc) { // only with more than one live thread
    if (nlive < 2) return;
    int to = decide(s, kind, pc);
    if (to >= 0 && to != s->id && th[to].st == Th::RUN) {
        if (g_sh) g_sh->preempts++;
        record(s, to, 0);
        s->quiet++;
        switch_to(s, to);
        s->quiet--;
    }
}
static void pick_forced(Th* s) { // s is BLOCKED or DONE: give the token to somebody
    for (;;) {
        int r[MAXT]; int c = runnable(r, s->id);
        if (s->st == Th::RUN) { return; }
        if (c == 0) {
            // nobody can run: advance time to the earliest deadline
            int best = -1;
            for (int i = 0; i < nth; ++i) if (th[i].st == Th::BLOCKED && th[i].wait_timed && (best < 0 || th[i].wait_deadline < th[best].wait_deadline)) best = i;
            if (best < 0) {
                char buf[512]; int off = 0; buf[0] = 0;
                for (int i = 0; i < nth; ++i) if (th[i].st == Th::BLOCKED) off += snprintf(buf + off, sizeof buf - off, " task %d waits (operation %d);", i, th[i].op);
                violation("deadlock", "no task can run:%s", buf);
            }
            if (th[best].wait_deadline > vtime) vtime = th[best].wait_deadline;
            th[best].timed_out = true; th[best].st = Th::RUN; th[best].woken = true;
            if (best == s->id) return;
            continue;
        }
        int def = r[0];
        for (int i = 0; i < c; ++i) if (r[i] > s->id) { def = r[i]; break; }
        int to = def;
        if (conf.fixed) { int t = pre_find(s); if (t >= 0 && t < nth && t != s->id && th[t].st == Th::RUN) to = t; }
        else if (conf.strat == 2) to = best_prio(r, c);
        else if (conf.strat != 0) to = r[srng.below(c)];
        if (to != def) record(s, to, 1);
        switch_to(s, to);
        return;
    }
}
static void block_on(Th* s, const void* a) {
    s->st = Th::BLOCKED; s->wait = a; s->woken = false; s->wait_seq = ++wait_serial;
    s->n++;
    s->quiet++;
    pick_forced(s);
    s->quiet--;
    s->wait = nullptr;
}
static void wake(const void* a, bool all) {
    Th* best = nullptr;
    for (int i = 0; i < nth; ++i) if (th[i].st == Th::BLOCKED && th[i].wait == a && !th[i].woken) {
        if (all) { th[i].st = Th::RUN; th[i].woken = true; prio_dirty = true; }
        else if (!best || th[i].wait_seq < best->wait_seq) best = &th[i];
    }
    if (!all && best) {
        // which waiter is woken is the scheduler's choice
        if (!conf.fixed && conf.strat == 1) {
            int cnt = 0; for (int i = 0; i < nth; ++i) if (th[i].st == Th::BLOCKED && th[i].wait == a && !th[i].woken) cnt++;
            (void)cnt;
        }
        best->st = Th::RUN; best->woken = true; prio_dirty = true;
    }
}

// ------------------------------------------------------------------------------------------------ vector clocks
struct Sync { uintptr_t addr; int owner; int count; int readers; int wowner; uint32_t vc[MAXT]; bool has; };
enum { NSYNC = 1 << 15 };
static Sync* synctab = nullptr;
static Sync* sync_of(const void* a) {
    uintptr_t x = (uintptr_t)a;
    uint64_t h = mix(x, 77) & (NSYNC - 1);
    for (long i = 0; i < NSYNC; ++i) {
        Sync& y = synctab[h];
        if (y.addr == x) return &y;
        if (!y.addr) { y.addr = x; y.owner = -1; y.wowner = -1; return &y; }
        h = (h + 1) & (NSYNC - 1);
    }
    harness_error("too many synchronisation objects");
}
static inline void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < nth; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_acquire(Th* s, Sync* y) { if (y->has) vc_join(s->vc, y->vc); }
static void hb_release(Th* s, Sync* y) { vc_join(y->vc, s->vc); y->has = true; s->vc[s->id]++; }
static inline void sync_event(Th* s, int what, const void* a) {
    if (g_sh) g_sh->syncs++;
    uintptr_t x = (uintptr_t)a;
    uint64_t v = 0x7000 + what + ((uint64_t)s->id << 20) + (stable_addr(x) ? x << 28 : 0);
    hmix(v); smix(v);
}

// ------------------------------------------------------------------------------------------------ race shadow
struct Acc { uint32_t clk; uint8_t tid, mask, flags, pad; uint32_t pc; };
enum { NACC = 6, FL_W = 1, FL_ATOMIC = 2 };
struct Cell { uint64_t key; Acc e[NACC]; };
enum { NCELL = 1 << 20 };
static Cell* cells = nullptr; static uint64_t epoch = 1; static long ncell_used = 0;
static Cell* cell_of(uintptr_t g) {
    uint64_t key = g | (epoch << 46);
    uint64_t h = (g * 0x9E3779B97F4A7C15ull) >> 44;
    for (;;) {
        Cell& c = cells[h];
        if (c.key == key) return &c;
        if ((c.key >> 46) != epoch) {
            if (++ncell_used > NCELL / 10 * 9) return nullptr;
            __real_memset(&c, 0, sizeof c); c.key = key; return &c;
        }
        h = (h + 1) & (NCELL - 1);
    }
}
NOINL static void race_report(Th* s, uintptr_t a, size_t n, int flags, uintptr_t pc, const Acc& o) {
    if (g_sh) { g_sh->pcs2[0] = pc; g_sh->pcs2[1] = o.pc; g_sh->npc2 = 2; }
    violation("data-race", "data race on %zu bytes at 0x%lx: %s by task %d (operation %d) and earlier unordered %s by task %d",
              n, (unsigned long)a, flags & FL_W ? "write" : "read", s->id, s->op, o.flags & FL_W ? "write" : "read", o.tid);
}
// returns true if another thread has touched the cell
static bool race_access(Th* s, uintptr_t a, size_t n, int flags, uintptr_t pc) {
    bool shared = false;
    uintptr_t end = a + n;
    for (uintptr_t g = a >> 3; g <= (end - 1) >> 3; ++g) {
        unsigned lo = g == (a >> 3) ? a & 7 : 0, hi = g == ((end - 1) >> 3) ? ((end - 1) & 7) : 7;
        uint8_t mask = (uint8_t)((0xFFu << lo) & (0xFFu >> (7 - hi)));
        Cell* c = cell_of(g);
        if (!c) return shared;
        Acc* slot = nullptr; Acc* victim = nullptr;
        for (int i = 0; i < NACC; ++i) {
            Acc& o = c->e[i];
            if (!o.clk) { if (!slot) slot = &o; continue; }
            if (o.tid == s->id) {
                if (o.mask == mask && (o.flags & FL_ATOMIC) == (flags & FL_ATOMIC)) {
                    if ((o.flags & FL_W) == (flags & FL_W)) slot = &o;      // refresh
                    else if (flags & FL_W) slot = &o;                        // write supersedes own read of same bytes
                }
                else if (!victim) victim = &o;
                continue;
            }
            shared = true;
            if (!(o.mask & mask)) continue;
            if (!((o.flags | flags) & FL_W)) continue;
            if ((o.flags & FL_ATOMIC) && (flags & FL_ATOMIC)) continue;
            if (o.clk > s->vc[o.tid]) race_report(s, a, n, flags, pc, o);
            if (!victim) victim = &o; // ordered before us: may be dropped
        }
        if (!slot) slot = victim ? victim : &c->e[steps % NACC];
        slot->clk = s->vc[s->id]; slot->tid = (uint8_t)s->id; slot->mask = mask; slot->flags = (uint8_t)flags; slot->pc = (uint32_t)pc;
    }
    return shared;
}
// ------------------------------------------------------------------------------------------------ heap
struct Blk { uintptr_t addr; size_t size; uint64_t serial; bool live; bool harness; };
enum { NBLK = 1 << 22 };
static Blk* blks = nullptr; static long nblk = 0; // in address order (bump allocation)
static uintptr_t bump = ARENA;
static size_t live_n = 0, live_b = 0;
static int poison_mode = 1; static Rng prng(3);
struct Prot { uintptr_t a, b; };
static Prot prot[64]; static int nprot = 0;

static long blk_find(uintptr_t a) { // last block with addr <= a
    long lo = 0, hi = nblk - 1, r = -1;
    while (lo <= hi) { long m = (lo + hi) / 2; if (blks[m].addr <= a) { r = m; lo = m + 1; } else hi = m - 1; }
    return r;
}
static void fill_pattern(void* p, size_t n, int mode, Rng& r) {
    unsigned char* c = (unsigned char*)p;
    switch (mode) {
        case 0: __real_memset(p, 0, n); return;
        case 1: __real_memset(p, 0xA5, n); return;
        case 2: { uint64_t v = 0x7FF80000DEADBEEFull; for (size_t i = 0; i < n; ++i) c[i] = ((unsigned char*)&v)[((uintptr_t)(c + i)) & 7]; return; }
        case 3: { double v = 0; for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) v = (r.unit() - 0.5) * 20; c[i] = ((unsigned char*)&v)[i & 7]; } return; }
        case 4: { double v = 1e300; for (size_t i = 0; i < n; ++i) c[i] = ((unsigned char*)&v)[i & 7]; return; }
        case 5: { double v = 1.0; for (size_t i = 0; i < n; ++i) c[i] = ((unsigned char*)&v)[i & 7]; return; }
        case 6: { int v = 1; for (size_t i = 0; i < n; ++i) c[i] = ((unsigned char*)&v)[i & 3]; return; }
        default: for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)r.next(); return;
    }
}
static void shadow_set(uintptr_t a, size_t n, unsigned char v) { if (n) __real_memset(hshadow + ((a - ARENA) >> 3), v, n >> 3); }
static void* heap_alloc(size_t size, size_t align, size_t offset) { // red zone, block, red zone; a fresh address every time
    if (align < 16) align = 16;
    uintptr_t a = ((bump + 32 + align - 1) & ~(uintptr_t)(align - 1)) + (offset & 7 ? 0 : offset);
    uintptr_t base = a;
    if (offset & 7) base = a + (offset & ~(size_t)7);
    a = base;
    size_t full = size & ~(size_t)7, rest = size & 7;
    uintptr_t next = (a + size + 7) & ~(uintptr_t)7;
    next += 32;
    if (next + 4096 > ARENA + ARENA_SZ || nblk >= NBLK) harness_error("simulated heap exhausted (%zu bytes requested)", size);
    shadow_set(bump, a - bump, 0xFE);
    shadow_set(a, full, 8);
    if (rest) hshadow[(a + full - ARENA) >> 3] = (unsigned char)rest;
    shadow_set(next - 32, 32, 0xFE);
    bump = next;
    Blk& b = blks[nblk++]; b.addr = a; b.size = size; b.serial = (uint64_t)nblk; b.live = true; b.harness = me && me->quiet;
    if (!b.harness) { live_n++; live_b += size; }
    if (g_sh) g_sh->allocs++;
    fill_pattern((void*)a, size, poison_mode, prng);
    return (void*)a;
}
static bool in_arena(const void* p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_SZ; }
static bool heap_free(void* p, uintptr_t pc) {
    long i = blk_find((uintptr_t)p);
    if (i < 0 || blks[i].addr != (uintptr_t)p) { if (g_sh) { g_sh->pcs2[0] = pc; g_sh->npc2 = 1; } violation("bad-free", "release of an address that is not the start of a block: %p", p); }
    if (!blks[i].live) { if (g_sh) { g_sh->pcs2[0] = pc; g_sh->npc2 = 1; } violation("double-free", "block %p (%zu bytes) released twice", p, blks[i].size); }
    blks[i].live = false; if (!blks[i].harness) { live_n--; live_b -= blks[i].size; }
    shadow_set(blks[i].addr, (blks[i].size + 7) & ~(size_t)7, 0xFD);
    __real_memset(p, 0xDD, blks[i].size);
    return true;
}
NOINL static void heap_bad(uintptr_t a, size_t n, bool w, uintptr_t pc, unsigned char code) {
    long i = blk_find(a);
    if (g_sh) { g_sh->pcs2[0] = pc; g_sh->npc2 = 1; }
    // nearest block
    long near = i;
    if (i + 1 < nblk && (i < 0 || a - (blks[i].addr + blks[i].size) > blks[i + 1].addr - a)) near = i + 1;
    const char* k = code == 0xFD ? "use-after-free" : "out-of-bounds";
    if (near >= 0)
        violation(k, "%s of %zu bytes at offset %ld of a block of %zu bytes%s", w ? "write" : "read", n, (long)(a - blks[near].addr), blks[near].size, blks[near].live ? "" : " (released)");
    violation(k, "%s of %zu bytes at 0x%lx", w ? "write" : "read", n, (unsigned long)a);
}
static inline bool heap_ok(uintptr_t a, size_t n, unsigned char* bad) {
    uintptr_t g = (a - ARENA) >> 3, ge = (a + n - 1 - ARENA) >> 3;
    for (; g <= ge; ++g) {
        unsigned char s = hshadow[g];
        if (LIKELY(s == 8)) continue;
        if (s >= 1 && s <= 7 && g == ge && ((a + n - 1) & 7) < s) continue;
        *bad = s; return false;
    }
    return true;
}
static inline void heap_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (a >= ARENA && a < ARENA + ARENA_SZ) {
        unsigned char bad;
        if (UNLIKELY(!heap_ok(a, n, &bad))) heap_bad(a, n, w, pc, bad);
    } else if (UNLIKELY(a < 4096)) {
        if (g_sh) { g_sh->pcs2[0] = pc; g_sh->npc2 = 1; }
        violation("null-access", "%s of %zu bytes at address 0x%lx", w ? "write" : "read", n, (unsigned long)a);
    }
    if (UNLIKELY(nprot > 0) && w)
        for (int i = 0; i < nprot; ++i) if (a < prot[i].b && a + n > prot[i].a) {
            if (g_sh) { g_sh->pcs2[0] = pc; g_sh->npc2 = 1; }
            violation("write-to-constant", "write of %zu bytes at offset %ld of a range that must not change (%lu bytes)", n, (long)(a - prot[i].a), (unsigned long)(prot[i].b - prot[i].a));
        }
}
static inline void on_access(const void* p, size_t n, bool w, uintptr_t pc, bool races = true) {
    Th* s = me;
    if (UNLIKELY(!s) || s->quiet || n == 0) return;
    uintptr_t a = (uintptr_t)p;
    heap_check(a, n, w, pc);
    count_step(s);
    if (LIKELY(!multi)) { hmix(pc + (w ? 1ull << 40 : 0) + (stable_addr(a) ? a << 3 : 0)); return; }
    point(s, K_ACCESS, pc);
    bool sh = races && stable_addr(a) && race_access(s, a, n, w ? FL_W : 0, pc); // other memory (exception objects, thread-local blocks of the C library) is recycled outside the simulation
    if (g_sh) g_sh->accesses++;
    hmix(pc + ((uint64_t)s->id << 44) + (w ? 1ull << 43 : 0) + (stable_addr(a) ? a << 3 : 0));
    if (sh && conf.strat == 4) point(s, K_SHARED, pc);
}
// before an atomic or lock operation
static Th* sync_point(uintptr_t pc) {
    Th* s = me;
    if (!s || s->quiet) return nullptr;
    count_step(s);
    if (multi) point(s, K_SYNC, pc);
    return s;
}

// ------------------------------------------------------------------------------------------------ services
Quiet::Quiet() { if (me) me->quiet++; }
Quiet::~Quiet() { if (me) me->quiet--; }
NoFault::NoFault() { if (me) me->nofault++; }
NoFault::~NoFault() { if (me) me->nofault--; }
Loud::Loud() { saved = 0; if (me) { saved = me->quiet; me->quiet = 0; } }
Loud::~Loud() { if (me) me->quiet = saved; }
void arm(int n) { if (!me) return; me->arm = n; me->points = 0; me->fired = false; }
bool fired() { return me && me->fired; }
long fault_points() { return me ? me->points : 0; }
static bool fault_here(const char* what) {
    Th* s = me;
    if (!s || s->quiet || s->nofault) return false;
    s->points++;
    if (s->arm > 0 && s->points == s->arm) {
        s->fired = true;
        if (g_sh) named_inc(g_sh->faults, NFAULT, what);
        hmix(0xFA17);
        return true;
    }
    return false;
}
bool fault_point(const char* what) { return fault_here(what); }
void note_fault(const char* what) { if (g_sh) named_inc(g_sh->faults, NFAULT, what); }
void op_begin(const Op& o) { if (!me) return; if (me->op == 0) me->n0 = me->n; me->op = o.id; me->n = 0; arm(o.fail); hmix(0x0b00 + o.id); }
void op_end() { if (!me) return; me->op = 0; me->n = me->n0; me->arm = 0; }
void op_mark(int id) { if (!me) return; if (me->op == 0) me->n0 = me->n; me->op = id; me->n = id ? 0 : me->n0; }
void probe(const char* name) { if (g_sh) named_inc(g_sh->probes, NPROBE, name); }
void nontrivial() { if (g_sh) g_sh->nontrivial = 1; }
void mixhash(uint64_t v) { hmix(v); }
void yield_point() { Th* s = sync_point(PC()); (void)s; }
int self() { return me ? me->id : -1; }
int live_threads() { return nlive; }
long now_steps() { return steps; }
void set_poison(int mode, uint64_t seed) { poison_mode = mode; prng = Rng(seed); }
size_t live_blocks() { return live_n; }
size_t live_bytes() { return live_b; }
uint64_t alloc_mark() { return (uint64_t)nblk; }
size_t live_since(uint64_t mark, size_t* bytes, void** first) {
    size_t c = 0, b = 0;
    for (long i = (long)mark; i < nblk; ++i) if (blks[i].live && !blks[i].harness) { if (!c && first) *first = (void*)blks[i].addr; c++; b += blks[i].size; }
    if (bytes) *bytes = b;
    return c;
}
void* raw_alloc(size_t size, size_t align, size_t offset) {
    // offset: the block starts at an address that is `offset` modulo 64 (its end is exact as well)
    (void)align;
    size_t pad = offset & 63;
    char* base = (char*)heap_alloc(size + pad, 64, 0);
    if (pad) { // make the leading pad inaccessible; only whole granules can be hidden, keep the rest accessible
        shadow_set((uintptr_t)base, pad & ~(size_t)7, 0xFE);
    }
    return base + pad;
}
void raw_free(void* p) {
    long i = blk_find((uintptr_t)p);
    if (i < 0) harness_error("raw_free");
    heap_free((void*)blks[i].addr, PC());
}
void protect(void* p, size_t n, bool writable) {
    uintptr_t a = (uintptr_t)p;
    if (writable) { for (int i = 0; i < nprot; ++i) if (prot[i].a == a) { prot[i] = prot[--nprot]; return; } return; }
    if (nprot < 64 && n) { prot[nprot].a = a; prot[nprot].b = a + n; nprot++; }
}
size_t block_size(const void* p) { long i = blk_find((uintptr_t)p); return i >= 0 && blks[i].live && (uintptr_t)p < blks[i].addr + blks[i].size ? blks[i].size : 0; }
uint64_t block_serial(const void* p) { long i = blk_find((uintptr_t)p); return i >= 0 && (uintptr_t)p < blks[i].addr + blks[i].size ? blks[i].serial : 0; }
bool addressable(const void* p, size_t n) { unsigned char b; return n == 0 || !in_arena(p) || heap_ok((uintptr_t)p, n, &b); }
NOINL void dirty_stack(int mode, uint64_t seed) {
    Rng r(seed);
    volatile char buf[96 * 1024];
    fill_pattern((void*)buf, sizeof buf, mode, r);
    asm volatile("" ::"r"(buf) : "memory");
}
void set_concurrency(unsigned n) { concurrency = n; }
void set_thread_fail(int n) { thread_fail = n; }
void set_spurious(int pm) { spurious_pm = pm; }
void expect_assert(bool on) { assert_ok = on; }

bool eng_active() { return me != nullptr; }
unsigned eng_concurrency() { return concurrency; }
void eng_lock(void* a) {
    Th* s = sync_point(PC()); if (!s) return;
    Sync* y = sync_of(a);
    while (y->owner >= 0) {
        if (y->owner == s->id) violation("deadlock", "task %d locks a lock it already holds", s->id);
        block_on(s, a);
    }
    y->owner = s->id; hb_acquire(s, y); sync_event(s, 1, a);
}
bool eng_trylock(void* a) {
    Th* s = sync_point(PC()); if (!s) return true;
    Sync* y = sync_of(a);
    if (y->owner >= 0) { sync_event(s, 2, a); return false; }
    y->owner = s->id; hb_acquire(s, y); sync_event(s, 1, a);
    return true;
}
void eng_unlock(void* a) {
    Th* s = me; if (!s || s->quiet) return;
    count_step(s);
    Sync* y = sync_of(a);
    if (y->owner != s->id) violation("lock-misuse", "task %d releases a lock that it does not hold", s->id);
    hb_release(s, y); y->owner = -1; sync_event(s, 3, a);
    wake(a, true);
    if (multi) point(s, K_SYNC, PC());
}
void eng_forget(void* a) { if (!me) return; Sync* y = sync_of(a); y->owner = -1; y->count = 0; y->readers = 0; y->wowner = -1; y->has = false; __real_memset(y->vc, 0, sizeof y->vc); }
void eng_wait_on(void* a) { Th* s = me; block_on(s, a); }
void eng_wake(void* a, bool all) { wake(a, all); }
void eng_release(void* a) { Th* s = me; hb_release(s, sync_of(a)); }
void eng_acquire(void* a) { Th* s = me; hb_acquire(s, sync_of(a)); }

// ------------------------------------------------------------------------------------------------ threads
static void recompute_multi() {
    bool unjoined = false;
    for (int i = 1; i < nth; ++i) if (th[i].st == Th::DONE && !th[i].joined) unjoined = true;
    multi = nlive > 1 || unjoined;
}
static Th* new_thread(Th* parent) {
    if (nth >= MAXT) harness_error("too many simulated threads");
    Th* t = &th[nth]; __real_memset(t, 0, sizeof *t);
    t->id = nth++; t->st = Th::RUN;
    if (parent) { __real_memcpy(t->vc, parent->vc, sizeof t->vc); }
    t->vc[t->id] = 1;
    t->prio = (long)(srng.next() >> 34) + 1000;
    return t;
}
static void* tramp(void* p) {
    Th* t = (Th*)p;
    me = t;
    pthread_setspecific(exit_key, t);
    fwait(&t->futex);
    void* r = t->fn(t->arg);
    t->ret = r;
    return r;
}
static void on_exit_key(void* p) { // runs after the thread's thread_local destructors
    Th* t = (Th*)p;
    static __thread int rounds;
    if (rounds++ < 2) { pthread_setspecific(exit_key, t); return; }
    t->quiet = 1000;
    for (int i = 0; i < NSYNC; ++i) (void)0;
    t->st = Th::DONE;
    nlive--;
    sync_event(t, 9, nullptr);
    hb_release(t, sync_of(t));
    wake(t, true);
    recompute_multi();
    if (t->id == 0) harness_error("main task exited");
    pick_forced(t);
    me = nullptr;
}
static int create_thread(pthread_t* out, void* (*fn)(void*), void* arg, bool detached, uintptr_t pc) {
    Th* s = sync_point(pc);
    if (!s) s = me;
    if (thread_fail > 0 && --thread_fail == 0) { if (g_sh) named_inc(g_sh->faults, NFAULT, "thread-create"); hmix(0xEA6A); return EAGAIN; }
    bool unjoined = false;
    for (int i = 1; i < nth; ++i) if (th[i].st == Th::DONE && !th[i].joined) unjoined = true;
    if (nlive == 1 && !unjoined) { epoch++; ncell_used = 0; }
    Th* t = new_thread(s);
    t->fn = fn; t->arg = arg; t->detached = detached;
    s->vc[s->id]++;
    nlive++; recompute_multi(); prio_dirty = true;
    pthread_attr_t at; pthread_attr_init(&at);
    char* st = (char*)(STACKS + (uintptr_t)t->id * STACK_SZ);
    pthread_attr_setstack(&at, st + 65536, STACK_SZ - 65536);
    s->quiet++;
    int rc = real_pthread_create(&t->real, &at, tramp, t);
    s->quiet--;
    pthread_attr_destroy(&at);
    if (rc) harness_error("real pthread_create failed: %d", rc);
    *out = t->real;
    sync_event(s, 8, nullptr);
    point(s, K_SYNC, pc);
    return 0;
}
static Th* find_real(pthread_t p) { for (int i = nth - 1; i >= 0; --i) if (th[i].real == p) return &th[i]; return nullptr; }

static void (*user_fn)(void*); static void* user_arg;
static void* main_task(void*) {
    user_fn(user_arg);
    me->quiet++;
    if (nlive > 1) violation("task-left-running", "%d tasks still running at the end of the run", nlive - 1);
    finish(ST_OK);
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
    (void)uc;
    if (sig == SIGVTALRM || sig == SIGXCPU) {
        if (g_sh) { snprintf(g_sh->kind, sizeof g_sh->kind, "hang"); snprintf(g_sh->msg, sizeof g_sh->msg, "no progress: cpu time limit of the run exceeded"); H = 0; }
        finish(ST_VIOLATION);
    }
    if (finishing) _exit(14);
    finishing = true;
    if (me) me->quiet += 1000;
    if (g_sh) {
        const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal";
        if (!g_sh->kind[0]) snprintf(g_sh->kind, sizeof g_sh->kind, "crash");
        if (!g_sh->msg[0]) snprintf(g_sh->msg, sizeof g_sh->msg, "%s (address 0x%lx) in task %d operation %d", nm, (sig == SIGSEGV || sig == SIGBUS) && stable_addr((uintptr_t)si->si_addr) ? (unsigned long)(uintptr_t)si->si_addr : 0ul, me ? me->id : -1, me ? me->op : 0);
        stack_trace();
    }
    finish(ST_VIOLATION);
}
void engine_init() {
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    real_pthread_detach = (decltype(real_pthread_detach))dlsym(RTLD_NEXT, "pthread_detach");
    void* b[4]; backtrace(b, 4); // loads libgcc now
}
static void* map_fixed(uintptr_t at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)at) { fprintf(stderr, "cannot map simulated memory at %lx\n", (unsigned long)at); _exit(12); }
    return p;
}
template <class T> static T* map_any(size_t n) {
    void* p = mmap(0, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "cannot map engine memory\n"); _exit(12); }
    return (T*)p;
}
void engine_run(Shared* sh, const SchedConf& c, void (*fn)(void*), void* arg) {
    g_sh = sh; conf = c;
    map_fixed(ARENA, ARENA_SZ); map_fixed(STACKS, MAXT * STACK_SZ);
    hshadow = map_any<unsigned char>(ARENA_SZ / 8);
    cells = map_any<Cell>(NCELL); blks = map_any<Blk>(NBLK); synctab = map_any<Sync>(NSYNC);
    sched_init();
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO; sigemptyset(&sa.sa_mask);
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(sg, &sa, nullptr);
    (void)ss;
    struct itimerval tv{}; tv.it_value.tv_sec = 40; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    cpu_set_t cs; CPU_ZERO(&cs); int cpu = sched_getcpu(); if (cpu >= 0) { CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    pthread_key_create(&exit_key, on_exit_key);
    user_fn = fn; user_arg = arg;
    Th* t = new_thread(nullptr);
    nlive = 1; cur = 0; active = true;
    t->fn = main_task; t->arg = nullptr;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (char*)STACKS + 65536, STACK_SZ - 65536);
    if (real_pthread_create(&t->real, &at, tramp, t)) { fprintf(stderr, "cannot start\n"); _exit(12); }
    fwake(&t->futex);
    for (;;) pause();
}
} // namespace sim

using namespace sim;
// ================================================================================================ interposition
extern "C" {
// ---- tsan instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* a) { on_access(a, n, false, PC()); } \
    void __tsan_write##n(void* a) { on_access(a, n, true, PC()); } \
    void __tsan_unaligned_read##n(void* a) { on_access(a, n, false, PC()); } \
    void __tsan_unaligned_write##n(void* a) { on_access(a, n, true, PC()); } \
    void __tsan_volatile_read##n(void* a) { on_access(a, n, false, PC()); } \
    void __tsan_volatile_write##n(void* a) { on_access(a, n, true, PC()); } \
    void __tsan_unaligned_volatile_read##n(void* a) { on_access(a, n, false, PC()); } \
    void __tsan_unaligned_volatile_write##n(void* a) { on_access(a, n, true, PC()); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { on_access(a, n, false, PC()); }
void __tsan_write_range(void* a, size_t n) { on_access(a, n, true, PC()); }
void __tsan_vptr_update(void** a, void* v) { on_access(a, 8, true, PC(), *a != v || !stable_addr((uintptr_t)a)); } // counted always: what the memory held before may differ from execution to execution
void __tsan_vptr_read(void** a) { on_access(a, 8, false, PC()); }

static inline Th* at_pre(const volatile void* a, size_t n, bool w, int mo, uintptr_t pc) {
    Th* s = me;
    if (!s || s->quiet) return nullptr;
    heap_check((uintptr_t)a, n, w, pc);
    count_step(s);
    if (multi) { point(s, K_SYNC, pc); race_access(s, (uintptr_t)a, n, (w ? FL_W : 0) | FL_ATOMIC, pc); }
    (void)mo;
    return s;
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_post(Th* s, const volatile void* a, bool rd, bool wr, int mo) {
    if (!s || !multi) return;
    Sync* y = sync_of((const void*)a);
    if (rd && is_acq(mo)) hb_acquire(s, y);
    if (wr) {
        if (!rd && !is_rel(mo)) { y->has = false; __real_memset(y->vc, 0, sizeof y->vc); }
        else if (is_rel(mo)) { if (!rd) { __real_memset(y->vc, 0, sizeof y->vc); } hb_release(s, y); }
        wake((const void*)a, true); // futex style waiters
    }
    sync_event(s, 20 + rd + 2 * wr, (const void*)a);
}
#define ATOMICS(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { Th* s = at_pre(a, sizeof(T), false, mo, PC()); T v = *a; at_post(s, a, true, false, mo); return v; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); *a = v; at_post(s, a, false, true, mo); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = v; at_post(s, a, true, true, mo); return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = (T)(o + v); at_post(s, a, true, true, mo); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = (T)(o - v); at_post(s, a, true, true, mo); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = (T)(o & v); at_post(s, a, true, true, mo); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = (T)(o | v); at_post(s, a, true, true, mo); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = (T)(o ^ v); at_post(s, a, true, true, mo); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; *a = (T)~(o & v); at_post(s, a, true, true, mo); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { Th* s = at_pre(a, sizeof(T), true, mo, PC()); T o = *a; \
        if (o == *c) { *a = v; at_post(s, a, true, true, mo); return 1; } *c = o; at_post(s, a, true, false, fmo); return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo) { Th* s = sync_point(PC()); if (s && multi) { Sync* y = sync_of(&fence_obj); if (is_acq(mo)) hb_acquire(s, y); if (is_rel(mo)) hb_release(s, y); } }
void __tsan_atomic_signal_fence(int) {}

// ---- block memory operations of the code under test
void* __wrap_memcpy(void* d, const void* s, size_t n) { on_access(s, n, false, PC()); on_access(d, n, true, PC()); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { on_access(s, n, false, PC()); on_access(d, n, true, PC()); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { on_access(d, n, true, PC()); return __real_memset(d, c, n); }

// ---- malloc family of the code under test
void* __wrap_malloc(size_t n) { if (!me) return __real_malloc(n); if (fault_here("malloc")) { errno = ENOMEM; return nullptr; } return heap_alloc(n ? n : 1, 16, 0); }
void __wrap_free(void* p) { if (!p) return; if (in_arena(p)) { heap_free(p, PC()); return; } __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) {
    if (!me) return __real_calloc(a, b);
    if (fault_here("malloc")) { errno = ENOMEM; return nullptr; }
    void* p = heap_alloc(a * b > 0 ? a * b : 1, 16, 0); __real_memset(p, 0, a * b); return p;
}
void* __wrap_realloc(void* p, size_t n) {
    if (!me && !in_arena(p)) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    if (fault_here("malloc")) { errno = ENOMEM; return nullptr; }
    long i = blk_find((uintptr_t)p); size_t o = i >= 0 ? blks[i].size : 0;
    void* q = heap_alloc(n ? n : 1, 16, 0); __real_memcpy(q, p, o < n ? o : n); heap_free(p, PC()); return q;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { if (!me) return __real_aligned_alloc(al, n); if (fault_here("malloc")) { errno = ENOMEM; return nullptr; } return heap_alloc(n ? n : 1, al, 0); }
int __wrap_posix_memalign(void** out, size_t al, size_t n) { if (!me) return __real_posix_memalign(out, al, n); if (fault_here("malloc")) return ENOMEM; *out = heap_alloc(n ? n : 1, al, 0); return 0; }

// ---- assertions
void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
    if (me && assert_ok) { me->quiet++; hmix(0xA55E); if (g_sh) named_inc(g_sh->probes, NPROBE, "assertion-reported"); finish(ST_OK); }
    const char* b = strrchr(file, '/');
    if (me) violation("assertion", "assertion `%s` failed at %s:%u in %.200s", expr, b ? b + 1 : file, line, func);
    fprintf(stderr, "assert %s %s:%u\n", expr, file, line); abort();
}

// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!me) { if (!real_pthread_create) engine_init(); return real_pthread_create(out, attr, fn, arg); }
    int ds = 0; if (attr) pthread_attr_getdetachstate(attr, &ds);
    return create_thread(out, fn, arg, ds == PTHREAD_CREATE_DETACHED, PC());
}
int pthread_join(pthread_t p, void** ret) {
    if (!me) { if (!real_pthread_join) engine_init(); return real_pthread_join(p, ret); }
    Th* s = sync_point(PC()); if (!s) s = me;
    Th* t = find_real(p);
    if (!t || t->joined || t->detached) violation("thread-misuse", "join of an unknown, joined or detached thread");
    if (t == s) violation("deadlock", "a task joins itself");
    while (t->st != Th::DONE) block_on(s, t);
    t->joined = true;
    hb_acquire(s, sync_of(t)); sync_event(s, 10, nullptr);
    recompute_multi();
    if (ret) *ret = t->ret;
    return real_pthread_join(p, nullptr);
}
int pthread_detach(pthread_t p) {
    if (!me) { if (!real_pthread_detach) engine_init(); return real_pthread_detach(p); }
    Th* t = find_real(p); if (t) t->detached = true;
    return 0; // keep the real thread joinable: its stack must not be unmapped under us
}
// ---- mutexes
static int mtype(pthread_mutex_t* m) { return m->__data.__kind & 3; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int t = 0; if (a) pthread_mutexattr_gettype(a, &t);
    __real_memset(m, 0, sizeof *m); m->__data.__kind = t;
    if (me) eng_forget(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (me && !me->quiet) { Sync* y = sync_of(m); if (y->owner >= 0) violation("lock-misuse", "a locked mutex is destroyed (owner task %d)", y->owner); eng_forget(m); }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!me || me->quiet) return 0;
    heap_check((uintptr_t)m, 8, true, PC());
    if (mtype(m) == PTHREAD_MUTEX_RECURSIVE) { Sync* y = sync_of(m); if (y->owner == me->id) { y->count++; return 0; } }
    if (mtype(m) == PTHREAD_MUTEX_ERRORCHECK) { Sync* y = sync_of(m); if (y->owner == me->id) return EDEADLK; }
    eng_lock(m); sync_of(m)->count = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!me || me->quiet) return 0;
    heap_check((uintptr_t)m, 8, true, PC());
    if (mtype(m) == PTHREAD_MUTEX_RECURSIVE) { Sync* y = sync_of(m); if (y->owner == me->id) { y->count++; return 0; } }
    if (!eng_trylock(m)) return EBUSY;
    sync_of(m)->count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!me || me->quiet) return 0;
    heap_check((uintptr_t)m, 8, true, PC());
    Sync* y = sync_of(m);
    if (mtype(m) == PTHREAD_MUTEX_RECURSIVE && y->owner == me->id && --y->count > 0) return 0;
    eng_unlock(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __real_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, long dl) {
    Th* s = me; if (!s) return 0;
    Sync* y = sync_of(m);
    if (y->owner != s->id) violation("lock-misuse", "condition wait without holding the mutex");
    hb_release(s, y); y->owner = -1; sync_event(s, 5, c); wake(m, true);
    s->timed_out = false; s->wait_timed = timed; s->wait_deadline = dl;
    if (spurious_pm && !conf.fixed && srng.below(1000) < spurious_pm) { if (g_sh) named_inc(g_sh->faults, NFAULT, "spurious-wakeup"); yield_point(); }
    else block_on(s, c);
    s->wait_timed = false;
    while (y->owner >= 0) block_on(s, m);
    y->owner = s->id; hb_acquire(s, y); sync_event(s, 6, c);
    return s->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, true, t->tv_sec * 1000000000l + t->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cond_wait(c, m, true, t->tv_sec * 1000000000l + t->tv_nsec); }
int pthread_cond_signal(pthread_cond_t* c) { Th* s = sync_point(PC()); if (!s) return 0; sync_event(s, 7, c); wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { Th* s = sync_point(PC()); if (!s) return 0; sync_event(s, 7, c); wake(c, true); return 0; }
// ---- rwlocks
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { __real_memset(l, 0, sizeof *l); if (me) eng_forget(l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    Th* s = sync_point(PC()); if (!s) return 0; Sync* y = sync_of(l);
    while (y->owner >= 0) block_on(s, l);
    y->readers++; hb_acquire(s, y); sync_event(s, 11, l); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { Th* s = sync_point(PC()); if (!s) return 0; Sync* y = sync_of(l); if (y->owner >= 0) return EBUSY; y->readers++; hb_acquire(s, y); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    Th* s = sync_point(PC()); if (!s) return 0; Sync* y = sync_of(l);
    while (y->owner >= 0 || y->readers > 0) block_on(s, l);
    y->owner = s->id; hb_acquire(s, y); sync_event(s, 12, l); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { Th* s = sync_point(PC()); if (!s) return 0; Sync* y = sync_of(l); if (y->owner >= 0 || y->readers) return EBUSY; y->owner = s->id; hb_acquire(s, y); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    Th* s = me; if (!s || s->quiet) return 0; Sync* y = sync_of(l);
    if (y->owner == s->id) y->owner = -1; else if (y->readers > 0) y->readers--; else violation("lock-misuse", "unlock of a free rwlock");
    hb_release(s, y); sync_event(s, 13, l); wake(l, true); if (multi) point(s, K_SYNC, PC()); return 0;
}
// ---- once and static initialisation
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!me || me->quiet) { if (*o != 2) { *o = 2; f(); } return 0; }
    Th* s = sync_point(PC()); Sync* y = sync_of(o);
    for (;;) {
        if (*o == 2) { hb_acquire(s, y); return 0; }
        if (*o == 0) {
            *o = 1; hb_acquire(s, y);
            try { f(); } catch (...) { *o = 0; hb_release(s, y); wake(o, true); throw; }
            *o = 2; hb_release(s, y); wake(o, true); return 0;
        }
        block_on(s, o);
    }
}
int __cxa_guard_acquire(long* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    if (!me || me->quiet) { if (b[0]) return 0; b[1] = 1; return 1; }
    Th* s = sync_point(PC()); Sync* y = sync_of(g);
    for (;;) {
        if (b[0]) { hb_acquire(s, y); return 0; }
        if (!b[1]) { b[1] = (unsigned char)(1 + s->id); hb_acquire(s, y); sync_event(s, 14, g); return 1; } // ordered after an attempt that was given up
        if (b[1] == 1 + s->id) violation("deadlock", "recursive initialisation of a static object");
        block_on(s, g);
    }
}
void __cxa_guard_release(long* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    b[1] = 0; b[0] = 1;
    if (!me || me->quiet) return;
    Th* s = me; hb_release(s, sync_of(g)); wake(g, true); sync_event(s, 15, g);
    if (multi) point(s, K_SYNC, PC());
}
void __cxa_guard_abort(long* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    b[1] = 0;
    if (!me || me->quiet) return;
    hb_release(me, sync_of(g)); wake(g, true);
}
// ---- time and yielding
int sched_yield() { if (!me || me->quiet) return 0; yield_point(); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) {
    if (!me || me->quiet) return 0;
    Th* s = sync_point(PC()); s->wait_timed = true; s->timed_out = false; s->wait_deadline = vtime + t->tv_sec * 1000000000l + t->tv_nsec;
    block_on(s, &s->wait_deadline); s->wait_timed = false; return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
static int real_clock_gettime(clockid_t c, struct timespec* t) { return (int)raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0); }
int clock_gettime(clockid_t c, struct timespec* t) {
    if (!me) return real_clock_gettime(c, t);
    vtime += 1000; t->tv_sec = 1000000 + vtime / 1000000000l; t->tv_nsec = vtime % 1000000000l; return 0;
}
int gettimeofday(struct timeval* t, void*) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
// futex based waiting of the standard library (future, atomic wait)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me && !me->quiet) {
        int op = (int)(b & 0x7f & ~FUTEX_CLOCK_REALTIME);
        Th* s = me;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            s->timed_out = false;
            if (d) { struct timespec* t = (struct timespec*)d; s->wait_timed = true; s->wait_deadline = t->tv_sec * 1000000000l + t->tv_nsec; if (op == FUTEX_WAIT) s->wait_deadline += vtime; }
            block_on(s, (void*)a); s->wait_timed = false;
            if (s->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake((void*)a, true); return 1; }
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int get_nprocs() { return (int)concurrency; }
} // extern "C"

// libstdc++ asks this
unsigned std::thread::hardware_concurrency() noexcept { return me ? concurrency : 8; }

// ---- operator new / delete
static void* op_new(size_t n, size_t al, uintptr_t) {
    if (!me) { void* p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    if (fault_here("bad_alloc")) throw std::bad_alloc();
    if (n > (1ull << 29)) { if (!me->quiet) throw std::bad_alloc(); }
    return heap_alloc(n ? n : 1, al, 0);
}
static void* op_new_nt(size_t n, size_t al, uintptr_t) noexcept {
    if (!me) return al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    if (fault_here("bad_alloc")) return nullptr;
    if (n > (1ull << 29)) return nullptr;
    return heap_alloc(n ? n : 1, al, 0);
}
static void op_del(void* p, uintptr_t pc) { if (!p) return; if (in_arena(p)) heap_free(p, pc); else __real_free(p); }
void* operator new(size_t n) { return op_new(n, 16, PC()); }
void* operator new[](size_t n) { return op_new(n, 16, PC()); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16, PC()); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16, PC()); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC()); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC()); }
void operator delete(void* p) noexcept { op_del(p, PC()); }
void operator delete[](void* p) noexcept { op_del(p, PC()); }
void operator delete(void* p, size_t) noexcept { op_del(p, PC()); }
void operator delete[](void* p, size_t) noexcept { op_del(p, PC()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p, PC()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p, PC()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p, PC()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p, PC()); }
