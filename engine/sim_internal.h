// Shared between sim.cpp (runtime, uninstrumented, no std containers), gomp.cpp and driver.cpp
#ifndef VERIF_SIM_INTERNAL_H
#define VERIF_SIM_INTERNAL_H
#include <cstdint>
#include <cstddef>

namespace sim {
enum { MAXT = 48, MAXDEC = 1 << 20, NPROBE = 96, NFAULT = 24 };
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };
struct Dec { int32_t tid, op, to, forced; int64_t n; };
struct Named { char name[48]; long count; };
struct Shared { // MAP_SHARED between the worker and one run
    int status;
    char kind[64];
    char msg[4096];
    uint64_t hash;       // everything: accesses, decisions, results
    uint64_t sched_sig;  // order of thread switches and synchronisation only
    long steps, switches, preempts, threads, syncs, allocs, accesses;
    long vtime_ns;
    int nontrivial;
    int npc; uint64_t pcs[24];
    int npc2; uint64_t pcs2[8];
    Named probes[NPROBE]; Named faults[NFAULT];
    long ndec; int dec_overflow;
    Dec dec[MAXDEC];
};
struct SchedConf {
    int strat = 0;        // 0 none, 1 random, 2 pct, 3 sync only, 4 shared addresses, 5 sites
    long p1 = 0, p2 = 0;
    uint64_t seed = 1;
    bool fixed = false;
    const int* pre_tid = nullptr; const int* pre_op = nullptr; const long* pre_n = nullptr; const int* pre_to = nullptr;
    long npre = 0;
    long step_cap = 40000000;
};
void engine_init();                                     // once per process
void engine_run(Shared* sh, const SchedConf& c, void (*fn)(void*), void* arg); // in the child; never returns
extern Shared* g_sh;

// primitives for gomp.cpp
void eng_lock(void* a);
bool eng_trylock(void* a);
void eng_unlock(void* a);
void eng_forget(void* a);
void eng_wait_on(void* a);           // block until eng_wake(a)
void eng_wake(void* a, bool all);
void eng_release(void* a);           // happens-before: publish / observe through address a
void eng_acquire(void* a);
bool eng_active();
unsigned eng_concurrency();
}
#endif
