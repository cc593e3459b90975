// Deterministic simulator: public interface used by the scenarios.
// Everything in namespace sim is implemented in sim.cpp, which is compiled without instrumentation.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    long below(long n) { return n <= 0 ? 0 : (long)(next() % (uint64_t)n); }
    long in(long a, long b) { return a + below(b - a + 1); }     // inclusive
    bool chance(long num, long den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)below((long)v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next() ^ b; }

// ---------------------------------------------------------------- plans
struct Op {
    int id = 0;          // stable identity (>0)
    int th = 0;          // task that executes it
    std::string kind;
    std::vector<long> v;
    int fail = 0;        // inject: n-th fault point inside this op fails (0: none)
    long at(size_t i) const { return i < v.size() ? v[i] : 0; }
};
struct Pre { int tid; int op; long n; int to; };
struct Plan {
    std::string scenario;
    uint64_t seed = 0;
    std::map<std::string, long> par;
    std::vector<Op> ops;
    bool fixed = false;            // replay: follow `pre` instead of the random strategy
    std::vector<Pre> pre;
    long get(const char* k, long d = 0) const { auto it = par.find(k); return it == par.end() ? d : it->second; }
    Op& add(int th, const char* kind, std::vector<long> v = {}, int fail = 0) {
        Op o; o.id = (int)ops.size() + 1; o.th = th; o.kind = kind; o.v = v; o.fail = fail;
        ops.push_back(o); return ops.back();
    }
    int threads() const { int m = 0; for (auto& o : ops) if (o.th + 1 > m) m = o.th + 1; return m; }
};
std::string plan_text(const Plan& p);
bool plan_parse(const std::string& text, Plan& p);

struct Scenario {
    const char* prop;
    const char* name;
    int weight;
    void (*gen)(Plan&, Rng&);
    void (*run)(const Plan&);
};
struct Register { Register(const Scenario& s); };
// draws the schedule strategy into the plan (swarm): call at the end of gen
void gen_schedule(Plan& p, Rng& r, long est_events = 3000);

// ---------------------------------------------------------------- services inside a run
// Code between construction and destruction is harness code: no preemption, no race or heap check, no injected fault.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
// Code under test (or its third-party libraries) where an allocation failure is handled outside of the repository: no faults, everything else is on
struct NoFault { NoFault(); ~NoFault(); NoFault(const NoFault&) = delete; };
// Harness code that calls back into code under test inside Quiet
struct Loud { int saved; Loud(); ~Loud(); Loud(const Loud&) = delete; };

void op_begin(const Op& o);       // sets schedule identity and arms o.fail
void op_end();                    // disarms
void op_mark(int id);             // sets schedule identity only
void arm(int n);                  // n-th fault point from now on (this thread) fails; 0 disarms
bool fired();                     // did the armed fault fire since arm()?
// Quiet, single task: f runs in a copy of this process, whose effects (first use of tables, caches) are not seen here; false: it did not finish
bool isolated(const std::function<void(std::vector<uint64_t>&)>& f, std::vector<uint64_t>& out);
long fault_points();              // fault points passed since arm() (this thread)
bool fault_point(const char* what); // an explicit fault point of a scenario (callback); true: fail now
void note_fault(const char* what); // count an injected fault that does not go through fault points

[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);     // counts "this interesting thing happened in the run"
void nontrivial();                // the run did something that counts
void mixhash(uint64_t v);         // observable behaviour of the run, enters the run's hash
void yield_point();               // extra preemption point
int  self();                      // id of the running simulated thread
int  live_threads();
long now_steps();

// heap
void   set_poison(int mode, uint64_t seed); // contents of fresh memory
size_t live_blocks();                        // live blocks of the simulated heap
size_t live_bytes();
uint64_t alloc_mark();                       // allocation serial
size_t live_since(uint64_t mark, size_t* bytes = nullptr, void** first = nullptr);
void*  raw_alloc(size_t size, size_t align = 16, size_t offset = 0); // exact block, red zones on both sides
void   raw_free(void* p);
void   protect(void* p, size_t n, bool writable);  // write to a non writable range is a violation
size_t block_size(const void* p);            // 0 if p is not inside a live block
uint64_t block_serial(const void* p);        // allocation serial of the block containing p (0: none); compare with alloc_mark()
bool   addressable(const void* p, size_t n);
void   dirty_stack(int mode, uint64_t seed);
void   set_concurrency(unsigned n);          // what the machine reports
void   set_thread_fail(int n);               // n-th thread creation from now on fails
void   set_spurious(int per_mille);          // spurious condition variable wakeups
void   expect_assert(bool on);               // a failing assertion of the code under test ends the run as "reported", not as a violation
void   set_team_limit(int n);                // OpenMP: teams get at most n threads (0: as many as requested)
} // namespace sim
#endif
