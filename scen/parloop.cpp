// C05: the parallel loop.
#include "common.h"
#include <atomic>
#include <deque>
#include "anifem++/fem/mutex_type.h"
using namespace sim;

namespace {
struct Rec {
    long n = 0;
    std::vector<int> count; std::vector<int> busy; int nbusy = 0, maxbusy = 0;
    std::vector<long> data;      // written by the bodies without synchronisation: visible when the loop returns
    std::vector<int> by;
    long maxworkers = 1; bool returned = false; long cur_round = 0;
    std::atomic<long> extra_sum{0};
};
Rec* R;
void body_enter(long idx, int th) {
    Quiet q;
    if (R->returned) violation("late", "the body runs for element %ld after the loop has returned", idx);
    if (idx < 0 || idx >= R->n) violation("outside-range", "the body runs for element %ld of a range of %ld", idx, R->n);
    if (++R->count[(size_t)idx] > 1) violation("repeated", "the body runs twice for element %ld", idx);
    if (th < 0 || th >= R->maxworkers) violation("worker-number", "worker number %d, %ld workers were requested", th, R->maxworkers);
    if (R->busy[(size_t)th]++) violation("shared-worker-number", "two bodies run at the same time with worker number %d", th);
    R->by[(size_t)idx] = self();
    if (++R->nbusy > R->maxbusy) R->maxbusy = R->nbusy;
    if (R->nbusy > 1) { probe("bodies-overlap"); nontrivial(); }
}
void body_exit(int th) { Quiet q; R->busy[(size_t)th]--; R->nbusy--; }

template <class It> struct Body {
    It base;
    long work;
    void operator()(It it, int th) {
        long idx = (long)(it - base);
        body_enter(idx, th);
        R->data[(size_t)idx] = 7 * idx + 1;
        for (long k = 0; k < work; ++k) yield_point();
        body_exit(th);
    }
    void operator()(It it, int th, std::atomic<long>& sum, long c) {
        sum.fetch_add(c + (long)(it - base), std::memory_order_relaxed);
        (*this)(it, th);
    }
};
template <ThreadPar::Type T, class It> void loop(int nt, It beg, It end, long work, bool extra) {
    Body<It> b{beg, work};
    long c = 3;
    if (extra) ThreadPar::parallel_for<T>(nt, b, beg, end, R->extra_sum, c);
    else ThreadPar::parallel_for<T>(nt, b, beg, end);
}
template <class It> void dispatch(int mode, int nt, It beg, It end, long work, bool extra) {
    if (mode == 0) loop<ThreadPar::Type::NONE>(nt, beg, end, work, extra);
    else if (mode == 1) loop<ThreadPar::Type::STD>(nt, beg, end, work, extra);
#ifdef WITH_OPENMP
    else loop<ThreadPar::Type::OMP>(nt, beg, end, work, extra);
#else
    else loop<ThreadPar::Type::STD>(nt, beg, end, work, extra);
#endif
}
template <ThreadPar::Type T> int nworkers(int nt) { return ThreadPar::get_num_threads<T>(nt); }

void run(const Plan& p) {
    Quiet q;
    set_concurrency((unsigned)p.get("hw", 4));
    set_team_limit((int)p.get("team", 0));
    for (const Op& o : p.ops) { // each operation is one loop
        long n = o.at(0), nt = o.at(1), mode = o.at(2), work = o.at(3), it = o.at(4), extra = o.at(5);
        Rec rec; R = &rec;
        rec.n = n; rec.count.assign((size_t)n, 0); rec.data.assign((size_t)n, -1); rec.by.assign((size_t)n, -1);
        long hw = p.get("hw", 4);
#ifndef WITH_OPENMP
        if (mode == 2) mode = 1;
#endif
        // an OpenMP runtime always reports at least one thread; "unknown" (0) native concurrency means 8 workers
        long want = mode == 0 ? 1 : nt < 0 ? (hw == 0 ? (mode == 1 ? 8 : 1) : hw) : nt;
        rec.maxworkers = want; rec.busy.assign((size_t)want + 1, 0);
        { // the library's own answer on the number of workers
            int g; { Loud l; g = mode == 0 ? nworkers<ThreadPar::Type::NONE>((int)nt) :
#ifdef WITH_OPENMP
                mode == 2 ? nworkers<ThreadPar::Type::OMP>((int)nt) :
#endif
                nworkers<ThreadPar::Type::STD>((int)nt); }
            if (g != want) violation("worker-count", "%ld workers requested (mode %ld, hardware %ld): the library reports %d", nt, mode, hw, g);
        }
        std::vector<long> vec((size_t)n); std::deque<int> deq((size_t)n);
        {
            Loud l;
            if (it == 0) { long* b = vec.data(); dispatch((int)mode, (int)nt, b, b + n, work, extra); }
            else if (it == 1) dispatch((int)mode, (int)nt, vec.begin(), vec.end(), work, extra);
            else if (it == 2) dispatch((int)mode, (int)nt, deq.begin(), deq.end(), work, extra);
            else if (it == 3) dispatch((int)mode, (int)nt, -3, -3 + (int)n, work, extra); // ranges of numbers
            else if (it == 4) dispatch((int)mode, (int)nt, (std::size_t)5, (std::size_t)(5 + n), work, extra);
            else dispatch((int)mode, (int)nt, -7l, -7l + n, work, extra);
            // visible to the caller without further synchronisation (checked for races)
            for (long i = 0; i < n; ++i) if (rec.data[(size_t)i] != 7 * i + 1) { Quiet q2; violation(rec.count[(size_t)i] ? "not-visible" : "lost", "element %ld of %ld (%ld workers, mode %ld) was %s when the loop returned", i, n, nt, mode, rec.count[(size_t)i] ? "not finished" : "never processed"); }
        }
        rec.returned = true;
        if (rec.nbusy) violation("unfinished", "%d bodies still run when the loop returns", rec.nbusy);
        for (long i = 0; i < n; ++i) if (rec.count[(size_t)i] != 1) violation("lost", "element %ld of %ld ran %d times", i, n, rec.count[(size_t)i]);
        if (extra) { long want_sum = 0; for (long i = 0; i < n; ++i) want_sum += 3 + i; if (rec.extra_sum.load() != want_sum) violation("arguments", "extra arguments not passed through: %ld instead of %ld", rec.extra_sum.load(), want_sum); }
        if (live_threads() != 1) violation("task-left-running", "%d tasks still run after the loop returned", live_threads() - 1);
        if (n == 0) probe("empty-range"); if (nt > n) probe("more-workers-than-elements"); if (nt < 0) probe("automatic-workers");
        mixhash((uint64_t)rec.maxbusy);
        R = nullptr;
    }
}
void gen(Plan& p, Rng& r) {
    p.par["hw"] = r.pick(std::vector<long>{0, 1, 2, 3, 4, 7});
    p.par["team"] = r.chance(1, 5) ? r.in(1, 3) : 0;
    long k = r.in(1, 3);
    for (long i = 0; i < k; ++i) {
        long mode = r.chance(1, 10) ? 0 : r.in(1, 2);
        long nt = r.chance(1, 6) ? -1 : r.in(1, 9);
        long n = r.chance(1, 10) ? 0 : r.chance(1, 3) ? r.in(1, 60) : r.in(1, 12);
        if (r.chance(1, 8)) n = nt > 0 ? nt * r.in(1, 3) + r.in(-1, 1) : n;
        if (n < 0) n = 0;
        p.add(0, "loop", {n, nt, mode, r.below(4), r.below(6), r.below(2)});
    }
    gen_schedule(p, r, 600);
}
Register reg(Scenario{"C05", "parallel-loop", 1, gen, run});
} // namespace
