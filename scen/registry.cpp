// C03: the registry of per-task pools.
#include "tasks.h"
#include "anifem++/fem/fem_memory_parallel.h"
#include <map>
#include <set>
using namespace sim;

namespace {
template <class Reg, class I> struct World {
    struct Slot { int owner = -1; uint64_t free_since = 0; uint64_t gen = 0; void* pool = nullptr; };
    Reg* reg;
    std::map<long, Slot> slots;              // known slots
    long hwm = 0;                            // slots ever seen are below it
    int single = 0, range = 0, other = 0;    // operations in progress
    uint64_t clock = 1;
    uint64_t disturbed = 0;                  // last time another operation was in progress
    struct Hold { long a, b; bool rng; };
    std::vector<std::vector<Hold>> held;     // per task

    void own(long s, int t, bool rng) {
        Slot& x = slots[s];
        if (x.owner >= 0) violation("shared-slot", "task %d is given slot %ld that task %d holds", t, s, x.owner);
        x.owner = t; x.pool = nullptr;
        if (s >= hwm) hwm = s + 1;
        (void)rng;
    }
    void acquire(const Op& o) {
        int t = o.th; uint64_t start = ++clock; if (other || range) disturbed = clock;
        single++; I id = -1; bool ok = false;
        try { Loud l; id = reg->alloc(); ok = true; } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "acquiring a slot fails without memory being exhausted"); probe("failed-acquire"); }
        single--; ++clock;
        if (!ok) return;
        if (id < 0) violation("slot-number", "slot %ld", (long)id);
        if (id >= hwm && !range) {
            long f = 0; for (auto& s : slots) if (s.second.owner == -1 && s.second.free_since && s.second.free_since < start) f++;
            if (f > single) violation("not-reused", "a new slot %ld is made although %ld released slots are available", (long)id, f);
        } else if (id < hwm) probe("slot-reused");
        own(id, t, false);
        held[(size_t)t].push_back({(long)id, (long)id + 1, false});
        check(id, t);
        if (single || range || other) probe("acquire-overlaps");
    }
    void acquire_range(const Op& o, long n) {
        int t = o.th; uint64_t start = ++clock; (void)start;
        bool all_free = true; for (auto& s : slots) if (s.second.owner >= 0) all_free = false;
        bool alone = !single && !range && !other; long h0 = hwm; uint64_t c0 = clock;
        range++; std::pair<I, I> r; bool ok = false;
        try { Loud l; r = reg->alloc_range((I)n); ok = true; } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "acquiring a range fails without memory being exhausted"); probe("failed-range"); }
        range--; bool quiet = alone && clock == c0; ++clock;
        if (!ok) return;
        if (r.second - r.first != n || r.first < 0) violation("range-length", "a range of %ld slots is [%ld,%ld)", n, (long)r.first, (long)r.second);
        if (n && all_free && quiet && r.second > std::max(h0, n)) violation("not-reused", "a range [%ld,%ld) is made although all %ld slots are available", (long)r.first, (long)r.second, h0);
        if (r.first < h0 && n) { probe("range-reused"); for (auto& s : slots) if (s.second.owner == -1) s.second.free_since = 0; } // whether the rest of the slots survives is up to the registry
        for (long s = r.first; s < r.second; ++s) own(s, t, true);
        held[(size_t)t].push_back({(long)r.first, (long)r.second, true});
        for (long s = r.first; s < r.second; ++s) check(s, t);
        probe("range");
    }
    void* check(long s, int t) { // look up
        void* p; ++clock; other++;
        { Loud l; p = (void*)reg->get((I)s); }
        other--; ++clock;
        Slot& x = slots[s];
        if (x.owner != t) harness_error("slot not owned");
        if (!p) violation("null-pool", "slot %ld has no pool", s);
        if (x.pool && x.pool != p) violation("pool-changed", "the pool of slot %ld changed while it is held", s);
        for (auto& y : slots) if (y.first != s && y.second.owner >= 0 && y.second.pool == p) violation("shared-pool", "slots %ld and %ld have the same pool", s, y.first);
        x.pool = p;
        return p;
    }
    void use(const Op& o) {
        auto& H = held[(size_t)o.th]; if (H.empty()) return;
        Hold h = H[(size_t)(o.at(0) % (long)H.size())]; if (h.b == h.a) return;
        long s = h.a + o.at(1) % (h.b - h.a);
        check(s, o.th);
        ++clock; other++;
        size_t n = (size_t)o.at(2);
        try {
            Loud l;
            auto* pool = reg->get((I)s);
            auto part = pool->alloc(n, n / 2, o.at(3) % 3 == 0 ? 1 : 0);
            auto x = part.getPlainMemoryX();
            for (size_t i = 0; i < n; ++i) x.ddata[i] = (double)(100 * o.id + (long)i);
            for (long k = 0; k < o.at(3); ++k) yield_point();
            if (o.at(4)) { auto q = pool->alloc(3 * n + 1, 0, 0); q.getPlainMemory().ddata[3 * n] = 1; }
            for (size_t i = 0; i < n; ++i) if (x.ddata[i] != (double)(100 * o.id + (long)i)) { Quiet q; violation("contents", "memory from slot %ld changed under its owner", s); }
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "use of slot %ld fails", s); probe("failed-use"); }
        if (o.at(5) == 1) { try { Loud l; reg->get((I)s)->defragment(); } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "compaction of slot %ld fails", s); } catch (const std::exception& e) { violation("idle-refused", "compaction of the idle pool of slot %ld: %s", s, e.what()); } }
        other--; ++clock;
    }
    void release(const Op& o) {
        auto& H = held[(size_t)o.th]; if (H.empty()) return;
        size_t k = (size_t)(o.at(0) % (long)H.size()); Hold h = H[k];
        H.erase(H.begin() + (long)k);
        ++clock; other++;
        for (long s = h.a; s < h.b; ++s) { slots[s].owner = -1; slots[s].free_since = 0; slots[s].pool = nullptr; slots[s].gen = clock; }
        uint64_t gen = clock;
        auto once = [&](auto f) { try { Loud l; f(); } catch (const std::bad_alloc&) {
            if (!fired()) violation("spurious-failure", "release fails without memory being exhausted"); probe("failed-release"); arm(0);
            Loud l; f(); } };
        if (!h.rng) once([&] { reg->release((I)h.a); });
        else if (o.at(1) % 2) { long n = h.b - h.a; long rot = n ? o.at(2) % n : 0; for (long i = 0; i < n; ++i) { long s = h.a + (i + rot) % n; once([&] { reg->release((I)s); }); } probe("range-released-singly"); }
        else once([&] { reg->release_range({(I)h.a, (I)h.b}); });
        other--; ++clock;
        for (long s = h.a; s < h.b; ++s) if (slots[s].owner == -1 && slots[s].gen == gen) slots[s].free_since = clock;
        probe("released");
    }
    void finish(const Plan& p) {
        long fin = p.get("fin");
        Op o; o.th = 0;
        if (fin == 0) { for (size_t t = 0; t < held.size(); ++t) while (!held[t].empty()) { o.th = (int)t; release(o); } }
        else if (fin <= 2) { LOUD(reg->release_all()); for (auto& h : held) h.clear(); for (auto& s : slots) { s.second.owner = -1; s.second.free_since = 0; s.second.pool = nullptr; } probe("release-all"); }
        else { LOUD(reg->clear()); for (auto& h : held) h.clear(); slots.clear(); hwm = 0; probe("clear"); }
        o.th = 0; ++clock;
        if (p.get("fin_range") && !p.get("fin_single")) acquire_range(o, p.get("fin_range"));
        // as many slots as were ever there, plus some
        std::set<void*> pools; long n = hwm + 2;
        for (long k = 0; k < n; ++k) { acquire(o); if (held[0].empty()) violation("lost-slot", "no slot"); pools.insert(check(held[0].back().a, 0)); }
        if ((long)pools.size() != n) violation("shared-pool", "%ld slots have %zu pools", n, pools.size());
        // all are usable
        for (size_t k = 0; k < held[0].size(); ++k) { Op u; u.th = 0; u.v = {(long)k, 0, 5, 1, 1, 1}; use(u); }
        if (p.get("fin_single")) { while (!held[0].empty()) { Op r; r.th = 0; r.v = {p.get("fin_single") == 1 ? 0 : (long)held[0].size() - 1}; release(r); } acquire_range(o, p.get("fin_range")); }
    }
};
template <class M, class I> void run_m(const Plan& p) {
    Quiet q;
    using Reg = Ani::DynMemParallel<double, I, M>;
    set_poison((int)p.get("poison"), p.seed);
    World<Reg, I> W; uint64_t mark = alloc_mark();
    LOUD(W.reg = new Reg());
    W.held.resize((size_t)std::max(1, p.threads()));
    run_tasks(p, (int)p.get("tasks"), [&](const Op& o) {
        if (o.kind == "acq") W.acquire(o); else if (o.kind == "range") W.acquire_range(o, o.at(0)); else if (o.kind == "use") W.use(o);
        else if (o.kind == "rel") W.release(o); else if (o.kind == "nap") { Loud l; for (long k = 0; k < o.at(0); ++k) yield_point(); }
    });
    W.finish(p);
    LOUD(delete W.reg);
    if (live_since(mark)) violation("leak", "%zu blocks leaked by the registry", live_since(mark));
    if (p.ops.size() > 2) nontrivial();
    mixhash((uint64_t)W.hwm);
}
void run(const Plan& p) {
    Quiet q;
    bool i = p.get("int") != 0; long m = p.get("mutex");
    if (m == 0 && p.threads() <= 1) { if (i) run_m<mutex_none, int>(p); else run_m<mutex_none, long>(p); return; }
#ifdef WITH_OPENMP
    if (m == 2) { if (i) run_m<mutex_omp, int>(p); else run_m<mutex_omp, long>(p); return; }
#endif
    if (i) run_m<mutex_std, int>(p); else run_m<mutex_std, long>(p);
}
void gen(Plan& p, Rng& r) {
    p.par["int"] = r.below(2); p.par["poison"] = r.below(8);
    int nt = r.chance(1, 6) ? 1 : (int)r.in(2, 4);
    p.par["mutex"] = nt == 1 ? r.below(3) : r.in(1, 2);
    p.par["tasks"] = r.in(1, 2);
    p.par["fin"] = r.below(4); p.par["fin_range"] = r.below(6); p.par["fin_single"] = r.below(3);
    bool faults = r.chance(1, 2); bool ranges = r.chance(2, 3);
    for (int t = 0; t < nt; ++t) {
        long n = nt == 1 ? r.in(3, 25) : r.in(1, 8);
        for (long k = 0; k < n; ++k) {
            long w = r.below(10); Op* o = nullptr;
            if (k == 0 || w < 3) o = ranges && r.chance(1, 3) ? &p.add(t, "range", {r.below(5)}) : &p.add(t, "acq");
            else if (w < 6) o = &p.add(t, "use", {r.below(8), r.below(5), r.in(0, 9), r.below(3), r.below(2), r.below(4)});
            else if (w < 9) o = &p.add(t, "rel", {r.below(8), r.below(4), r.below(4)});
            else p.add(t, "nap", {r.below(4)});
            if (o && faults && r.chance(1, 4)) o->fail = (int)r.in(1, 6);
        }
    }
    gen_schedule(p, r, 1500);
}
Register reg(Scenario{"C03", "pool-registry", 1, gen, run});
} // namespace
