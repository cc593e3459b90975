// C06-C09: elemental computations of the catalogue (fem_jobs.h).
#include "fem_jobs.h"
#include "tasks.h"
using namespace sim;
using namespace fj;

namespace {
long M(long x, long n) { long r = x % n; return r < 0 ? r + n : r; }
// operation: job (15 numbers), 15 way, 16 offset, 17 shortage, 18 which part is short, 19.. contents
enum { WAY = 15, OFF, LESS, WHICH, FILL, OUTFILL, STACKM, HEAPM, SCRATCH, NV };
V op_gen(Rng& r, int family = -1) {
    V v = gen_job(r, family);
    v.push_back(r.below(NWAYS)); v.push_back(r.below(64)); v.push_back(0); v.push_back(r.below(3));
    v.push_back(r.below(8)); v.push_back(r.below(8)); v.push_back(r.below(6)); v.push_back(r.below(8)); v.push_back(r.below(4));
    return v;
}
int pick_way(Job& j, long x) {
    for (int k = 0; k < NWAYS; ++k) { int w = (int)M(x + k, NWAYS); if (j.can(w)) return w; }
    return SEP;
}
const char* const way_name[NWAYS] = {"raw buffer", "plain arrays", "array of doubles", "array of integers", "pool", "stack"};
std::unique_ptr<Job> job_of(const Op& o, Env& env) { return std::unique_ptr<Job>(make_job(V(o.v.begin(), o.v.begin() + std::min<size_t>(15, o.v.size())), env)); }
// live blocks of the user around the workspace of a computation in the same pool
struct Around {
    typedef DynMem<>::MemPart Part; std::vector<std::unique_ptr<Part>> b; std::vector<PlainMemoryX<>> m;
    ~Around() { Loud l; b.clear(); }
    void add(DynMem<>& d, uint64_t seed) {
        size_t n = seed % 90; Part* t; PlainMemoryX<> x; LOUD(t = new Part(d.alloc(n, n % 11, 0)); x = t->getPlainMemoryX()); b.emplace_back(t); m.push_back(x);
        for (size_t k = 0; k < n; ++k) x.ddata[k] = 1e7 + (double)(seed % 1000) + (double)k;
        for (size_t k = 0; k < n % 11; ++k) x.idata[k] = (int)(seed % 1000 + k);
        seeds.push_back(seed);
    }
    std::vector<uint64_t> seeds;
    void check(const std::string& name) {
        for (size_t i = 0; i < m.size(); ++i) {
            size_t n = seeds[i] % 90;
            for (size_t k = 0; k < n; ++k) if (m[i].ddata[k] != 1e7 + (double)(seeds[i] % 1000) + (double)k) violation("other-block", "%s changes another live block of the pool", name.c_str());
            for (size_t k = 0; k < n % 11; ++k) if (m[i].idata[k] != (int)(seeds[i] % 1000 + k)) violation("other-block", "%s changes another live block of the pool", name.c_str());
        }
    }
};
struct Pool { // dynamic pool under test
    DynMem<>* p = nullptr;
    DynMem<>* get() { if (!p) LOUD(p = new DynMem<>()); return p; }
    ~Pool() { Loud l; delete p; }
    // no computation is running: the pool has no live block, so its storage can be compacted and is served from then on
    void check_idle(const char* when) {
        if (!p) return;
        const size_t N = 300000;
        uint64_t m;
        {
            Loud l;
            { auto a = p->alloc(1, 1, 1); auto b = p->alloc(N, N, 300); }
            p->defragment();
            { Quiet q; m = alloc_mark(); }
            { auto c = p->alloc(N + 1, N + 1, 301); }
        }
        size_t n = alloc_mark() - m;
        if (n) violation("pool-not-idle", "%s the pool cannot be compacted: blocks of a finished computation are still accounted", when);
    }
};
void build(Work& w, Job& j, int way, const Op& o, Pool& pool, long less) {
    if (way == DYN) { w.way = DYN; w.dyn = pool.get(); return; }
    if (way == STACK || !j.workspace()) { w.way = way == STACK ? STACK : SEP; return; }
    PlainMemoryX<> r = j.ask();
    w.build(r, way, o.at(OFF), less, (int)o.at(WHICH), j.plain_only());
}

// ---------------------------------------------------------------- C07
void gen07(Plan& p, Rng& r) {
    p.par["poison"] = r.below(8);
    bool less = r.chance(1, 3);
    long n = less ? 1 : r.in(1, 4);
    for (long i = 0; i < n; ++i) {
        V v = op_gen(r);
        if (less) { v[LESS] = r.chance(1, 2) ? r.in(1, 3) : r.in(1, 400); if (r.chance(1, 8)) v[LESS] = 1 << 24; }
        p.add(0, "job", v);
    }
}
void run07(const Plan& p) {
    Quiet q; nontrivial();
    set_poison((int)p.get("poison"), p.seed);
    Env env;
    for (const Op& o : p.ops) {
        op_begin(o);
        auto j = job_of(o, env);
        int way = pick_way(*j, o.at(WAY)); Pool pool;
        if (way == DYN || way == STACK || !j->workspace() || !j->sized()) if (o.at(LESS)) { op_end(); continue; }
        Work w; build(w, *j, way, o, pool, o.at(LESS));
        j->reset(1, p.seed);
        if (w.refused) { probe("too-small-refused"); op_end(); continue; }
        w.fill((int)o.at(FILL), mix(p.seed, (uint64_t)o.id));
        if (o.at(LESS)) expect_assert(true);
        Outcome r = j->run(w);
        if (o.at(LESS)) { probe(r.kind ? "too-small-reported" : "smaller-sufficient"); if (r.kind == 1 || r.kind == 2) violation("outcome", "%s with a too small workspace ends with %s", j->name.c_str(), r.str().c_str()); expect_assert(false); }
        else {
            if (r.kind) violation("workspace-refused", "%s with a workspace of exactly the reported size (%s) ends with %s", j->name.c_str(), way_name[way], r.str().c_str());
            probe((std::string("exact ") + way_name[way]).c_str());
            j->check_objects("after the computation");
            for (auto x : r.bits) mixhash(x);
        }
        op_end();
    }
}
// ---------------------------------------------------------------- C08
void gen08(Plan& p, Rng& r) {
    p.par["ref"] = r.below(3);
    V base = op_gen(r);
    long n = r.in(1, 4);
    for (long i = 0; i < n; ++i) {
        V v = op_gen(r); for (int k = 0; k < 15; ++k) v[(size_t)k] = base[(size_t)k];
        if (r.chance(1, 3)) { V h = op_gen(r); h[WAY] = v[WAY]; p.add(0, "history", h); }
        if (r.chance(1, 6)) p.add(0, r.chance(1, 2) ? "compact" : "clear");
        p.add(0, "job", v);
    }
}
void run08(const Plan& p) {
    Quiet q; nontrivial();
    Env env; Pool pool;
    V key; Outcome ref; bool have = false; std::string refname;
    for (const Op& o : p.ops) {
        op_begin(o);
        if (o.kind == "compact") { LOUD(pool.get()->defragment()); probe("compacted"); op_end(); continue; }
        if (o.kind == "clear") { { Loud l; delete pool.p; pool.p = nullptr; } op_end(); continue; }
        if (o.kind == "job") {
            V k(o.v.begin(), o.v.begin() + std::min<size_t>(15, o.v.size()));
            if (!have || k != key) { // the undisturbed computation: zeroed memory, separate arrays
                auto j = job_of(o, env); Work w; Pool own;
                set_poison(0, 1); dirty_stack(0, 1);
                build(w, *j, j->can(SEP) ? SEP : pick_way(*j, SEP), Op(), own, 0); w.fill(0, 1); j->reset(0, 1);
                ref = j->run(w); key = k; have = true;
                if (ref.kind) violation("outcome", "%s ends with %s", j->name.c_str(), ref.str().c_str());
            }
        }
        auto j = job_of(o, env);
        int way = pick_way(*j, o.at(WAY));
        Work w;
        set_poison((int)M(o.at(HEAPM), 8), mix(p.seed, 1 + (uint64_t)o.id));
        build(w, *j, way, o, pool, 0);
        w.fill((int)M(o.at(FILL), 8), mix(p.seed, 2 + (uint64_t)o.id));
        j->reset((int)M(o.at(OUTFILL), 8), mix(p.seed, 3 + (uint64_t)o.id));
        dirty_stack((int)M(o.at(STACKM), 8), mix(p.seed, 4 + (uint64_t)o.id));
        Around ar;
        if (way == DYN && M(o.at(SCRATCH), 2)) j->cb.scratch = pool.get();
        if (way == DYN && M(o.at(SCRATCH), 4) / 2) { DynMem<>& d = *pool.get(); for (int k = 0; k < 3; ++k) ar.add(d, mix(p.seed, (uint64_t)(o.id * 4 + k))); ar.m.erase(ar.m.begin() + 1); ar.seeds.erase(ar.seeds.begin() + 1); { Loud l; ar.b.erase(ar.b.begin() + 1); } probe("other-blocks-live"); }
        Outcome r = j->run(w);
        ar.check(j->name);
        if (o.kind == "history") { probe("history"); op_end(); continue; }
        probe(way_name[way]);
        if (!r.same(ref)) violation("result", "%s (%s, contents %ld/%ld/%ld/%ld): %s", j->name.c_str(), way_name[way], o.at(FILL), o.at(OUTFILL), o.at(STACKM), o.at(HEAPM), r.diff(ref).c_str());
        for (auto x : r.bits) mixhash(x);
        op_end();
    }
}
// ---------------------------------------------------------------- C09
void gen09(Plan& p, Rng& r) {
    p.par["poison"] = r.below(8); p.par["iso"] = r.chance(1, 2);
    long n = r.in(1, 4);
    V v = op_gen(r, r.chance(1, 6) ? 5 : -1);
    bool pool = r.chance(1, 2);
    for (long i = 0; i < n; ++i) {
        if (i && r.chance(1, 3)) { v = op_gen(r); }
        if (pool) v[WAY] = DYN;
        Op& o = p.add(0, "job", v);
        long k = r.below(8);
        o.fail = k == 0 ? 0 : k < 4 ? (int)r.in(1, 4) : k < 7 ? (int)r.in(1, 40) : (int)r.in(1, 500);
        if (r.chance(1, 5)) p.add(0, r.chance(1, 2) ? "compact" : "idle");
    }
}
void run09(const Plan& p) {
    Quiet q; nontrivial();
    set_poison((int)p.get("poison"), p.seed);
    Pool pool;
    {
        Env env;
        for (const Op& o : p.ops) {
            op_mark(o.id);
            if (o.kind == "compact") { if (pool.p) LOUD(pool.p->defragment()); continue; }
            if (o.kind == "idle") { pool.check_idle("between computations"); continue; }
            auto j = job_of(o, env);
            int way = pick_way(*j, o.at(WAY));
            Work w; build(w, *j, way, o, pool, 0);
            w.fill(o.id % 8, p.seed); j->reset(o.id % 8, p.seed);
            // the same computation in a process that has not failed (and, for the first one, has computed nothing before)
            Outcome iso; bool have_iso = false;
            if (p.get("iso")) {
                std::vector<uint64_t> b;
                if (isolated([&](std::vector<uint64_t>& x) { Env env2; auto j2 = job_of(o, env2); Pool own; Work w2; build(w2, *j2, way, o, own, 0); w2.fill(1, p.seed); j2->reset(1, p.seed); Outcome r = j2->run(w2); x.push_back((uint64_t)r.kind); x.insert(x.end(), r.bits.begin(), r.bits.end()); }, b) && b.size() && !b[0]) { iso.bits.assign(b.begin() + 1, b.end()); have_iso = true; probe("separate-process"); }
            }
            if (way == DYN && M(o.at(SCRATCH), 2)) j->cb.scratch = pool.get();
            uint64_t mark = alloc_mark();
            arm(o.fail);
            Outcome r = j->run(w);
            bool hit = fired(); arm(0);
            if (hit) {
                probe("failed-computation");
                if (r.kind == 0) violation("error-lost", "%s (%s): fault point %d fails, but the computation returns as if it had succeeded", j->name.c_str(), way_name[way], o.fail);
                if (r.kind == 3) violation("error-changed", "%s (%s): fault point %d fails, the caller gets \"%s\"", j->name.c_str(), way_name[way], o.fail, r.what.c_str());
                if (r.kind == 1) probe("failed-callback"); else probe("failed-allocation");
            } else if (r.kind) violation("outcome", "%s (%s) ends with %s", j->name.c_str(), way_name[way], r.str().c_str());
            if (way != DYN) {
                size_t bytes; void* first; size_t n = live_since(mark, &bytes, &first);
                if (n) violation("leak", "%s (%s) %s leaves %zu blocks (%zu bytes)", j->name.c_str(), way_name[way], hit ? "after a failure" : "after success", n, bytes);
            }
            j->check_objects(hit ? "after a failure" : "after success");
            r = Outcome();
            // repeat undisturbed, and compare with the same computation by fresh objects
            w.fill(1, p.seed); j->reset(1, p.seed);
            Outcome again = j->run(w);
            Outcome ref;
            {
                Env env2; auto j2 = job_of(o, env2); Pool own; Work w2; build(w2, *j2, way, o, own, 0);
                w2.fill(1, p.seed); j2->reset(1, p.seed); ref = j2->run(w2);
            }
            if (ref.kind) violation("outcome", "%s (%s) ends with %s", j->name.c_str(), way_name[way], ref.str().c_str());
            if (!again.same(ref)) violation("repeat", "%s (%s) repeated after %s: %s", j->name.c_str(), way_name[way], hit ? "a failure" : "success", again.diff(ref).c_str());
            if (have_iso && !again.same(iso)) violation("repeat", "%s (%s) repeated after %s, compared with an undisturbed process: %s", j->name.c_str(), way_name[way], hit ? "a failure" : "success", again.diff(iso).c_str());
            j->check_objects("after repetition");
            for (auto x : again.bits) mixhash(x);
        }
    }
    pool.check_idle("at the end");
}
// ---------------------------------------------------------------- C06
void gen06(Plan& p, Rng& r) {
    p.par["mode"] = r.below(4) ? 1 : 2;
    p.par["poison"] = r.below(8);
    int nt = (int)r.in(2, 4);
    V base = op_gen(r);
    bool same = r.chance(1, 3), family = r.chance(1, 2);
    for (int t = 0; t < nt; ++t) for (long i = 0, n = r.in(1, 2); i < n; ++i) {
        V v = op_gen(r);
        if (same) for (int k = 0; k < 15; ++k) v[(size_t)k] = base[(size_t)k];
        else if (family) for (int k = 0; k < 9; ++k) if (r.chance(3, 4)) v[(size_t)k] = base[(size_t)k];
        Op& o = p.add(t, "job", v);
        if (r.chance(1, 10)) o.fail = (int)r.in(1, 6);
    }
    gen_schedule(p, r, 20000);
}
void run06(const Plan& p) {
    Quiet q;
    set_poison((int)p.get("poison"), p.seed);
    struct One { std::unique_ptr<Job> j; std::unique_ptr<Pool> pool; std::unique_ptr<Work> w; Outcome r; bool hit = false, done = false; int way = SEP; };
    std::map<int, One> all;
    {
        Env env; long active = 0;
        for (const Op& o : p.ops) { One& x = all[o.id]; x.j = job_of(o, env); x.pool.reset(new Pool()); x.w.reset(new Work()); x.way = pick_way(*x.j, o.at(WAY)); }
        run_tasks(p, (int)p.get("mode", 1), [&](const Op& o) {
            One& x = all[o.id];
            arm(0);
            build(*x.w, *x.j, x.way, o, *x.pool, 0);
            x.w->fill((int)M(o.at(FILL), 8), mix(p.seed, (uint64_t)o.id)); x.j->reset((int)M(o.at(OUTFILL), 8), mix(p.seed, (uint64_t)o.id));
            if (x.way == DYN && M(o.at(SCRATCH), 2)) x.j->cb.scratch = x.pool->get();
            if (++active > 1) { probe("computations-overlap"); nontrivial(); }
            arm(o.fail);
            x.r = x.j->run(*x.w);
            x.hit = fired(); arm(0);
            --active;
            x.j->check_objects("after the computation"); x.done = true;
        });
        // alone, with fresh objects
        for (const Op& o : p.ops) {
            One& x = all[o.id];
            if (x.hit) { probe("failing-task"); continue; }
            Env env2; auto j2 = job_of(o, env2); Pool own; Work w2; build(w2, *j2, x.way, o, own, 0);
            w2.fill((int)M(o.at(FILL), 8), mix(p.seed, (uint64_t)o.id)); j2->reset((int)M(o.at(OUTFILL), 8), mix(p.seed, (uint64_t)o.id));
            Outcome ref = j2->run(w2);
            if (!x.r.same(ref)) violation("differs-from-alone", "task %d: %s (%s): %s", o.th, x.j->name.c_str(), way_name[x.way], x.r.diff(ref).c_str());
            for (auto b : ref.bits) mixhash(b);
        }
        all.clear();
    }
}
Register r06({"C06", "concurrent", 1, gen06, run06});
Register r07({"C07", "workspace", 1, gen07, run07});
Register r08({"C08", "history", 1, gen08, run08});
Register r09({"C09", "failures", 1, gen09, run09});
}
