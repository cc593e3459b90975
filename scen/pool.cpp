// C01, C02: histories of one workspace pool against a model of live blocks.
#include "common.h"
#include "anifem++/fem/fem_memory.h"
using namespace sim;

namespace {
template <class R, class I> struct View { R* d; I* i; Ani::DenseMatrix<R>* m; size_t nd, ni, nm; };

struct Holder { // type-erased owner of one block
    virtual ~Holder() {}
    virtual void clear() = 0;
    virtual bool move_from(Holder* o) = 0;   // move assignment; false: other type
    virtual Holder* move_new() = 0;          // move construction
    virtual void self_move() = 0;
    virtual void* ptr(int k) = 0;
    virtual size_t count(int k) = 0;         // elements
    virtual size_t elem(int k) = 0;          // element size
};
template <class R, class I> struct HolderT : Holder {
    using Part = typename Ani::DynMem<R, I>::MemPart;
    Part p;
    HolderT() {}
    HolderT(Part&& q) : p(std::move(q)) {}
    ~HolderT() { LOUD(p.clear()); }
    void clear() override { LOUD(p.clear()); }
    bool move_from(Holder* o) override { auto* q = dynamic_cast<HolderT*>(o); if (!q) return false; LOUD(p = std::move(q->p)); return true; }
    Holder* move_new() override { Loud l; return new HolderT(std::move(p)); }
    void self_move() override { Part& q = p; LOUD(p = std::move(q)); }
    void* ptr(int k) override { auto x = p.getPlainMemoryX(); return k == 0 ? (void*)x.ddata : k == 1 ? (void*)x.idata : (void*)x.mdata; }
    size_t count(int k) override { auto x = p.getPlainMemoryX(); return k == 0 ? x.dSize : k == 1 ? x.iSize : x.mSize; }
    size_t elem(int k) override { return k == 0 ? sizeof(R) : k == 1 ? sizeof(I) : sizeof(Ani::DenseMatrix<R>); }
};
struct Block { Holder* h = nullptr; size_t n[3] = {0, 0, 0}; void* at[3] = {nullptr, nullptr, nullptr}; uint64_t tag = 0; int unit = 1; };

struct Model {
    std::vector<Block> slots;
    size_t live[3] = {0, 0, 0}, peak[3] = {0, 0, 0};
    long nlive = 0;
    int esz[3]; // element size in the storage of the pool
    const char* prop;

    void fill(Block& b) {
        for (int k = 0; k < 3; ++k) {
            unsigned char* c = (unsigned char*)b.at[k];
            for (size_t j = 0, e = b.n[k] * b.h->elem(k); j < e; ++j) c[j] = (unsigned char)mix(b.tag + k, j);
        }
    }
    void verify(const char* when) {
        for (size_t s = 0; s < slots.size(); ++s) {
            Block& b = slots[s];
            if (!b.h) continue;
            for (int k = 0; k < 3; ++k) if (b.n[k]) {
                if (b.h->ptr(k) != b.at[k]) violation("moved", "after %s the address of live block %zu changed", when, s);
                size_t e = b.n[k] * b.h->elem(k);
                if (!addressable(b.at[k], e)) violation("lost-storage", "after %s live block %zu (%zu bytes) is no longer backed by allocated storage", when, s, e);
                unsigned char* c = (unsigned char*)b.at[k];
                for (size_t j = 0; j < e; ++j) if (c[j] != (unsigned char)mix(b.tag + k, j)) violation("contents", "after %s the contents of live block %zu changed at byte %zu of %zu", when, s, j, e);
            }
        }
    }
    void check_new(Block& b, size_t self) {
        for (int k = 0; k < 3; ++k) {
            if (b.h->count(k) < b.n[k]) violation("size", "a block has %zu slots of kind %d, %zu requested", b.h->count(k), k, b.n[k]);
            if (!b.n[k]) continue;
            b.at[k] = b.h->ptr(k);
            size_t e = b.n[k] * b.h->elem(k);
            if (!b.at[k]) violation("null-block", "a block of %zu slots of kind %d has no storage", b.n[k], k);
            if ((uintptr_t)b.at[k] % (k == 1 ? 4 : 8) && b.h->elem(k) >= 8) violation("alignment", "misaligned block");
            if (!addressable(b.at[k], e)) violation("outside-storage", "a new block of %zu bytes is not inside the storage of the pool", e);
            for (size_t s = 0; s < slots.size(); ++s) if (s != self && slots[s].h) for (int q = 0; q < 3; ++q) if (slots[s].n[q]) {
                char* a0 = (char*)b.at[k]; char* a1 = a0 + e; char* b0 = (char*)slots[s].at[q]; char* b1 = b0 + slots[s].n[q] * slots[s].h->elem(q);
                if (a0 < b1 && b0 < a1) violation("overlap", "a new block of %zu bytes overlaps live block %zu", e, s);
            }
        }
    }
    void drop(Block& b) {
        for (int k = 0; k < 3; ++k) live[k] -= b.n[k];
        nlive--; b = Block();
    }
    bool fragmented() { // two live blocks in different storage of the same kind
        for (int k = 0; k < 3; ++k) {
            uint64_t first = 0;
            for (auto& b : slots) if (b.h && b.n[k]) {
                uint64_t id = block_serial(b.at[k]);
                if (!first) first = id; else if (id != first) return true;
            }
        }
        return false;
    }
};
// is some part of the block in storage allocated after `mark`
template <class Part> bool grown(Part& part, uint64_t mark) {
    auto x = part.getPlainMemoryX();
    if (x.dSize && block_serial(x.ddata) > mark) return true;
    if (x.iSize && block_serial(x.idata) > mark) return true;
    if (x.mSize && block_serial(x.mdata) > mark) return true;
    return false;
}

template <class R, class I> void run_pool(const Plan& p, bool accounting) {
    Quiet q;
    set_poison((int)p.get("poison", 1), p.seed);
    using Pool = Ani::DynMem<R, I>;
    using R1 = float; using I1 = int;
    Pool* pool; LOUD(pool = new Pool());
    uint64_t mark0 = alloc_mark();
    auto* ad = new decltype(Ani::makeAdaptor<R1, I1>(*pool))(Ani::makeAdaptor<R1, I1>(*pool));
    Model M; M.slots.resize(12); M.prop = accounting ? "C02" : "C01";
    long ops_done = 0, releases = 0;
    size_t last_idle[3] = {0, 0, 0}; bool have_idle = false;
    for (const Op& o : p.ops) {
        op_begin(o);
        size_t s = (size_t)(o.at(0) % 12);
        Block& b = M.slots[s];
        if (o.kind == "alloc" || o.kind == "xalloc") {
            if (b.h) { Holder* h = b.h; M.drop(b); LOUD(delete h); releases++; M.verify("release"); }
            bool idle = M.nlive == 0;
            size_t n[3] = {(size_t)o.at(1), (size_t)o.at(2), (size_t)o.at(3)};
            uint64_t mark = alloc_mark();
            bool ok = false; Holder* h = nullptr;
            try {
                if (o.kind == "alloc") { Loud l; auto part = pool->alloc(n[0], n[1], n[2]); Quiet q2; h = new HolderT<R, I>(std::move(part)); }
                else { Loud l; auto part = ad->alloc(n[0], n[1], n[2]); Quiet q2; h = new HolderT<R1, I1>(std::move(part)); }
                ok = true;
            } catch (const std::bad_alloc&) {
                if (!fired()) violation("spurious-failure", "a request of (%zu,%zu,%zu) failed without memory being exhausted", n[0], n[1], n[2]);
                probe("failed-request");
            }
            if (ok) {
                b.h = h; for (int k = 0; k < 3; ++k) b.n[k] = n[k];
                b.tag = mix(p.seed, (uint64_t)o.id); b.unit = 1;
                M.check_new(b, s);
                M.fill(b);
                M.nlive++;
                for (int k = 0; k < 3; ++k) { M.live[k] += n[k]; M.peak[k] = std::max(M.peak[k], M.live[k]); }
                if (accounting && idle && have_idle && n[0] <= last_idle[0] && n[1] <= last_idle[1] && n[2] <= last_idle[2] && ((n[0] && block_serial(b.at[0]) > mark) || (n[1] && block_serial(b.at[1]) > mark) || (n[2] && block_serial(b.at[2]) > mark)))
                    violation("pool-growth", "an idle pool that has served (%zu,%zu,%zu) allocates new storage for (%zu,%zu,%zu)", last_idle[0], last_idle[1], last_idle[2], n[0], n[1], n[2]);
                if (idle) { if (!have_idle) { have_idle = true; for (int k = 0; k < 3; ++k) last_idle[k] = n[k]; } else if (n[0] >= last_idle[0] && n[1] >= last_idle[1] && n[2] >= last_idle[2]) for (int k = 0; k < 3; ++k) last_idle[k] = n[k]; }
                if (n[0] && block_serial(b.at[0]) > mark) probe("pool-grew"); else if (!idle) probe("served-from-capacity");
            }
            M.verify("a request");
        } else if (o.kind == "release") {
            if (b.h) {
                Holder* h = b.h;
                bool top = true; (void)top;
                if (o.at(1) % 3 == 0) { h->clear(); M.drop(b); M.verify("clear"); if (o.at(1) % 2 == 0) h->clear(); LOUD(delete h); }
                else { M.drop(b); LOUD(delete h); }
                releases++;
                M.verify("release");
            }
        } else if (o.kind == "move") { // move construct into a new holder, or assign over another one
            size_t t = (size_t)(o.at(1) % 12); Block& c = M.slots[t];
            if (b.h && s != t) {
                if (!c.h) { Holder* h = b.h->move_new(); Holder* old = b.h; c = b; c.h = h; b = Block(); LOUD(delete old); }
                else if (c.h->move_from(b.h)) {
                    Holder* tgt = c.h; Holder* src = b.h;
                    for (int k = 0; k < 3; ++k) M.live[k] -= c.n[k];
                    M.nlive--;
                    c = b; c.h = tgt; b = Block(); releases++;
                    LOUD(delete src);
                    probe("moved-over-live");
                }
                M.verify("a move");
            }
        } else if (o.kind == "selfmove") {
            if (b.h) { b.h->self_move(); M.verify("a self move"); }
        } else if (o.kind == "swap") {
            size_t t = (size_t)(o.at(1) % 12); Block& c = M.slots[t];
            auto* x = dynamic_cast<HolderT<R, I>*>(b.h); auto* y = dynamic_cast<HolderT<R, I>*>(c.h);
            if (x && y && x != y) { LOUD(std::swap(x->p, y->p)); std::swap(b, c); std::swap(b.h, c.h); M.verify("a swap"); }
        } else if (o.kind == "compact") {
            bool frag = M.fragmented(), threw = false, oom = false;
            try { if (o.at(1) % 4 == 3) LOUD(ad->defragment()); else LOUD(pool->defragment()); }
            catch (const std::bad_alloc&) { oom = true; if (!fired()) violation("spurious-failure", "compaction failed without memory being exhausted"); probe("failed-compaction"); have_idle = false; }
            catch (const std::exception&) { threw = true; }
            if (oom) { for (int k = 0; k < 3; ++k) M.peak[k] = M.live[k]; have_idle = false; }
            if (accounting) {
                if (threw && M.nlive == 0) violation("idle-refused", "compaction of an idle pool is refused");
                if (!threw && !oom && M.nlive > 0 && frag) violation("busy-compacted", "compaction of a fragmented pool with %ld live blocks is not refused", M.nlive);
            }
            if (threw) probe("compaction-refused"); else if (!oom && M.nlive == 0) probe("compacted");
            M.verify("compaction");
            if (accounting && !threw && !oom && M.nlive == 0) { // capacity kept
                arm(0);
                uint64_t m0 = alloc_mark(); bool g;
                { Loud l; auto part = pool->alloc(M.peak[0], M.peak[1], M.peak[2]); g = grown(part, m0); }
                if (g) violation("capacity-lost", "after compaction a request of (%zu,%zu,%zu), once live at the same time, needs new storage", M.peak[0], M.peak[1], M.peak[2]);
            }
        }
        mixhash(live_bytes());
        op_end();
        ops_done++;
    }
    // recovery: release everything, compact, request the peak twice
    bool rev = p.get("final_rev") != 0;
    for (size_t k = 0; k < M.slots.size(); ++k) { Block& b = M.slots[rev ? M.slots.size() - 1 - k : k]; if (b.h) { Holder* h = b.h; M.drop(b); LOUD(delete h); M.verify("release"); releases++; } }
    if (accounting) {
        try { LOUD(pool->defragment()); } catch (const std::exception& e) { violation("idle-refused", "all blocks are released but compaction is refused: %s", e.what()); }
        uint64_t m0 = alloc_mark(); bool g;
        try {
            { Loud l; auto part = pool->alloc(M.peak[0], M.peak[1], M.peak[2]); g = grown(part, m0); }
            if (g) violation("capacity-lost", "after releasing all blocks and compaction a request of (%zu,%zu,%zu), once live at the same time, needs new storage", M.peak[0], M.peak[1], M.peak[2]);
            // balanced use of an idle pool: never grows
            for (int r = 0; r < 4; ++r) {
                Loud l;
                auto a = pool->alloc(M.peak[0] / 2, M.peak[1] / 2, M.peak[2] / 2);
                { auto c = pool->alloc(M.peak[0] - M.peak[0] / 2, M.peak[1] - M.peak[1] / 2, M.peak[2] - M.peak[2] / 2); }
                auto d = pool->alloc(M.peak[0] - M.peak[0] / 2, M.peak[1] - M.peak[1] / 2, M.peak[2] - M.peak[2] / 2);
                if (grown(a, m0) || grown(d, m0)) g = true;
            }
            if (g) violation("pool-growth", "balanced requests inside the compacted capacity make the pool grow");
        } catch (const std::bad_alloc&) { violation("spurious-failure", "request failed after recovery"); }
    }
    delete ad;
    LOUD(delete pool);
    if (live_since(mark0) != 0) { size_t by; live_since(mark0, &by); violation("leak", "%zu blocks (%zu bytes) leaked by the pool", live_since(mark0), by); }
    if (releases > 1) nontrivial();
    mixhash((uint64_t)ops_done);
}
void run_c01(const Plan& p) { Quiet q; if (p.get("int") == 0) run_pool<double, int>(p, false); else run_pool<double, long>(p, false); }
void run_c02(const Plan& p) { Quiet q; if (p.get("int") == 0) run_pool<double, int>(p, true); else run_pool<double, long>(p, true); }

void gen(Plan& p, Rng& r) {
    p.par["int"] = r.below(2);
    p.par["poison"] = r.below(8);
    p.par["final_rev"] = r.below(2);
    bool faults = r.chance(1, 2);
    long maxd = r.pick(std::vector<long>{3, 10, 40}), maxi = r.pick(std::vector<long>{0, 3, 20}), maxm = r.pick(std::vector<long>{0, 2, 6});
    bool lifo = r.chance(1, 4), adaptor = r.chance(1, 2);
    long prel = r.in(2, 5), pcomp = r.in(0, 2), pmove = r.in(0, 2);
    long n = r.in(3, 45);
    std::vector<long> stack;
    bool sized = r.chance(1, 3); // start with a block that leaves room
    if (sized) { p.add(0, "alloc", {11, maxd * 5, maxi * 5, maxm * 5}); p.add(0, "release", {11, 1}); }
    for (long k = 0; k < n; ++k) {
        long w = r.below(6 + prel + pcomp + pmove);
        auto sz = [&](long m) { return r.chance(1, 6) ? 0 : r.in(0, m); };
        if (w < 6) {
            long s = lifo ? (long)stack.size() % 11 : r.below(11);
            long d = sz(maxd), i = sz(maxi), m = sz(maxm);
            if (r.chance(1, 20)) d *= 7;
            Op& o = p.add(0, adaptor && r.chance(1, 3) ? "xalloc" : "alloc", {s, d, i, m});
            if (faults && r.chance(1, 5)) o.fail = (int)r.in(1, 5);
            stack.push_back(s);
        } else if (w < 6 + prel) {
            long s = r.below(11);
            if (lifo && !stack.empty()) { s = stack.back(); stack.pop_back(); }
            p.add(0, "release", {s, r.below(12)});
        } else if (w < 6 + prel + pcomp) {
            if (r.chance(1, 2)) for (long s = 0; s < 11; ++s) p.add(0, "release", {s, 1});
            Op& o = p.add(0, "compact", {0, r.below(8)});
            if (faults && r.chance(1, 4)) o.fail = (int)r.in(1, 3);
        } else {
            long kind = r.below(5);
            if (kind == 0) p.add(0, "selfmove", {r.below(11)});
            else if (kind == 1) p.add(0, "swap", {r.below(11), r.below(11)});
            else p.add(0, "move", {r.below(11), r.below(11)});
        }
    }
}
Register r1(Scenario{"C01", "pool-blocks", 1, gen, run_c01});
Register r2(Scenario{"C02", "pool-accounting", 1, gen, run_c02});
} // namespace
