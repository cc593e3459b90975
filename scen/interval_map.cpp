// C12: the map from intervals to values. Reference: the value of every key, keys being a small range of integers plus
// the two infinite tails.
#include "tasks.h"
#include <sstream>
#include "anifem++/interval/interval_map.h"
#include <algorithm>
using namespace sim;

namespace {
const long R = 10; // keys of the operations: -R..R
template <class T> struct Val;
template <> struct Val<long> { static long make(long k) { return k; } static long num(const long& v) { return v; } };
template <> struct Val<int> { static int make(long k) { return (int)k; } static long num(const int& v) { return v; } };
template <> struct Val<std::string> {
    static std::string make(long k) { return k == 3 ? std::string("value_that_does_not_fit_in_place_3") : std::to_string(k); }
    static long num(const std::string& v) { return v.empty() ? -1 : v.size() > 5 ? 3 : atol(v.c_str()); }
};
// value of each atom; atom 0: keys below -R-2, atoms 1..2R+5: key a-R-3, last: above
struct Ref {
    enum { N = 2 * 12 + 3 };
    long v[N]; // 0: none
    Ref() { for (auto& x : v) x = 0; }
    bool operator==(const Ref& o) const { return std::equal(v, v + N, o.v); }
    static long atom(long key) { long a = key + 13; return a < 0 ? 0 : a >= N ? N - 1 : a; }
    struct Run { long a, b, val; };  // atoms [a, b)
    std::vector<Run> runs() const { std::vector<Run> r; for (long a = 0; a < N; ++a) if (v[a]) { if (!r.empty() && r.back().b == a && r.back().val == v[a]) r.back().b++; else r.push_back({a, a + 1, v[a]}); } return r; }
};
// K is the key type; sgn = -1 when the order of keys is reversed
template <class K, class T, class C, int sgn> struct World {
    using Map = Ani::interval_map<K, T, C>;
    struct M { Map* m = nullptr; Ref r; };
    M m[3];
    static K key(long k) { return (K)(sgn * k); }

    void check(M& x, const char* what) {
        auto runs = x.r.runs();
        std::vector<Ref::Run> got; bool bad = false; std::string txt;
        size_t sz; bool em;
        { Loud l; sz = x.m->size(); em = x.m->empty(); }
        {
            Loud l; const Map& cm = *x.m;
            auto b = cm.begin(), e = cm.end();
            for (auto it = b; it != e; ++it) {
                bool li = it.is_left_infinite(), ri = it.is_right_infinite();
                long a = li ? 0 : Ref::atom(sgn * (long)it->first.m_start), z = ri ? (long)Ref::N : Ref::atom(sgn * (long)it->first.m_end);
                Quiet q; got.push_back({a, z, Val<T>::num(it->second)});
            }
        }
        if (got.size() != runs.size() || sz != runs.size() || em != runs.empty()) bad = true;
        else for (size_t k = 0; k < runs.size(); ++k) if (got[k].a != runs[k].a || got[k].b != runs[k].b || got[k].val != runs[k].val) bad = true;
        if (bad) {
            auto pr = [](const std::vector<Ref::Run>& v) { std::string s; for (auto& r : v) s += "[" + (r.a == 0 ? std::string("-inf") : std::to_string(r.a - 13)) + "," + (r.b == Ref::N ? std::string("inf") : std::to_string(r.b - 13)) + ")->" + std::to_string(r.val) + " "; return s; };
            violation("contents", "%s: the map has %zu intervals %s, expected %s", what, sz, pr(got).c_str(), pr(runs).c_str());
        }
        for (auto& r : runs) mixhash((uint64_t)(r.a * 1000 + r.b * 10 + r.val));
    }
    void look(M& x, long k, const char* what) {
        long want = x.r.v[Ref::atom(k)]; K kk = key(k);
        const Map& cm = *x.m; Map& mm = *x.m;
        bool c; size_t n; long f = 0, f2 = 0, ix = 0, at = 0, fa = -1, fb = -1; bool inside = true, thrown = false;
        {
            Loud l;
            c = cm.contains(kk); n = cm.count(kk);
            auto it = cm.find(kk); if (it != cm.end()) { f = Val<T>::num(it->second); inside = it.contains(kk); fa = it.is_left_infinite() ? 0 : Ref::atom(sgn * (long)it->first.m_start); fb = it.is_right_infinite() ? (long)Ref::N : Ref::atom(sgn * (long)it->first.m_end); }
            auto jt = mm.find(kk); if (jt != mm.end()) f2 = Val<T>::num(jt->second);
            try { at = Val<T>::num(cm.at(kk)); } catch (const std::out_of_range&) { thrown = true; }
            if (f) ix = Val<T>::num(cm[kk]);
        }
        if (c != (want != 0) || n != (want ? 1u : 0u)) violation("contains", "%s: key %ld: contains %d count %zu, expected value %ld", what, k, c, n, want);
        if (f != want || f2 != want || (want && (ix != want || !inside))) violation("find", "%s: key %ld: find gives %ld/%ld [] %ld, expected %ld", what, k, f, f2, ix, want);
        if (thrown != (want == 0) || (want && at != want)) violation("at", "%s: key %ld: at gives %ld thrown %d, expected %ld", what, k, at, thrown, want);
        if (want && !(fa <= Ref::atom(k) && Ref::atom(k) < fb)) violation("find", "%s: key %ld: the interval found does not contain it", what, k);
    }
    void bounds(M& x, long k, const char* what) { // first interval with a key not less / greater
        long a = Ref::atom(k); auto runs = x.r.runs(); size_t lo = 0, up = 0;
        while (lo < runs.size() && runs[lo].b <= a) ++lo;
        while (up < runs.size() && runs[up].b <= a + 1 && runs[up].b != Ref::N) ++up;
        const Map& cm = *x.m; Map& mm = *x.m; K kk = key(k); long g[4];
        { Loud l; g[0] = cm.lower_bound(kk) - cm.begin(); g[1] = mm.lower_bound(kk) - mm.begin(); g[2] = cm.upper_bound(kk) - cm.begin(); g[3] = mm.upper_bound(kk) - mm.begin(); }
        if (g[0] != (long)lo || g[1] != (long)lo) violation("lower-bound", "%s: key %ld: interval number %ld/%ld, expected %zu", what, k, g[0], g[1], lo);
        if (g[2] != (long)up || g[3] != (long)up) violation("upper-bound", "%s: key %ld: interval number %ld/%ld, expected %zu", what, k, g[2], g[3], up);
    }
    // kind: 0 finite, 1 left infinite, 2 right infinite, 3 both
    void ref_insert(const Ref& r, long kind, long a, long b, long val, Ref& out, bool& ok, long& conf) {
        out = r; ok = false; conf = -1;
        long s = kind & 1 ? 0 : Ref::atom(a), e = kind & 2 ? (long)Ref::N : Ref::atom(b);
        if (e <= s) return;
        for (long i = s; i < e; ++i) if (r.v[i] && r.v[i] != val) { conf = i; return; }
        for (long i = s; i < e; ++i) out.v[i] = val;
        ok = true;
    }
    void insert(const Op& o) {
        M& x = m[o.at(0) % 3]; long kind = o.at(1), a = o.at(2), b = o.at(3), val = o.at(4);
        Ref want; bool ok; long conf; ref_insert(x.r, kind, a, b, val, want, ok, conf);
        T v = Val<T>::make(val); bool got = false, thrown = false; long fa = -1, fb = -1, fv = 0; bool at_end = true;
        try {
            Loud l; auto inf = Map::tag_inf; std::pair<typename Map::iterator, bool> r = kind == 0 ? x.m->insert(key(a), key(b), v) : kind == 1 ? x.m->insert(inf, key(b), v) : kind == 2 ? x.m->insert(key(a), inf, v) : x.m->insert(inf, inf, v);
            got = r.second; at_end = r.first == x.m->end();
            if (!at_end) { fa = r.first.is_left_infinite() ? 0 : Ref::atom(sgn * (long)r.first->first.m_start); fb = r.first.is_right_infinite() ? (long)Ref::N : Ref::atom(sgn * (long)r.first->first.m_end); fv = Val<T>::num(r.first->second); }
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "insertion fails without memory being exhausted"); thrown = true; probe("failed-insert"); }
        if (Val<T>::num(v) != val) violation("argument", "the inserted value was modified");
        if (thrown) { check(x, "after an insertion that failed"); return; }
        if (got != ok) violation("insert", "insertion of [%s%ld,%s%ld)->%ld gives %d, expected %d", kind & 1 ? "-inf/" : "", a, kind & 2 ? "inf/" : "", b, val, got, ok);
        x.r = want;
        check(x, "after an insertion");
        if (ok) {
            long s = kind & 1 ? 0 : Ref::atom(a), e = kind & 2 ? (long)Ref::N : Ref::atom(b);
            if (at_end || fa > s || fb < e || fv != val) violation("insert", "insertion of [%ld,%ld)->%ld kind %ld returns interval [%ld,%ld)->%ld", a, b, val, kind, fa - 13, fb - 13, fv);
            probe(want == x.r ? "inserted" : "inserted");
        } else if (conf >= 0) {
            probe("conflict");
            if (at_end || fv == val) violation("insert", "a conflicting insertion does not return the conflicting interval");
        }
    }
    static std::string text(const std::vector<Ref::Run>& runs, Rng& r, const Ani::ParseIvlMapTraits& t, bool tail) {
        auto sp = [&] { std::string s; for (long k = r.below(3); k > 0; --k) s += t.ignore_symbols.empty() ? "" : std::string(1, t.ignore_symbols[(size_t)r.below((long)t.ignore_symbols.size())]); return s; };
        std::string s;
        for (size_t i = 0; i < runs.size(); ++i) {
            auto& x = runs[i];
            s += sp() + (x.a == 0 ? "" : std::to_string(x.a - 13)) + sp() + t.interval_delimiter + sp() + (x.b == Ref::N ? "" : std::to_string(x.b - 13)) + sp() + t.map_delimiter + sp() + std::to_string(x.val) + sp();
            if (i + 1 < runs.size() || tail) s += t.elem_delimiter;
        }
        return s + sp();
    }
    void round_trip(const Op& o);
    void queries(const Op& o, M& x) {
        if (o.kind == "look") { for (long k = -R - 2; k <= R + 2; ++k) look(x, k, "lookup"); look(x, 100000, "lookup"); look(x, -100000, "lookup"); }
        else for (long k = -R - 2; k <= R + 2; ++k) bounds(x, k, "bounds");
    }
    void apply(const Op& o) {
        M& x = m[o.at(0) % 3];
        if (o.kind == "ins") insert(o);
        else if (o.kind == "look" || o.kind == "bnd") { try { queries(o, x); } catch (const std::bad_alloc&) { if (!fired()) throw; probe("failed-lookup"); check(x, "after a lookup that failed"); } }
        else if (o.kind == "clr") { LOUD(x.m->clear()); x.r = Ref(); check(x, "after clear"); }
        else if (o.kind == "cpy") {
            M& y = m[o.at(1) % 3];
            try { Loud l; *y.m = *x.m; y.r = x.r; } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "copy fails without memory being exhausted"); probe("failed-copy"); arm(0); LOUD(y.m->clear()); y.r = Ref(); }
            check(x, "after being copied"); check(y, "a copy");
        }
        else if (o.kind == "new") {
            M& y = m[o.at(1) % 3]; Map* n = nullptr;
            try { Loud l; n = o.at(2) ? new Map(std::move(*x.m)) : new Map(*x.m); } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "copy fails without memory being exhausted"); probe("failed-copy"); check(x, "after a copy that failed"); return; }
            Ref r = x.r;
            if (o.at(2)) { LOUD(x.m->clear()); x.r = Ref(); }
            LOUD(delete y.m); y.m = n; y.r = r; check(x, "source"); check(y, "a new copy");
        }
        else if (o.kind == "swp") { M& y = m[o.at(1) % 3]; LOUD(x.m->swap(*y.m)); std::swap(x.r, y.r); check(x, "swapped"); check(y, "swapped"); }
        else if (o.kind == "txt") round_trip(o);
    }
    void run(const Plan& p) {
        uint64_t mark = alloc_mark();
        for (auto& x : m) LOUD(x.m = new Map());
        run_tasks(p, 0, [&](const Op& o) { if (o.th == 0) apply(o); });
        for (auto& x : m) { check(x, "at the end"); for (long k = -R - 2; k <= R + 2; ++k) { look(x, k, "at the end"); bounds(x, k, "at the end"); } }
        for (auto& x : m) LOUD(delete x.m);
        if (live_since(mark)) violation("leak", "%zu blocks leaked by the map", live_since(mark));
        if (p.ops.size() > 2) nontrivial();
    }
};
template <class W, class Map, class = void> struct RT { static void go(W&, const Op&) {} };
template <class W, class T> struct RT<W, Ani::interval_map<long, T>> {
    static void go(W& w, const Op& o) {
        Rng r((uint64_t)o.at(1) + 17);
        Ani::ParseIvlMapTraits t;
        const char* D[] = {":", "..", ",", "->"}; const char* A[] = {"->", "=", "=>>", "~"}; const char* E[] = {";", "|", ";;", "&"};
        if (o.at(2)) t = Ani::ParseIvlMapTraits(D[r.below(3)], A[r.below(4)], E[r.below(4)], r.chance(1, 2) ? " \t" : " ");
        auto& x = w.m[o.at(0) % 3];
        for (auto& v : x.r.v) if (v == 3 && std::is_same<T, std::string>::value) return; // not a number
        auto runs = x.r.runs(); std::string s; bool printed = false;
        if (o.at(3)) { std::ostringstream os; LOUD(NoFault nf; x.m->print(os, t)); s = os.str(); printed = true; }
        else s = W::text(runs, r, t, r.chance(1, 2));
        Ani::interval_map<long, T>* n = nullptr; bool thrown = false; uint64_t mark = alloc_mark();
        try { Loud l; n = new Ani::interval_map<long, T>(Ani::parse_interval_map<long, T>(s, 0, std::string::npos, Ani::details::DefaultParser<long>(), Ani::details::DefaultParser<T>(), t)); }
        catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "parsing fails without memory being exhausted"); probe("failed-parse"); thrown = true; }
        catch (const std::exception& e) { if (!fired()) violation("parse", "%s '%s' is not understood: %s", printed ? "printed text" : "text", s.c_str(), e.what()); thrown = true; }
        if (thrown) { if (live_since(mark)) violation("leak", "parsing leaks"); return; }
        typename W::M y; y.m = n; y.r = x.r; w.check(y, ("parsed from '" + s + "'").c_str()); LOUD(delete n); probe("parsed");
    }
};
template <class K, class T, class C, int sgn> void World<K, T, C, sgn>::round_trip(const Op& o) { RT<World, Map>::go(*this, o); }

void run(const Plan& p) {
    Quiet q;
    set_poison((int)p.get("poison"), p.seed);
    switch (p.get("types")) {
        case 0: { World<long, long, std::less<long>, 1> w; w.run(p); break; }
        case 1: { World<long, std::string, std::less<long>, 1> w; w.run(p); break; }
        default: { World<int, int, std::greater<int>, -1> w; w.run(p); break; }
    }
}
void gen(Plan& p, Rng& r) {
    p.par["poison"] = r.below(8); p.par["types"] = r.below(3);
    long n = r.in(2, 30), vals = r.in(1, 3), span = r.in(2, R), infs = r.below(4); bool faults = r.chance(1, 2);
    int maps = (int)r.in(1, 3);
    for (long k = 0; k < n; ++k) {
        long w = r.below(20); Op* o;
        if (w < 13) { long a = r.in(-span, span), b = r.chance(1, 12) ? r.in(-span, span) : a + r.in(0, r.chance(1, 3) ? span : 3); if (b > R) b = R;
            o = &p.add(0, "ins", {r.below(maps), r.chance(infs, 6) ? r.chance(1, 8) ? 3 : r.in(1, 2) : 0, a, b, r.in(1, vals)}); }
        else if (w == 13) o = &p.add(0, "look", {r.below(maps)});
        else if (w == 14) o = &p.add(0, "bnd", {r.below(maps)});
        else if (w == 15) { if (!r.chance(1, 3)) continue; o = &p.add(0, "clr", {r.below(maps)}); }
        else if (w == 16) o = &p.add(0, "cpy", {r.below(maps), r.below(maps)});
        else if (w == 17) o = &p.add(0, "new", {r.below(maps), r.below(maps), r.below(2)});
        else if (w == 18) o = &p.add(0, "swp", {r.below(maps), r.below(maps)});
        else o = &p.add(0, "txt", {r.below(maps), r.below(1000), r.below(2), r.below(2)});
        if (faults && r.chance(1, 4)) o->fail = (int)r.in(1, 4);
    }
    gen_schedule(p, r, 200);
}
Register reg(Scenario{"C12", "interval-map", 2, gen, run});
} // namespace
