// C12: enumeration of arrays extended by a value from a range, enumeration of values clustered in intervals and their
// combination. Reference: the sorted list of all elements.
#include "tasks.h"
#include <sstream>
#include <limits>
#include "anifem++/interval/ext_array_enum.h"
#include <algorithm>
using namespace sim;

namespace {
typedef unsigned U;
const bool ZERO = true;
template <unsigned N> std::string str(const std::array<U, N>& a) { std::string s = "{"; for (auto x : a) s += std::to_string(x) + ","; s.back() = '}'; return s; }
template <unsigned N> struct Base {
    std::vector<std::array<U, N>> set; std::vector<U> ranges; U n = 0, m = 0;
    std::vector<std::array<U, N + 1>> elems;
    void make() {
        auto s = set; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
        elems.clear();
        for (auto& a : s) for (U v = 0; v < ranges[a[m]]; ++v) { std::array<U, N + 1> b; std::copy(a.begin(), a.begin() + n, b.begin()); std::copy(a.begin() + n, a.end(), b.begin() + n + 1); b[n] = v; elems.push_back(b); }
        std::sort(elems.begin(), elems.end());
    }
};
// random base set; values of the component m below NV
template <unsigned N> void random_base(Base<N>& B, Rng& r, bool zero) {
    U nv = (U)r.in(1, 5); long cnt = r.in(0, r.chance(1, 3) ? 30 : 8); if (!r.chance(1, 6)) cnt = std::max(cnt, 1L);
    U other = (U)r.in(1, 4);
    B.ranges.clear(); for (U k = 0; k < nv; ++k) B.ranges.push_back((U)r.in(zero ? 0 : 1, 4));
    B.n = (U)r.below(N + 1); B.m = (U)r.below(N);
    B.set.clear();
    for (long k = 0; k < cnt; ++k) { std::array<U, N> a; for (U i = 0; i < N; ++i) a[i] = (U)r.below(i == B.m ? nv : other); B.set.push_back(a); }
    B.make();
}
template <unsigned N, class E, class EL> void queries(const E& e, const EL& el, const Op& o, const std::vector<U>& ranges, U n, U m, bool bounds) {
    using A = std::array<U, N + 1>;
    size_t sz, c; bool em; { Loud l; sz = (size_t)e.size(); em = e.empty(); }
    if (sz != el.size() || em != el.empty()) violation("size", "%zu elements, empty %d, expected %zu", sz, em, el.size());
    Rng r((uint64_t)o.at(1) * 77 + 5);
    long total = (long)el.size();
    switch (o.at(0)) {
        case 0: { // walk forward
            long from = o.at(2) && total ? r.below(total) : 0, k = from; bool post = o.at(3);
            Loud l; auto b = e.begin((U)from), en = e.end();
            for (auto it = b; it != en; post ? (void)it++ : (void)++it, ++k) {
                Quiet q; if (k >= total) violation("walk", "more than %ld elements", total);
                auto v = *it; if (it->first != v.first || it->second != v.second) violation("walk", "element %ld: -> and * differ", k);
                if ((long)v.first != k || v.second != el[(size_t)k]) violation("walk", "element %ld is %u %s, expected %s (from %ld)", k, v.first, str<N + 1>(v.second).c_str(), str<N + 1>(el[(size_t)k]).c_str(), from);
                yield_point();
            }
            if (k != total) { Quiet q; violation("walk", "%ld of %ld elements", k, total); }
            probe("walk"); break;
        }
        case 1: { // walk backward
            if (!total) break;
            Loud l; auto it = o.at(2) ? e.end() : e.begin((U)(total - 1)); long k = o.at(2) ? total : total - 1;
            while (k > 0) { if (o.at(3)) it--; else --it; --k; Quiet q; if ((long)it->first != k || it->second != el[(size_t)k]) violation("walk-back", "element %ld is %u %s, expected %s", k, it->first, str<N + 1>(it->second).c_str(), str<N + 1>(el[(size_t)k]).c_str()); }
            probe("walk-back"); break;
        }
        case 2: // number of an element and element of a number
            for (long k = 0; k < total; ++k) {
                U x; A y; { Loud l; x = e[el[(size_t)k]]; y = e[(U)k]; }
                if ((long)x != k) violation("number", "%s has number %u, expected %ld", str<N + 1>(el[(size_t)k]).c_str(), x, k);
                if (y != el[(size_t)k]) violation("element", "element %ld is %s, expected %s", k, str<N + 1>(y).c_str(), str<N + 1>(el[(size_t)k]).c_str());
            }
            break;
        case 3: // find by number and by element, contains
            for (long k = 0; k < total + 2; ++k) { bool end; U f = 0; A s{}; { Loud l; auto it = e.find((U)k); end = it == e.end(); if (!end) f = it->first, s = it->second; }
                if (end != (k >= total) || (!end && ((long)f != k || s != el[(size_t)k]))) violation("find", "find(%ld): end %d, %u %s", k, end, f, str<N + 1>(s).c_str()); }
            for (long t = 0; t < 40; ++t) {
                A a; if (total && t % 2) a = el[(size_t)r.below(total)]; else { for (auto& x : a) x = (U)r.below(5); U& mm = a[m + (m >= n ? 1 : 0)]; if (!ranges.empty() && mm >= ranges.size()) mm = (U)ranges.size() - 1; }
                auto p = std::find(el.begin(), el.end(), a); bool want = p != el.end(), got, end; U f = 0; A s{};
                { Loud l; got = e.contains(a); c = e.count(a); auto it = e.find(a); end = it == e.end(); if (!end) f = it->first, s = it->second; }
                if (got != want || c != (want ? 1u : 0u)) violation("contains", "contains(%s) is %d, expected %d", str<N + 1>(a).c_str(), got, want);
                if (end == want || (want && ((long)f != p - el.begin() || s != a))) violation("find", "find(%s): end %d, %u %s", str<N + 1>(a).c_str(), end, f, str<N + 1>(s).c_str());
            }
            break;
        case 4: // jumps
            if (total) for (long t = 0; t < 10; ++t) {
                long a = r.below(total), b = r.below(total); U f; A s; bool mut = r.chance(1, 2);
                { Loud l; auto it = e.begin((U)a); if (b >= a) { if (mut) it += (U)(b - a); else it = it + (U)(b - a); } else { if (mut) it -= (U)(a - b); else it = it - (U)(a - b); } f = it->first; s = it->second; }
                if ((long)f != b || s != el[(size_t)b]) violation("jump", "from %ld to %ld: %u %s", a, b, f, str<N + 1>(s).c_str());
                bool lt, gt, le, ge, eq; { Loud l; auto x = e.begin((U)a), y = e.begin((U)b); lt = x < y; gt = x > y; le = x <= y; ge = x >= y; eq = x == y; }
                if (lt != (a < b) || gt != (a > b) || le != (a <= b) || ge != (a >= b) || eq != (a == b)) violation("order", "comparison of iterators %ld and %ld: %d%d%d%d%d", a, b, lt, gt, le, ge, eq);
            }
            break;
        default: (void)bounds;
    }
}
template <unsigned N, class E> void bounds(const E& e, const std::vector<std::array<U, N + 1>>& el, const Op& o, const std::vector<U>& ranges, U n, U m) {
    Rng r((uint64_t)o.at(1) * 91 + 3); long total = (long)el.size();
    for (long t = 0; t < 40; ++t) {
        std::array<U, N + 1> a; if (total && t % 2) { a = el[(size_t)r.below(total)]; if (t % 4 == 1) a[(size_t)r.below(N + 1)] = (U)r.below(5); } else for (auto& x : a) x = (U)r.below(5);
        U& mm = a[m + (m >= n ? 1 : 0)]; if (!ranges.empty() && mm >= ranges.size()) mm = (U)ranges.size() - 1;
        long lo = std::lower_bound(el.begin(), el.end(), a) - el.begin(), up = std::upper_bound(el.begin(), el.end(), a) - el.begin();
        long gl, gu; std::array<U, N + 1> sl{}, su{}; { Loud l; auto x = e.lower_bound(a); gl = (long)x->first; if (x != e.end()) sl = x->second; auto y = e.upper_bound(a); gu = (long)y->first; if (y != e.end()) su = y->second; }
        if (gl != lo || (lo < total && sl != el[(size_t)lo])) violation("lower-bound", "lower_bound(%s) is number %ld, expected %ld", str<N + 1>(a).c_str(), gl, lo);
        if (gu != up || (up < total && su != el[(size_t)up])) violation("upper-bound", "upper_bound(%s) is number %ld, expected %ld", str<N + 1>(a).c_str(), gu, up);
    }
    probe("bounds");
}
// ---------------------------------------------------------------- arrays with a range
template <unsigned N> struct Arr {
    using E = Ani::ext_range_array_enum<N, Ani::vec_range_func<U, U>, U, U>;
    E* e = nullptr; Base<N> B; bool ready = true;
    void set(const Op& o) {
        Base<N> nb = B; Rng r((uint64_t)o.at(1)); long w = o.at(0); E* other = nullptr; uint64_t mark = alloc_mark(); bool thrown = false;
        std::vector<std::array<U, N>> given; Ani::vec_range_func<U, U> rf;
        if (w <= 2) { random_base<N>(nb, r, o.at(2)); given = nb.set; rf.ranges = nb.ranges; }
        else if (w == 7) { // other ranges for the same set
            nb.ranges.clear(); for (int k = 0; k < 5; ++k) nb.ranges.push_back((U)r.in(r.chance(1, 3) ? 0 : 1, 4));
            nb.n = (U)r.below(N + 1); nb.m = (U)r.below(N); nb.make(); rf.ranges = nb.ranges;
        }
        try {
            Loud l;
            if (w == 0) { other = new E(given, rf, nb.n, nb.m); other->setup(); }
            else if (w == 1) e->setBaseSet(given).setRangedExtension(rf, nb.n, nb.m).setup();
            else if (w == 2) { e->clear(); e->setBaseSet(std::move(given)); e->setRangedExtension(rf, nb.n, nb.m); e->setup(); }
            else if (w == 3) e->setup();
            else if (w == 4) other = new E(*e);
            else if (w == 5) *e = E(*e);
            else if (w == 7) e->setRangedExtension(rf, nb.n, nb.m).setup();
            else e->clear();
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "operation fails without memory being exhausted"); thrown = true; probe("failed-setup"); }
        if (w == 6) { nb.set.clear(); nb.n = nb.m = 0; nb.make(); }
        if (thrown) {
            arm(0);
            if (w == 0 || w == 4) { if (other) { LOUD(delete other); other = nullptr; } if (live_since(mark)) violation("leak", "a failed operation leaks"); return; }
            if (w == 3) { same("setup failed"); return; }
            if (w == 7) { if (o.at(1) % 2) { for (auto& x : nb.ranges) x = 1 + (x + 1) % 4; nb.make(); rf.ranges = nb.ranges; } LOUD(e->setRangedExtension(rf, nb.n, nb.m).setup()); B = nb; same("after a failed change"); return; }
            // the base set is set again
            auto g = nb.set; rf.ranges = nb.ranges; LOUD(e->setBaseSet(g); e->setRangedExtension(rf, nb.n, nb.m); e->setup());
        }
        if (other) { LOUD(delete e); e = other; }
        B = nb; same("after a change");
    }
    void same(const char* what) { size_t s; { Loud l; s = e->size(); } if (s != B.elems.size()) violation("size", "%s: %zu elements, expected %zu", what, s, B.elems.size());
        Op o; o.v = {2, 0, 0, 0}; queries<N>(*(const E*)e, B.elems, o, B.ranges, B.n, B.m, true); mixhash(s); }
    void use(const Op& o) {
        if (o.at(0) == 5) bounds<N>(*(const E*)e, B.elems, o, B.ranges, B.n, B.m);
        else if (o.at(0) == 6) { std::ostringstream os; LOUD(NoFault nf; e->debug_print_state(os)); }
        else queries<N>(*(const E*)e, B.elems, o, B.ranges, B.n, B.m, true);
    }
    void run(const Plan& p) {
        uint64_t mark = alloc_mark();
        LOUD(e = new E()); same("new");
        for (auto& o : p.ops) if (o.kind == "set") { op_begin(o); set(o); op_end(); }
        Plan q = p; q.ops.clear(); for (auto& o : p.ops) if (o.kind == "use") q.ops.push_back(o);
        run_tasks(q, 1, [&](const Op& o) { use(o); });
        LOUD(delete e);
        (void)mark;
    }
};
// ---------------------------------------------------------------- values in intervals
template <class Mem> struct Fill;
template <> struct Fill<Ani::interval_own_memory<long, int>> { static Ani::interval_own_memory<long, int> make(const std::vector<std::pair<int, int>>& d, std::vector<int>&) { Ani::interval_own_memory<long, int> m; for (auto& x : d) m.m_dat.push_back({x.first, x.second}); return m; } };
template <> struct Fill<Ani::interval_external_memory<int>> { static Ani::interval_external_memory<int> make(const std::vector<std::pair<int, int>>& d, std::vector<int>& st) { st.clear(); for (auto& x : d) st.push_back(x.first), st.push_back(x.second); Ani::interval_external_memory<int> m; m.m_dat_st = st.data(); m.m_dat_end = st.data() + st.size(); return m; } };
std::vector<int> random_values(Rng& r, long cnt) { std::vector<int> v; int x = (int)r.in(-4, 4); for (long k = 0; k < cnt; ++k) { v.push_back(x); x += r.chance(2, 3) ? 1 : (int)r.in(2, 5); } return v; }
std::vector<std::pair<int, int>> stored(const std::vector<int>& v) { std::vector<std::pair<int, int>> d; for (size_t k = 0; k < v.size(); ++k) if (!k || v[k] != v[k - 1] + 1) d.push_back({(int)k, v[k]}); if (!v.empty()) d.push_back({(int)v.size(), v.back() + 1}); return d; }
template <class Mem> struct Ivl {
    using E = Ani::interval_enum<Mem>;
    std::vector<int> v, st; E* e = nullptr;
    void use(const Op& o) {
        const E& c = *e; long n = (long)v.size(); size_t sz; bool em; { Loud l; sz = c.size(); em = c.empty(); }
        if ((long)sz != n || em != v.empty()) violation("size", "%zu values, expected %ld", sz, n);
        auto at = [&](typename E::const_iterator it) -> long { return it == c.end() ? -1 : (long)it->first; };
        auto num = [&](long k) { return k >= n ? -1 : k; };
        switch (o.at(0)) {
            case 0: { Loud l; long k = 0; for (auto it = c.begin(); it != c.end(); o.at(3) ? (void)it++ : (void)++it, ++k) { Quiet q; if (k >= n || (long)it->first != k || (*it).second != v[(size_t)k]) violation("walk", "value %ld: %ld -> %d", k, (long)it->first, (int)it->second); yield_point(); } if (k != n) { Quiet q; violation("walk", "%ld of %ld values", k, n); } break; }
            case 1: { Loud l; long k = n; auto it = c.end(); while (k > 0) { if (o.at(3)) it--; else --it; --k; Quiet q; if ((long)it->first != k || it->second != v[(size_t)k]) violation("walk-back", "value %ld: %ld -> %d", k, (long)it->first, (int)it->second); } Quiet q; if (n && !(it == c.begin())) violation("walk-back", "not at the beginning"); break; }
            case 2: for (long k = -2; k < n + 2; ++k) { bool cl; long f; int s = 0; { Loud l; cl = c.contains_left((typename E::EnumInt)k); auto it = c.find_left((typename E::EnumInt)k); f = at(it); if (f >= 0) s = it->second; }
                bool want = k >= 0 && k < n; if (cl != want || f != (want ? k : -1) || (want && s != v[(size_t)k])) violation("find-left", "number %ld: contains %d, found %ld -> %d", k, cl, f, s);
                long lb, ub; { Loud l; lb = at(c.lower_bound_left((typename E::EnumInt)k)); ub = at(c.upper_bound_left((typename E::EnumInt)k)); }
                if (lb != num(std::max(k, 0L)) || ub != num(std::max(k + 1, 0L))) violation("bound-left", "number %ld: bounds %ld %ld", k, lb, ub); } break;
            case 3: for (int x = (n ? v[0] : 0) - 2; x < (n ? v.back() : 0) + 4; ++x) { bool cr; long f, lb, ub; { Loud l; cr = c.contains_right(x); f = at(c.find_right(x)); lb = at(c.lower_bound_right(x)); ub = at(c.upper_bound_right(x)); }
                auto p = std::lower_bound(v.begin(), v.end(), x), u = std::upper_bound(v.begin(), v.end(), x); bool want = p != v.end() && *p == x;
                if (cr != want || f != (want ? p - v.begin() : -1)) violation("find-right", "value %d: contains %d, found %ld", x, cr, f);
                if (lb != num(p - v.begin()) || ub != num(u - v.begin())) violation("bound-right", "value %d: bounds %ld %ld", x, lb, ub); } break;
            default: { Rng r((uint64_t)o.at(1)); if (n) for (long t = 0; t < 20; ++t) { long a = r.below(n), b = r.below(n + 1); long d; bool lt, gt, le, ge, eq; { Loud l; auto x = c.find_left((typename E::EnumInt)a), y = b == n ? c.end() : c.find_left((typename E::EnumInt)b); d = y - x; lt = x < y; gt = x > y; le = x <= y; ge = x >= y; eq = x == y; }
                if (d != b - a) violation("distance", "from %ld to %ld: %ld", a, b, d);
                if (lt != (a < b) || gt != (a > b) || le != (a <= b) || ge != (a >= b) || eq != (a == b)) violation("order", "comparison of iterators %ld and %ld: %d%d%d%d%d", a, b, lt, gt, le, ge, eq); } }
        }
    }
    void run(const Plan& p) {
        LOUD(e = new E());
        for (auto& o : p.ops) if (o.kind == "set") { op_begin(o); Rng r((uint64_t)o.at(1)); auto nv = random_values(r, r.chance(1, 6) ? 0 : r.in(1, 14)); Mem mem = Fill<Mem>::make(stored(nv), st); bool thrown = false;
            try { Loud l; if (o.at(0) % 3 == 0) e->setMem(mem); else if (o.at(0) % 3 == 1) *e = E(mem); else e->data() = mem; } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "no memory"); thrown = true; arm(0); probe("failed-setup"); }
            op_end(); if (thrown) LOUD(e->setMem(mem)); v = nv; Op u; u.v = {0, 0, 0, 0}; use(u); }
        Plan q = p; q.ops.clear(); for (auto& o : p.ops) if (o.kind == "use") q.ops.push_back(o);
        run_tasks(q, 1, [&](const Op& o) { use(o); });
        LOUD(delete e);
    }
};
// ---------------------------------------------------------------- arrays with values from intervals
template <unsigned N> struct Ext {
    enum { NV = 5 };
    using Mem = Ani::interval_own_memory<int, int>; using E = Ani::ext_array_enum<N, NV, Ani::vec_range_func<U, U>, U, U, Mem>;
    Base<N> B; std::vector<std::array<U, N + 1>> el; std::vector<std::vector<int>> vals; E* e = nullptr;
    void set(const Op& o) {
        Rng r((uint64_t)o.at(1)); random_base<N>(B, r, o.at(2)); while (B.ranges.size() < NV) B.ranges.push_back(1);
        vals.clear(); for (U k = 0; k < NV; ++k) { auto v = random_values(r, B.ranges[k]); for (auto& x : v) x += 4; vals.push_back(v); }
        el = B.elems; for (auto& a : el) { U mv = a[B.m + (B.m >= B.n ? 1 : 0)]; a[B.n] = (U)vals[mv][a[B.n]]; }
        for (int tries = 0; tries < 2; ++tries) try {
            Loud l; typename E::ExtRangeArrayEnum x(B.set, Ani::vec_range_func<U, U>(B.ranges), B.n, B.m); x.setup();
            std::array<typename E::IntervalEnum, NV> ie; for (U k = 0; k < NV; ++k) { Mem mm; for (auto& d : stored(vals[k])) mm.m_dat.push_back({d.first, d.second}); ie[k].setMem(mm); }
            E* n = new E(x, ie); delete e; e = n; break;
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "no memory"); arm(0); probe("failed-setup"); }
    }
    void run(const Plan& p) {
        LOUD(e = new E());
        for (auto& o : p.ops) if (o.kind == "set") { op_begin(o); set(o); op_end(); }
        Plan q = p; q.ops.clear(); for (auto& o : p.ops) if (o.kind == "use" && o.at(0) < 5 && e) q.ops.push_back(o);
        if (!B.ranges.empty()) run_tasks(q, 1, [&](const Op& o) { queries<N>(*(const E*)e, el, o, B.ranges, B.n, B.m, false); });
        LOUD(delete e);
    }
};
void run(const Plan& p) {
    Quiet q;
    set_poison((int)p.get("poison"), p.seed);
    uint64_t mark = alloc_mark();
    switch (p.get("what")) {
        case 0: { Arr<1> w; w.run(p); break; }
        case 1: { Arr<2> w; w.run(p); break; }
        case 2: { Arr<3> w; w.run(p); break; }
        case 3: { Arr<4> w; w.run(p); break; }
        case 4: { Ivl<Ani::interval_own_memory<long, int>> w; w.run(p); break; }
        case 5: { Ivl<Ani::interval_external_memory<int>> w; w.run(p); break; }
        case 6: { Ext<2> w; w.run(p); break; }
        default: { Ext<4> w; w.run(p); break; }
    }
    (void)mark;
    if (p.ops.size() > 2) nontrivial();
}
void gen(Plan& p, Rng& r) {
    p.par["poison"] = r.below(8); p.par["what"] = r.below(8);
    long n = r.in(1, 4); bool faults = r.chance(1, 2), zero = ZERO && r.chance(1, 3);
    for (long k = 0; k < n; ++k) { Op& o = p.add(0, "set", {k == 0 ? r.below(3) : r.below(8), r.below(1000000), zero}); if (faults && r.chance(1, 2)) o.fail = (int)r.in(1, 30); }
    int nt = r.chance(1, 3) ? 1 : (int)r.in(2, 3);
    for (int t = 0; t < nt; ++t) for (long k = r.in(1, 4); k > 0; --k) p.add(t, "use", {r.below(7), r.below(1000), r.below(2), r.below(2)});
    gen_schedule(p, r, 1500);
}
Register reg(Scenario{"C12", "range-enumeration", 2, gen, run});
} // namespace
