// C27: the mesh of a box, made in parts by any number of processes (simulated tasks) of any communicator, and its
// redistribution. The oracle gathers the parts and decides whether they tile the box.
#include "common.h"
#include <set>
#include <sstream>
#include <thread>
#include "anifem++/utils/mesh_utils.h"
using namespace sim; using namespace INMOST;
namespace {
typedef std::array<long, 3> I3;
struct Box { unsigned n[3]; double A[3], O[3]; };
std::ostringstream& sink() { static std::ostringstream s; return s; }
struct World {
    const Plan& p; std::mutex m; std::vector<std::unique_ptr<Group>> own; std::vector<Group*> groups; int np;
    World(const Plan& p_) : p(p_), np((int)p_.get("procs")) {
        Rng r((uint64_t)p.get("comms"));
        auto add = [&](std::vector<int> l) { own.emplace_back(new Group); own.back()->member = l; own.back()->m = &m; groups.push_back(own.back().get()); };
        std::vector<int> all; for (int k = 0; k < np; ++k) all.push_back(k); add(all);
        std::vector<int> q = all; for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[(size_t)r.below((long)k)]); add(q); // other numbers
        q.resize((size_t)r.in(1, np)); add(q); // some of the processes
    }
};
// the parts of the processes of a communicator are a conforming mesh of the box
void tiling(Group& g, const Box& b, const char* what, bool first) {
    std::map<std::array<I3, 3>, int> faces; std::set<std::array<I3, 4>> seen; double vol = 0, box = 1; size_t count = 0; for (int k = 0; k < 3; ++k) box *= b.A[k] - b.O[k];
    auto grid = [&](const P3& x, int r) { I3 i; for (size_t k = 0; k < 3; ++k) { double t = (x[k] - b.O[k]) / (b.A[k] - b.O[k]) * b.n[k], q = std::round(t); if (!(std::fabs(t - q) < 1e-7)) violation("node", "%s: process %d has the node (%g %g %g), which is not a point of the grid", what, r, x[0], x[1], x[2]); if (q < 0 || q > b.n[k]) violation("outside", "%s: process %d of %ld has the node (%g %g %g) outside of the box (%g %g %g)-(%g %g %g) of %u x %u x %u steps", what, r, (long)g.member.size(), x[0], x[1], x[2], b.O[0], b.O[1], b.O[2], b.A[0], b.A[1], b.A[2], b.n[0], b.n[1], b.n[2]); i[k] = (long)q; } return i; };
    for (size_t r = 0; r < g.slot.size(); ++r) {
        Mesh* m = g.slot[r]; m->tets();
        if (first) { std::set<I3> pts; for (auto& x : m->nodes) if (!pts.insert(grid(x, (int)r)).second) violation("node", "%s: process %ld has two nodes at (%g %g %g)", what, (long)r, x[0], x[1], x[2]);
            if (!m->cells.empty()) { std::set<HandleType> used; for (auto& c : m->cells) used.insert(c.begin(), c.end()); if (used.size() != m->nodes.size()) violation("node", "%s: process %ld has nodes outside of its cells", what, (long)r); } else probe("process-without-cells"); }
        for (auto& t : m->own) {
            std::array<I3, 4> c; for (size_t k = 0; k < 4; ++k) c[k] = grid(t.x[k], (int)r); std::sort(c.begin(), c.end()); ++count;
            double d[3][3]; for (int i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) d[i][k] = (double)(c[(size_t)i + 1][k] - c[0][k]); double v = d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0]) + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]);
            if (v == 0) violation("volume", "%s: process %ld has a cell of no volume", what, (long)r); vol += std::fabs(v) / 6;
            if (!seen.insert(c).second) violation("twice", "%s: a cell of process %ld is made twice", what, (long)r);
            for (size_t k = 0; k < 4; ++k) { std::array<I3, 3> f; size_t j = 0; for (size_t i = 0; i < 4; ++i) if (i != k) f[j++] = c[i]; if (++faces[f] > 2) violation("conforming", "%s: three cells have a common face", what); }
        }
    }
    for (auto& f : faces) if (f.second == 1) { bool out = false; for (size_t k = 0; k < 3; ++k) { long a = f.first[0][k]; if (a == f.first[1][k] && a == f.first[2][k] && (a == 0 || a == (long)b.n[k])) out = true; } if (!out) violation("gap", "%s: a face inside of the box belongs to one cell only (%ld processes, %u x %u x %u steps)", what, (long)g.slot.size(), b.n[0], b.n[1], b.n[2]); }
    double want = (double)b.n[0] * b.n[1] * b.n[2]; if (std::fabs(vol - want) > 1e-6) violation("volume", "%s: the cells have %g of the volume %g of the box (%ld processes, %u x %u x %u steps)", what, vol * box / want, box, (long)g.slot.size(), b.n[0], b.n[1], b.n[2]);
    (void)count;
}
struct Process {
    World& w; const Plan& p; int id; std::unique_lock<std::mutex> lk; Proc pr;
    Process(World& w_, int id_) : w(w_), p(w_.p), id(id_) {}
    void box(const Op& o) {
        int c = (int)(o.at(0) % 3); Group& g = *w.groups[(size_t)c]; if (g.rank_of(id) < 0) return; bool alone = g.member.size() == 1 && w.np == 1;
        Rng r((uint64_t)o.at(5)); Box b; int which = (int)(o.at(1) % 3);
        for (int k = 0; k < 3; ++k) { b.n[k] = (unsigned)o.at((size_t)k + 2); b.O[k] = which == 2 ? (double)r.in(-40, 40) / 8 : 0; b.A[k] = b.O[k] + (which == 2 ? (double)r.in(1, 60) / 7 : 1); }
        if (which == 1) { double s = (double)r.in(1, 60) / 7; for (auto& x : b.A) x = s; }
        std::unique_ptr<Mesh> m; bool oom = false; long before = Mesh::alive(); yield_point();
        arm(alone ? o.fail : 0);
        try { Loud l; if (which == 0) m = GenerateCube(c, b.n[0], b.n[1], b.n[2]); else if (which == 1) m = GenerateCube(c, b.n[0], b.n[1], b.n[2], b.A[0]); else m = GenerateParallelepiped(c, {b.n[0], b.n[1], b.n[2]}, {b.A[0], b.A[1], b.A[2]}, {b.O[0], b.O[1], b.O[2]}); }
        catch (const std::bad_alloc&) { oom = true; }
        bool hit = fired(); arm(0);
        if (oom) { if (!hit) violation("exception", "out of memory without a fault"); if (Mesh::alive() != before) violation("leak", "the mesh is lost after a failed allocation"); probe("out-of-memory"); return; }
        if (!m) violation("result", "there is no mesh"); if (m->GetCommunicator() != c) violation("communicator", "the mesh belongs to communicator %d instead of %d", m->GetCommunicator(), c); if (!m->resolved) violation("shared", "shared elements are not resolved after the last cell was made");
        { Loud l; collective(c, "tiling", m.get(), nullptr, [&](Group& q) { tiling(q, b, "generation", true); }); }
        probe(c == 0 ? "world" : c == 1 ? "other-numbers" : "subset"); for (int k = 0; k < 3; ++k) if (b.n[k] < g.member.size()) probe("few-steps");
        if (o.at(6) & 1) sizes(*m, c);
#if defined(USE_MPI) && defined(USE_PARTITIONER)
        if (c == 0 && (o.at(6) & 2)) {
            bool v = (o.at(6) & 4) != 0; { Loud l; RepartMesh(m.get(), v); }
            { Loud l; collective(c, "repart", m.get(), nullptr, [&](Group& q) {
                sink().str(""); if (q.slot.size() == 1) return; tiling(q, b, "redistribution", false);
                for (size_t r = 0; r < q.slot.size(); ++r) { Mesh* s = q.slot[r]; if (!s->moved) violation("repart", "cells did not move"); if (s->ghost_layers != 1 || s->bridge != NODE) violation("ghosts", "process %ld has no layer of cells over nodes", (long)r); if (s->sparse) violation("repart", "process %ld keeps holes in the numbers", (long)r);
                    size_t n = 0; for (auto* t : q.slot) if (t != s) for (auto& y : t->own) { bool in = false; for (auto& x : s->own) for (auto& u : x.x) for (auto& z : y.x) in = in || Mesh::eq(u, z); n += in; } if (n != s->ghosts.size()) violation("ghosts", "process %ld has %ld ghost cells instead of %ld", (long)r, (long)s->ghosts.size(), (long)n); }
                if (Partitioner::alive()) violation("leak", "a partitioner is lost"); probe("redistributed"); }); }
            if (o.at(6) & 1) sizes(*m, c);
        }
#endif
        long left = Mesh::alive(); m.reset(); if (Mesh::alive() != left - 1) violation("leak", "a mesh is lost");
    }
    void sizes(Mesh& m, int c) {
        { Loud l; collective(c, "before", &m, nullptr, [](Group&) { if (p_out()) sink().str(""); }); }
        { Loud l; print_mesh_sizes(&m); }
        { Loud l; collective(c, "after", &m, nullptr, [&](Group& q) {
            std::vector<Tet> l; for (auto* s : q.slot) { s->tets(); l.insert(l.end(), s->own.begin(), s->own.end()); }
            std::string t = sink().str(); sink().str(""); static const char* tag[] = {"#N ", "#E ", "#F ", "#T "};
            for (int d = 0; d < 4; ++d) { size_t k = t.find(tag[d]); long n = Mesh::distinct(l, d); if (k == std::string::npos || t.find(tag[d], k + 1) != std::string::npos || std::strtol(t.c_str() + k + 3, nullptr, 10) != n) violation("sizes", "%ld elements of dimension %d are reported as \"%s\"", n, d, t.substr(0, 120).c_str()); }
            probe("sizes-printed"); }); }
    }
    static bool p_out() { return true; }
    void run() {
        Quiet q; lk = std::unique_lock<std::mutex>(w.m, std::defer_lock); LOUD(lk.lock()); pr.id = id; pr.lk = &lk; pr.groups = &w.groups; proc() = &pr;
        try { for (auto& o : p.ops) { op_begin(o); box(o); op_end(); Loud l; collective(0, "next", nullptr, nullptr, [](Group&) {}); } } catch (const std::exception& e) { violation("exception", "process %d: %s", id, e.what()); }
        proc() = nullptr; LOUD(lk.unlock());
    }
};
void run_meshgen(const Plan& p) {
    Quiet q; World w(p); struct Out { std::streambuf* b; Out() { b = std::cout.rdbuf(sink().rdbuf()); } ~Out() { std::cout.rdbuf(b); } } redirect; mixhash((uint64_t)w.np); if (w.np > 1) nontrivial();
    std::vector<std::unique_ptr<Process>> ps; for (int k = 0; k < w.np; ++k) ps.emplace_back(new Process(w, k));
    Loud l; std::vector<std::thread> th; for (auto& x : ps) { Process* y = x.get(); th.emplace_back([y] { y->run(); }); } for (auto& t : th) t.join();
}
void gen_c27(Plan& p, Rng& r) {
    long np = r.chance(1, 6) ? 1 : r.chance(1, 8) ? r.in(13, 30) : r.in(2, 12);
#ifndef USE_MPI
    np = 1;
#endif
    p.par["procs"] = np; p.par["comms"] = r.below(1l << 30); long n = np > 12 ? 1 : r.in(1, 3);
    for (long k = 0; k < n; ++k) {
        long s[3]; long style = r.below(4); for (auto& x : s) x = style == 0 ? r.in(1, 3) : style == 1 ? r.in(1, 6) : style == 2 ? r.in(2, 4) : 1; if (style == 3) s[r.below(3)] = r.in(1, 20); if (s[0] * s[1] * s[2] > 80) s[r.below(3)] = 1;
        p.add(0, "box", {r.chance(1, 2) ? 0 : r.below(3), r.below(3), s[0], s[1], s[2], r.below(1l << 30), s[0] * s[1] * s[2] > 40 ? 0 : r.below(8)}, np == 1 && r.chance(1, 3) ? (int)r.in(1, 60) : 0);
    }
    gen_schedule(p, r, 3000);
}
Register r1(Scenario{"C27", "meshgen", 1, gen_c27, run_meshgen});
} // namespace
