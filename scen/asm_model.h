// Model of a finite element system on a tetrahedral mesh: which degrees of freedom there are, which local degree of
// freedom of a cell is which global one and with what sign. Independent of the code under test: a degree of freedom is
// named by (variable, part, component, element, place on the element in terms of the element's nodes).
#ifndef VERIF_ASM_MODEL_H
#define VERIF_ASM_MODEL_H
#include "common.h"
#include <array>
#include <map>
#include <algorithm>
#include "inmost.h"
#include "anifem++/fem/tetdofmap.h"
namespace asmm {
using sim::Rng; using sim::mix;
typedef std::array<double, 3> P3;
static const int EDGE_V[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
inline int face_v(int f, int k) { return (f + k) % 4; }
inline double det4(const P3& a, const P3& b, const P3& c, const P3& d) {
    double u[3], v[3], w[3]; for (int k = 0; k < 3; ++k) u[k] = b[k] - a[k], v[k] = c[k] - a[k], w[k] = d[k] - a[k];
    return (u[1] * v[2] - u[2] * v[1]) * w[0] + (u[2] * v[0] - u[0] * v[2]) * w[1] + (u[0] * v[1] - u[1] * v[0]) * w[2];
}
// ------------------------------------------------------------------------------------------------ mesh
struct GMesh {
    std::vector<P3> x; std::vector<std::array<int, 4>> cells;
    std::vector<std::vector<int>> ent[4]; // nodes (sorted) of entity e of dimension d
    std::map<std::vector<int>, int> find[4];
    int add(int d, std::vector<int> n) { std::sort(n.begin(), n.end()); auto it = find[d].find(n); if (it != find[d].end()) return it->second; int k = (int)ent[d].size(); ent[d].push_back(n); find[d][n] = k; return k; }
    double det(const std::array<int, 4>& c) const { return det4(x[(size_t)c[0]], x[(size_t)c[1]], x[(size_t)c[2]], x[(size_t)c[3]]); }
    void make(Rng& r, int ncells) {
        x = {P3{{0, 0, 0}}, P3{{1, 0, 0}}, P3{{0, 1, 0}}, P3{{0, 0, 1}}};
        for (auto& p : x) for (auto& v : p) v += 0.1 * (r.unit() - 0.5);
        cells.push_back({{0, 1, 2, 3}});
        while ((int)cells.size() < ncells) {
            std::array<int, 4> c = cells[(size_t)r.below((long)cells.size())]; for (int k = 3; k > 0; --k) std::swap(c[(size_t)k], c[(size_t)r.below(k + 1)]);
            int keep = r.chance(3, 4) ? 3 : (int)r.below(3); // shares a face, sometimes an edge, a node or nothing
            std::array<int, 4> n = c; size_t nx = x.size();
            if (keep == 3) { // is the face free?
                int used = 0; for (auto& q : cells) { int m = 0; for (int k = 0; k < 3; ++k) m += std::count(q.begin(), q.end(), c[(size_t)k]) > 0; used += m == 3; }
                if (used > 1) continue;
            }
            for (int k = keep; k < 4; ++k) { P3 p; for (int j = 0; j < 3; ++j) { double g = 0; for (int q = 0; q < 3; ++q) g += x[(size_t)c[(size_t)q]][(size_t)j] / 3; p[(size_t)j] = 2 * g - x[(size_t)c[3]][(size_t)j] + 0.6 * (r.unit() - 0.5); } n[(size_t)k] = (int)x.size(); x.push_back(p); }
            if (std::fabs(det(n)) < 0.02 || (keep == 3 && det(n) * det(c) > 0)) { // too flat, or on the same side of the common face
                x.resize(nx); continue; }
            cells.push_back(n);
        }
        for (size_t i = 0; i < x.size(); ++i) add(0, {(int)i});
        for (auto& c : cells) {
            for (auto& e : EDGE_V) add(1, {c[(size_t)e[0]], c[(size_t)e[1]]});
            for (int f = 0; f < 4; ++f) add(2, {c[(size_t)face_v(f, 0)], c[(size_t)face_v(f, 1)], c[(size_t)face_v(f, 2)]});
            add(3, {c[0], c[1], c[2], c[3]});
        }
    }
};
// ------------------------------------------------------------------------------------------------ spaces
// geometrical types: 0 node, 1 edge, 2 oriented edge, 3 face, 4 oriented face, 5 cell
static const int ET_DIM[6] = {0, 1, 1, 2, 2, 3}, ET_NEL[6] = {4, 6, 6, 4, 4, 1}, ET_NGR[6] = {1, 2, 2, 3, 3, 5};
static const int VOL[6][5] = {{1}, {1, 2}, {1, 2}, {1, 3, 6}, {1, 3, 6}, {1, 4, 6, 12, 24}};
struct Base { const char* name; unsigned g[6][5]; // orbits of every symmetry group
    int nd(int et) const { int s = 0; for (int k = 0; k < ET_NGR[et]; ++k) s += (int)g[et][k] * VOL[et][k]; return s; }
    int tet() const { int s = 0; for (int e = 0; e < 6; ++e) s += nd(e) * ET_NEL[e]; return s; }
};
// letters on the vertices of the element
inline std::vector<int> letters(int et, int group, int lsid) {
    int d = ET_DIM[et]; std::vector<int> r((size_t)d + 1, 0);
    if (group == 0) return r;
    if (group == 1) { r[(size_t)lsid] = 1; return r; }
    static const char* S6F[6] = {"012", "120", "201", "021", "210", "102"};
    static const char* S6[6] = {"0011", "0101", "1001", "0110", "1010", "1100"};
    static const char* S12[12] = {"1200", "2010", "0120", "1020", "0210", "2100", "2001", "0102", "1002", "0201", "0021", "0012"};
    static const char* S24[24] = {"0123", "1203", "2013", "0213", "2103", "1023", "0132", "1230", "2031", "0231", "2130", "1032", "0312", "1320", "2301", "0321", "2310", "1302", "3012", "3120", "3201", "3021", "3210", "3102"};
    const char* s = d == 2 ? S6F[lsid] : group == 2 ? S6[lsid] : group == 3 ? S12[lsid] : S24[lsid];
    for (int k = 0; k <= d; ++k) r[(size_t)k] = s[k] - '0';
    return r;
}
struct Part { Base b; int dim; bool vec; }; // b^dim
struct Var { std::vector<Part> parts; bool complex; };
struct LDof { int var, part, comp, et, nelem, leid, group, orbit, lsid, dim_id, lde; };
struct Space {
    std::vector<Var> vars; std::vector<LDof> tet; std::vector<LDof> elem[6]; // of one element
    int n = 0; bool trivial = true; unsigned mask = 0; int nd[6] = {0, 0, 0, 0, 0, 0};
    std::vector<int> var_begin;
    void finish() {
        tet.clear(); var_begin.clear();
        for (size_t v = 0; v < vars.size(); ++v) {
            var_begin.push_back((int)tet.size()); int off[6] = {0, 0, 0, 0, 0, 0};
            for (size_t s = 0; s < vars[v].parts.size(); ++s) for (int c = 0; c < vars[v].parts[s].dim; ++c) {
                const Base& b = vars[v].parts[s].b;
                for (int et = 0; et < 6; ++et) {
                    for (int e = 0; e < ET_NEL[et]; ++e) { int leid = 0;
                        for (int g = 0; g < ET_NGR[et]; ++g) for (unsigned o = 0; o < b.g[et][g]; ++o) for (int k = 0; k < VOL[et][g]; ++k, ++leid) {
                            LDof d{(int)v, (int)s, c, et, e, leid, g, (int)o, k, vars[v].complex ? 0 : c, vars[v].complex ? off[et] + leid : leid};
                            tet.push_back(d); if (e == 0) elem[et].push_back(d); if (g) trivial = false; mask |= 1u << et;
                        } }
                    off[et] += b.nd(et); nd[et] += b.nd(et);
                }
            }
        }
        var_begin.push_back((int)tet.size()); n = (int)tet.size();
    }
    // the vertices (0..3) of the element of a local degree of freedom
    static std::vector<int> verts(int et, int nelem) {
        int d = ET_DIM[et]; if (d == 0) return {nelem}; if (d == 1) return {EDGE_V[nelem][0], EDGE_V[nelem][1]}; if (d == 2) return {face_v(nelem, 0), face_v(nelem, 1), face_v(nelem, 2)}; return {0, 1, 2, 3};
    }
    static std::vector<int> key(const LDof& d, const std::vector<int>& nodes /* of the element, in the local order */) {
        std::vector<int> l = letters(d.et, d.group, d.lsid); std::vector<std::pair<int, int>> s;
        for (size_t k = 0; k < nodes.size(); ++k) s.push_back({nodes[k], l[k]});
        std::sort(s.begin(), s.end());
        std::vector<int> r{d.var, d.part, d.comp, d.et, d.group, d.orbit}; for (auto& p : s) r.push_back(p.first); for (auto& p : s) r.push_back(p.second);
        return r;
    }
    static int sign(const LDof& d, const std::array<int, 4>& L, const GMesh& g) {
        if (d.et == 2) return L[(size_t)EDGE_V[d.nelem][0]] < L[(size_t)EDGE_V[d.nelem][1]] ? 1 : -1;
        if (d.et != 4) return 1;
        std::vector<int> f{L[(size_t)face_v(d.nelem, 0)], L[(size_t)face_v(d.nelem, 1)], L[(size_t)face_v(d.nelem, 2)]}; std::sort(f.begin(), f.end());
        return det4(g.x[(size_t)f[0]], g.x[(size_t)f[1]], g.x[(size_t)f[2]], g.x[(size_t)L[(size_t)((d.nelem + 3) % 4)]]) < 0 ? 1 : -1; // outward?
    }
};
inline Ani::DofT::DofMap base_map(const Base& b) {
    using namespace Ani::DofT;
    auto& g = b.g;
    DofSymmetries s({{g[0][0]}}, {{g[1][0], g[1][1]}}, {{g[2][0], g[2][1]}}, {{g[3][0], g[3][1], g[3][2]}}, {{g[4][0], g[4][1], g[4][2]}}, {{g[5][0], g[5][1], g[5][2], g[5][3], g[5][4]}});
    return DofMap(UniteDofMap(s));
}
inline const std::vector<Base>& catalogue() {
    static const std::vector<Base> c = {
        {"P0", {{0}, {0}, {0}, {0}, {0}, {1}}}, {"P1", {{1}, {0}, {0}, {0}, {0}, {0}}}, {"P2", {{1}, {1}, {0}, {0}, {0}, {0}}}, {"P3", {{1}, {0, 1}, {0}, {1}, {0}, {0}}},
        {"MINI", {{1}, {0}, {0}, {0}, {0}, {1}}}, {"CR1", {{0}, {0}, {0}, {1}, {0}, {0}}}, {"RT0", {{0}, {0}, {0}, {0}, {1}, {0}}}, {"ND0", {{0}, {0}, {1}, {0}, {0}, {0}}},
    };
    return c;
}
inline Base random_base(Rng& r) {
    if (r.chance(3, 5)) return catalogue()[(size_t)r.below((long)catalogue().size())];
    Base b; memset(b.g, 0, sizeof b.g); b.name = nullptr;
    int k = (int)r.in(1, 3);
    while (k-- > 0) {
        int et = (int)r.below(6), g = (int)r.below(ET_NGR[et]); if (r.chance(1, 3)) g = 0;
        b.g[et][g] += (unsigned)(g == 0 && r.chance(1, 3) ? 2 : 1);
    }
    return b;
}
inline Space random_space(Rng& r, int maxn, bool oriented_ok) {
    for (;;) {
        Space s; int nv = r.chance(1, 2) ? 1 : (int)r.in(1, 3);
        for (int v = 0; v < nv; ++v) {
            Var x; int t = (int)r.below(10); x.complex = false;
            if (t < 5) x.parts.push_back({random_base(r), 1, false});
            else if (t < 8) x.parts.push_back({random_base(r), r.chance(1, 5) ? (int)r.in(4, 7) : (int)r.in(1, 3), true});
            else if (r.chance(1, 4)) { x.complex = true; bool th = r.chance(1, 2); x.parts.push_back({catalogue()[th ? 2 : 1], 3, true}); x.parts.push_back({catalogue()[th ? 1 : 0], 1, false}); } // Taylor-Hood and P1^3 x P0
            else { x.complex = true; int np = (int)r.in(2, 3); while (np-- > 0) { bool vec = r.chance(1, 3); x.parts.push_back({random_base(r), vec ? (int)r.in(2, 3) : 1, vec}); } }
            s.vars.push_back(x);
        }
        s.finish();
        if (s.n > maxn || s.n < 1) continue;
        if (!oriented_ok && (s.mask & 16u)) continue;
        return s;
    }
}
// ------------------------------------------------------------------------------------------------ distributed mesh
struct World;
struct RankMesh {
    World* w = nullptr; int r = 0; INMOST::Mesh m; std::vector<int> lid2g[4]; std::map<int, int> g2lid[4];
};
struct World {
    GMesh g; Space sp; int nr = 1;
    std::vector<int> cell_rank; std::vector<int> owner[4], gid[4]; std::vector<std::vector<char>> local[4]; // local[d][e][rank]
    std::vector<std::unique_ptr<RankMesh>> ranks; std::unique_ptr<INMOST::Comm> comm;
    std::map<std::vector<int>, int> dofs; std::vector<std::pair<int, int>> dof_ent; std::vector<std::vector<int>> dof_key; // (dimension, entity)
    // found by the reference right-hand side
    std::vector<long> idx; std::vector<int> sig; std::vector<int> at; // at: index -> dof
    long total() const { return (long)dof_ent.size(); }

    void make(uint64_t seed, int ncells, int nranks, int maxn, bool oriented_ok) {
        Rng r(mix(seed, 1)); nr = nranks; g.make(r, ncells);
        Rng rs(mix(seed, 2)); sp = random_space(rs, maxn, oriented_ok);
        Rng rp(mix(seed, 3)); int style = (int)rp.below(3);
        for (int c = 0; c < ncells; ++c) cell_rank.push_back(style == 0 ? (int)rp.below(nr) : style == 1 ? c * nr / ncells : rp.chance(3, 4) ? 0 : (int)rp.below(nr));
        for (int d = 0; d < 4; ++d) {
            size_t n = g.ent[d].size(); owner[d].assign(n, nr); local[d].assign(n, std::vector<char>((size_t)nr, 0)); gid[d].assign(n, -1);
        }
        auto each = [&](int c, auto f) { // entities of a cell
            auto& n = g.cells[(size_t)c]; for (int k = 0; k < 4; ++k) f(0, n[(size_t)k]);
            for (auto& e : EDGE_V) f(1, g.add(1, {n[(size_t)e[0]], n[(size_t)e[1]]}));
            for (int k = 0; k < 4; ++k) f(2, g.add(2, {n[(size_t)face_v(k, 0)], n[(size_t)face_v(k, 1)], n[(size_t)face_v(k, 2)]}));
            f(3, g.add(3, {n[0], n[1], n[2], n[3]}));
        };
        std::vector<std::vector<char>> near((size_t)nr, std::vector<char>(g.x.size(), 0));
        for (int c = 0; c < ncells; ++c) { each(c, [&](int d, int e) { owner[d][(size_t)e] = std::min(owner[d][(size_t)e], cell_rank[(size_t)c]); }); for (int k : g.cells[(size_t)c]) near[(size_t)cell_rank[(size_t)c]][(size_t)k] = 1; }
        for (int c = 0; c < ncells; ++c) for (int q = 0; q < nr; ++q) {
            bool in = false; for (int k : g.cells[(size_t)c]) in = in || near[(size_t)q][(size_t)k];
            if (in) each(c, [&](int d, int e) { local[d][(size_t)e][(size_t)q] = 1; });
        }
        renumber(mix(seed, 4));
        for (auto& c : g.cells) for (auto& d : sp.tet) {
            std::vector<int> n; for (int v : Space::verts(d.et, d.nelem)) n.push_back(c[(size_t)v]);
            auto k = Space::key(d, n); auto it = dofs.find(k); if (it != dofs.end()) continue;
            dofs[k] = (int)dof_ent.size(); dof_ent.push_back({ET_DIM[d.et], g.add(ET_DIM[d.et], n)}); dof_key.push_back(k);
        }
        idx.assign(dof_ent.size(), -1); sig.assign(dof_ent.size(), 0); at.assign(dof_ent.size(), -1);
        comm.reset(new INMOST::Comm(nr));
        for (int q = 0; q < nr; ++q) { ranks.emplace_back(new RankMesh); build(q, mix(seed, 10 + (uint64_t)q)); }
        for (int q = 0; q < nr; ++q) for (int d = 0; d < 4; ++d) { auto& R = *ranks[(size_t)q]; for (size_t l = 0; l < R.lid2g[d].size(); ++l) { int e = R.lid2g[d][l]; if (e < 0) continue; R.m.owner_lid[d][l] = ranks[(size_t)owner[d][(size_t)e]]->g2lid[d].at(e); } }
    }
    void renumber(uint64_t seed) { // numbers of the elements: contiguous by rank
        Rng r(seed);
        for (int d = 0; d < 4; ++d) { int next = 0; for (int q = 0; q < nr; ++q) { std::vector<int> own; for (size_t e = 0; e < owner[d].size(); ++e) if (owner[d][e] == q) own.push_back((int)e); for (size_t k = own.size(); k > 1; --k) std::swap(own[k - 1], own[(size_t)r.below((long)k)]); for (int e : own) gid[d][(size_t)e] = next++; } }
    }
    void build(int q, uint64_t seed) {
        Rng r(seed); auto& R = *ranks[(size_t)q]; auto& m = R.m; R.w = this; R.r = q; m.rank = q; if (nr > 1) m.comm = comm.get();
        bool gaps = r.chance(1, 2);
        for (int d = 0; d < 4; ++d) {
            std::vector<int> l; for (size_t e = 0; e < g.ent[d].size(); ++e) if (local[d][e][(size_t)q]) l.push_back((int)e);
            if (gaps) for (int k = (int)r.below(3); k > 0; --k) l.push_back(-1);
            for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[(size_t)r.below((long)k)]);
            R.lid2g[d] = l; size_t n = l.size();
            m.alive[d].assign(n, 1); m.hidden[d].assign(n, 0); m.status[d].assign(n, 0); m.owner[d].assign(n, 0); m.owner_lid[d].assign(n, 0); m.gids[d].assign(n, -1); m.nodes_of[d].resize(n); if (d) m.low[d].resize(n);
            for (size_t k = 0; k < n; ++k) {
                int e = l[k]; if (e < 0) { m.alive[d][k] = 0; continue; }
                R.g2lid[d][e] = (int)k; int o = owner[d][(size_t)e]; m.owner[d][k] = o; m.gids[d][k] = gid[d][(size_t)e];
                int seen = 0; for (char c : local[d][(size_t)e]) seen += c;
                m.status[d][k] = o != q ? INMOST::Element::Ghost : seen > 1 ? INMOST::Element::Shared : INMOST::Element::Owned;
            }
        }
        m.high.resize(R.lid2g[3].size()); m.xyz.assign(3 * R.lid2g[0].size(), 1e300);
        auto shuffle = [&](std::vector<INMOST::HandleType>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[(size_t)r.below((long)k)]); };
        auto H = [&](int d, int e) { return INMOST::ComposeHandle(d, R.g2lid[d].at(e)); };
        for (int d = 0; d < 4; ++d) for (size_t k = 0; k < R.lid2g[d].size(); ++k) {
            int e = R.lid2g[d][k]; if (e < 0) continue; auto& n = g.ent[d][(size_t)e];
            for (int v : n) m.nodes_of[d][k].push_back(H(0, v));
            shuffle(m.nodes_of[d][k]);
            if (d == 0) for (int j = 0; j < 3; ++j) m.xyz[3 * k + (size_t)j] = g.x[(size_t)e][(size_t)j];
            if (d == 1) m.low[1][k] = {H(0, n[0]), H(0, n[1])};
            if (d == 2) m.low[2][k] = {H(1, g.find[1].at({n[0], n[1]})), H(1, g.find[1].at({n[0], n[2]})), H(1, g.find[1].at({n[1], n[2]}))};
            if (d == 3) {
                m.high[k] = m.nodes_of[3][k];
                for (int f = 0; f < 4; ++f) { std::vector<int> t; for (int j = 0; j < 4; ++j) if (j != f) t.push_back(n[(size_t)j]); m.low[3][k].push_back(H(2, g.find[2].at(t))); }
            }
            if (d) shuffle(m.low[d][k]);
        }
        m.finish();
    }
    void push_gids() { for (auto& R : ranks) for (int d = 0; d < 4; ++d) for (size_t k = 0; k < R->lid2g[d].size(); ++k) if (R->lid2g[d][k] >= 0) R->m.gids[d][k] = gid[d][(size_t)R->lid2g[d][k]]; }
    // local degrees of freedom of a cell whose nodes are taken in the order L
    void local_dofs(const std::array<int, 4>& L, std::vector<int>& id, std::vector<int>& sign) const {
        id.resize(sp.tet.size()); sign.resize(sp.tet.size());
        for (size_t i = 0; i < sp.tet.size(); ++i) {
            const LDof& d = sp.tet[i]; std::vector<int> n; for (int v : Space::verts(d.et, d.nelem)) n.push_back(L[(size_t)v]);
            id[i] = dofs.at(Space::key(d, n)); sign[i] = Space::sign(d, L, g);
        }
    }
    int dof_owner(int id) const { auto& e = dof_ent[(size_t)id]; return owner[e.first][(size_t)e.second]; }
};
} // namespace asmm
#endif
