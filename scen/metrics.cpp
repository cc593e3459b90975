// C29: node metrics made from a finite element function on a distributed mesh: ranks are simulated tasks, worker threads
// (OpenMP) run inside a rank. The oracle computes the metric on the whole mesh from its own degrees of freedom.
#include "common.h"
#include <limits>
#include <set>
#include <sstream>
#include <thread>
#include "fefun.h"
#include "anifem++/inmost_interface/fem.h"
#include "anifem++/utils/utils.h"
#include "anifem++/utils/adapt_mesh.h"
double Timer() { Quiet q; return 1e-6 * (double)now_steps(); }
namespace {
typedef std::array<std::array<double, 3>, 3> M3;
M3 zero() { M3 a; for (auto& r : a) r = {{0, 0, 0}}; return a; }
M3 eye(double s) { M3 a = zero(); for (size_t k = 0; k < 3; ++k) a[k][k] = s; return a; }
struct Eig { double l[3]; M3 q; }; // ascending, columns
Eig eig(M3 a) { // rotations
    M3 q = eye(1);
    for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < i; ++j) off = std::max(off, std::fabs(a[i][j])); if (off == 0) break;
        for (size_t i = 0; i < 3; ++i) for (size_t j = i + 1; j < 3; ++j) {
            if (a[i][j] == 0) continue; double th = (a[j][j] - a[i][i]) / (2 * a[i][j]), t = (th < 0 ? -1 : 1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (size_t k = 0; k < 3; ++k) { double x = a[k][i], y = a[k][j]; a[k][i] = c * x - s * y; a[k][j] = s * x + c * y; }
            for (size_t k = 0; k < 3; ++k) { double x = a[i][k], y = a[j][k]; a[i][k] = c * x - s * y; a[j][k] = s * x + c * y; }
            for (size_t k = 0; k < 3; ++k) { double x = q[k][i], y = q[k][j]; q[k][i] = c * x - s * y; q[k][j] = s * x + c * y; }
        }
    }
    Eig e; for (size_t k = 0; k < 3; ++k) e.l[k] = a[k][k]; e.q = q; 
    for (int p = 0; p < 2; ++p) for (size_t k = 0; k < 2; ++k) if (e.l[k] > e.l[k + 1]) { std::swap(e.l[k], e.l[k + 1]); for (size_t i = 0; i < 3; ++i) std::swap(e.q[i][k], e.q[i][k + 1]); }
    return e;
}
template <class F> M3 fun(const Eig& e, F f) { M3 a = zero(); for (size_t k = 0; k < 3; ++k) { double v = f(e.l[k]); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) a[i][j] += e.q[i][k] * v * e.q[j][k]; } return a; }
struct Abs { M3 a; double s[3]; bool deg = true, fuzzy = false; double vol = 0; bool hidden = false, zero_dof = false, boosted = false; }; // |H| of a cell
// bounds on eigenvalues; fuzzy: at a point of discontinuity
M3 clamp(const M3& a, const MetricsConstructTraits& t, bool& fuzzy, bool* changed = nullptr) {
    Eig e = eig(a); bool ch = false; for (double& v : e.l) { if (std::fabs(v - t.M_lambda_min) < 1e-7 * t.M_lambda_min || std::fabs(v - t.M_lambda_max) < 1e-7 * t.M_lambda_max) ch = ch || false; if (v < t.M_lambda_min) { v = t.M_lambda_min; ch = true; } if (v > t.M_lambda_max) { v = t.M_lambda_max; ch = true; } }
    double R = std::max(1.0, t.M_lambda_max_rel), q = e.l[2] / e.l[0];
    if (q > R * (1 + 1e-6)) { double g = std::cbrt(e.l[0] * e.l[1] * e.l[2]); for (double& v : e.l) { v = g * std::min(std::sqrt(R), std::max(1 / std::sqrt(R), v / g)); v = std::min(t.M_lambda_max, std::max(t.M_lambda_min, v)); } ch = true; }
    if (std::fabs(q - R) < 1e-5 * R && std::fabs(q - R) > 1e-11 * R) fuzzy = true; // between: not from a bound
    if (changed) *changed = ch; M3 r = zero(); for (size_t k = 0; k < 3; ++k) for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) r[i][j] += e.q[i][k] * e.l[k] * e.q[j][k]; return r;
}
M3 metric(const M3& absH, const MetricsConstructTraits& t, bool& fuzzy) { M3 a = clamp(absH, t, fuzzy); Eig e = eig(a); double d = e.l[0] * e.l[1] * e.l[2], s = std::pow(d, -0.2); for (auto& r : a) for (auto& v : r) v *= s; return a; }
struct Func { // the function the metric is made for
    int kind = 0; uint64_t seed = 0; int style = 0; std::vector<double> dn, de; // P1, P2: values at nodes and middles of edges
    bool direct() const { return kind == 1 || kind == 2; }
    void make(const GMesh& g) {
        if (!direct()) return; Rng r(mix(seed, 5)); dn.assign(g.x.size(), 0); de.assign(g.ent[1].size(), 0); if (style == 5) return;
        if (style == 1) { double h[6]; for (auto& v : h) v = r.chance(1, 3) ? 0 : r.unit() - 0.5; int rank = (int)r.below(4); if (rank == 0) h[1] = h[2] = h[3] = h[4] = h[5] = 0; if (rank == 1) h[2] = h[4] = h[5] = 0; double c = std::pow(10.0, (double)r.in(-3, 3));
            auto u = [&](const double* x) { return c * (h[0] * x[0] * x[0] + h[1] * x[1] * x[1] + h[2] * x[2] * x[2] + h[3] * x[0] * x[1] + h[4] * x[1] * x[2] + h[5] * x[0] * x[2] + 0.3 * x[0] - 0.2 * x[2]); };
            for (size_t k = 0; k < dn.size(); ++k) dn[k] = u(g.x[k].data()); for (size_t k = 0; k < de.size(); ++k) { double m[3]; for (size_t j = 0; j < 3; ++j) m[j] = (g.x[(size_t)g.ent[1][k][0]][j] + g.x[(size_t)g.ent[1][k][1]][j]) / 2; de[k] = u(m); } return; }
        auto v = [&] { double a = r.unit() * 4 - 2; if (style == 2 && r.chance(3, 4)) return 0.0; if (style == 3) a *= std::pow(10.0, (double)r.in(-6, 4)); if (style == 4) a = a < 0 ? -1.3 : 1.3; return a; };
        bool edges = r.chance(1, 2); for (auto& a : dn) a = v(); for (auto& a : de) a = v(); if (edges && kind == 2) for (auto& a : dn) a = 0; // an estimate of errors on edges
    }
    // degrees of freedom of a cell: 4 nodes, 6 edges
    void dofs(const GMesh& g, const Geo& q, double* d) const { for (size_t k = 0; k < 10; ++k) d[k] = 0; for (size_t k = 0; k < 4; ++k) d[k] = dn[(size_t)q.n[k]]; if (kind == 2) for (size_t e = 0; e < 6; ++e) { std::vector<int> t{q.n[(size_t)EDGE_V[e][0]], q.n[(size_t)EDGE_V[e][1]]}; std::sort(t.begin(), t.end()); d[4 + e] = de[(size_t)g.find[1].at(t)]; } }
    // gradient of the function with degrees of freedom d at barycentric coordinates l
    void grad(const Geo& q, const double* d, const double* l, double* r) const {
        r[0] = r[1] = r[2] = 0; for (int k = 0; k < 4; ++k) for (int j = 0; j < 3; ++j) r[j] += d[k] * (kind == 1 ? 1 : 4 * l[k] - 1) * q.gl[k][j];
        if (kind == 2) for (int e = 0; e < 6; ++e) { int a = EDGE_V[e][0], b = EDGE_V[e][1]; for (int j = 0; j < 3; ++j) r[j] += 4 * d[4 + e] * (l[a] * q.gl[b][j] + l[b] * q.gl[a][j]); }
    }
    M3 hess(const Geo& q, const double* d) const {
        M3 h = zero(); if (kind == 1) return h;
        for (int k = 0; k < 4; ++k) for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) h[i][j] += 4 * d[k] * q.gl[k][i] * q.gl[k][j];
        for (int e = 0; e < 6; ++e) { int a = EDGE_V[e][0], b = EDGE_V[e][1]; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) h[i][j] += 4 * d[4 + e] * (q.gl[a][i] * q.gl[b][j] + q.gl[b][i] * q.gl[a][j]); }
        return h;
    }
};
struct Case { MetricsConstructTraits t; Func f; std::vector<Abs> cell; bool any = false, any_fuzzy = false; };
bool degenerate(const Eig& e, double rel, bool& fuzzy) { if (e.l[2] == 0 || e.l[0] <= 1e-11 * e.l[2]) return true; double q = e.l[2] / e.l[0]; if (std::fabs(q - rel) < 1e-4 * rel || q > 1e8) fuzzy = true; return q > rel; }
void absolute(const M3& h, Abs& c) { Eig e = eig(h); for (double& v : e.l) v = std::fabs(v); c.a = zero(); for (size_t k = 0; k < 3; ++k) for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) c.a[i][j] += e.q[i][k] * e.l[k] * e.q[j][k]; for (size_t k = 0; k < 3; ++k) c.s[k] = e.l[k]; std::sort(c.s, c.s + 3); }
void cell_abs(const World& w, Case& k, int g) {
    Abs& c = k.cell[(size_t)g]; Geo q(w.g, g); c.vol = q.vol; const Func& f = k.f;
    if (!f.direct()) { // mean of second derivatives, by differences of gradients which are polynomials of the fourth degree at most
        const double A = 0.1381966011250105, B = 0.5854101966249685; M3 h = zero(); double scale = 0;
        for (int p = 0; p < 4; ++p) { double x[3] = {0, 0, 0}; for (int i = 0; i < 4; ++i) for (size_t j = 0; j < 3; ++j) x[j] += (i == p ? B : A) * q.x[i][j];
            for (size_t j = 0; j < 3; ++j) { double st = 0.1, gr[4][3]; static const double at[4] = {-2, -1, 1, 2}, wt[4] = {1. / 12, -8. / 12, 8. / 12, -1. / 12}; for (int s = 0; s < 4; ++s) { double y[3] = {x[0], x[1], x[2]}; y[j] += at[s] * st; D v = eval(w.g, KINDS[f.kind], g, y, f.seed, 0); for (int i = 0; i < 3; ++i) gr[s][i] = v.g[i], scale = std::max(scale, std::fabs(v.g[i])); }
                for (size_t i = 0; i < 3; ++i) for (int s = 0; s < 4; ++s) h[i][j] += 0.25 * wt[s] * gr[s][i] / st; } }
        for (auto& r : h) for (auto& v : r) v *= -0.5; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < i; ++j) h[i][j] = h[j][i] = (h[i][j] + h[j][i]) / 2;
        absolute(h, c); Eig e; for (int i = 0; i < 3; ++i) e.l[i] = c.s[i]; c.deg = degenerate(e, k.t.H_lambda_max_rel, c.fuzzy);
        if (c.deg || c.s[0] < 1e-5 * scale) c.fuzzy = true; // (would be computed again with other degrees of freedom, or is rounding error)
        return;
    }
    double d[10]; f.dofs(w.g, q, d); double sum = 0; for (double v : d) sum += std::fabs(v);
    c.a = zero(); c.s[0] = c.s[1] = c.s[2] = 0; if (!(sum > 0)) { c.zero_dof = true; return; }
    auto make = [&](const double* dd) {
        double al[10], s = 0; for (int i = 0; i < 10; ++i) { al[i] = dd[i]; s += std::fabs(dd[i]); }
        if (k.t.distrib_heuristics) { const double A = 0.1381966011250105, B = 0.5854101966249685; double e = 0; for (int p = 0; p < 4; ++p) { double l[4] = {A, A, A, A}, gr[3]; l[p] = B; f.grad(q, dd, l, gr); for (double v : gr) e += v * v / 4; } for (int i = 0; i < 10; ++i) al[i] = std::fabs(dd[i]) * e / s; }
        for (double& v : al) v *= -0.5; M3 h = f.hess(q, al); Abs r; absolute(h, r); return r;
    };
    Abs a = make(d); Eig e; for (int i = 0; i < 3; ++i) e.l[i] = a.s[i]; bool fz = false; bool dg = degenerate(e, k.t.H_lambda_max_rel, fz); c.a = a.a; for (int i = 0; i < 3; ++i) c.s[i] = a.s[i]; c.deg = dg; c.fuzzy = fz;
    // relative to the size of the data, to tell rounding errors from values
    double scale = 0; for (int i = 0; i < 10; ++i) for (int j = 0; j < 4; ++j) for (double v : q.gl[j]) scale = std::max(scale, std::fabs(d[i]) * v * v); if (k.t.distrib_heuristics) scale *= scale / std::max(sum, 1e-300); if (c.s[2] < 1e-9 * scale) c.fuzzy = true; else if (!dg && c.s[0] < 1e-7 * scale) c.fuzzy = true;
    if (f.kind == 1) { c.fuzzy = false; c.a = zero(); c.s[0] = c.s[1] = c.s[2] = 0; c.deg = true; c.boosted = true; c.fuzzy = true; return; }
    if (!dg) return;
    c.boosted = true; double mx = 0; for (double v : d) mx = std::max(mx, std::fabs(v)); std::vector<Abs> alt; bool all = true, none = true;
    for (int i = 0; i < 10; ++i) if (std::fabs(d[i]) >= mx * (1 - 1e-7)) { double dd[10]; std::copy(d, d + 10, dd); dd[i] *= k.t.alpha_boost; Abs b = make(dd); for (int j = 0; j < 3; ++j) e.l[j] = b.s[j]; bool g2 = degenerate(e, k.t.H_lambda_max_rel, c.fuzzy); all = all && g2; none = none && !g2; alt.push_back(b); }
    if (all) return; if (alt.size() > 1) { c.fuzzy = true; return; } if (alt[0].s[0] < 1e-7 * scale) c.fuzzy = true;
    c.a = alt[0].a; for (int j = 0; j < 3; ++j) c.s[j] = alt[0].s[j]; c.deg = false; (void)none;
}
// possible metrics of a node; empty: depends on rounding errors
std::vector<M3> node_metric(const Case& k, const std::vector<int>& patch) {
    std::vector<M3> r; bool fz = false; std::vector<const Abs*> good, all; for (int g : patch) { const Abs& c = k.cell[(size_t)g]; if (c.hidden) continue; if (c.fuzzy) return r; all.push_back(&c); if (!c.deg) good.push_back(&c); }
    const auto& t = k.t;
    if (all.empty()) r.push_back(eye(t.isotropic_fallback));
    else if (!good.empty() && t.vertex_projection_strategy == 0) { double best = 0; for (auto* c : good) best = std::max(best, c->s[0] * c->s[1] * c->s[2]); for (auto* c : good) if (c->s[0] * c->s[1] * c->s[2] >= best * (1 - 1e-6)) r.push_back(metric(c->a, t, fz)); }
    else if (!good.empty()) { M3 sum = zero(); for (auto* c : good) { M3 l = fun(eig(metric(c->a, t, fz)), [](double v) { return std::log(v); }); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) sum[i][j] += l[i][j] / (double)good.size(); } r.push_back(fun(eig(sum), [](double v) { return std::exp(v); })); }
    else {
        double thr = t.M_lambda_min; int nb = 0; double pb = 0; struct K { int n; double p; const Abs* c; }; std::vector<K> l;
        for (auto* c : all) { K x{0, 0, c}; double p = 1; for (double v : c->s) { if (std::fabs(v - thr) < 1e-6 * thr || (c->s[2] > 0 && v < 1e-10 * c->s[2] && v > 0 && thr < 1e-9 * c->s[2])) { if (!(c->s[2] * 1e-11 < thr && v < thr * 0.1)) return {}; } if (v > thr) { x.n++; p *= v; } } x.p = x.n ? p : 0; l.push_back(x); }
        for (auto& x : l) if (x.n > nb || (x.n == nb && x.p > pb)) nb = x.n, pb = x.p;
        if (nb > 0) { for (auto& x : l) if (x.n == nb && x.p >= pb * (1 - 1e-6)) { Eig e = eig(x.c->a); double low = 1e308; for (double v : e.l) if (v > thr) low = std::min(low, v); for (double& v : e.l) if (!(v > thr)) v = low; M3 a = zero(); for (size_t q = 0; q < 3; ++q) for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) a[i][j] += e.q[i][q] * e.l[q] * e.q[j][q]; r.push_back(metric(a, t, fz)); } }
        else { double ws = 0, cs = 0; for (auto* c : all) if (c->s[2] > 0) { ws += c->vol; cs += c->vol * c->s[2]; } if (!ws && k.any_fuzzy && !k.any) return {}; r.push_back(eye(k.any && ws > 0 ? cs / ws : t.isotropic_fallback)); }
    }
    for (auto& m : r) m = clamp(m, t, fz); if (fz) r.clear(); return r;
}
std::ostringstream& sink() { static std::ostringstream s; return s; }
struct Rank {
    World& w; RankMesh& R; const Plan& p; int r, nr;
    Rank(World& w_, const Plan& p_, int r_) : w(w_), R(*w_.ranks[(size_t)r_]), p(p_), r(r_), nr(w_.nr) {}
    bool fault_ok() const { return nr == 1 && p.get("hw") == 1; }
    struct Shared { std::vector<double> m; std::vector<char> have; };
    void make(const Op& o) {
        Case k; Rng r0((uint64_t)o.at(5)); auto& t = k.t; Func& f = k.f; static const int KS[8] = {2, 2, 2, 1, 3, 4, 6, 7}; f.kind = KS[o.at(0) % 8]; f.seed = (uint64_t)o.at(4); f.style = (int)(o.at(1) % 6); f.make(w.g);
        t.distrib_heuristics = f.direct() && r0.chance(1, 2); t.vertex_projection_strategy = (int)r0.below(2); t.max_quad_order = (KINDS[f.kind].bubble ? 3 : 2) + (int)r0.below(5); t.verbosity = o.at(3) != 0;
        if (r0.chance(1, 3)) t.M_lambda_max_rel = r0.chance(1, 4) ? 1 : (double)r0.in(2, 60); if (r0.chance(1, 4)) t.H_lambda_max_rel = (double)r0.in(2, 200); if (r0.chance(1, 4)) t.M_lambda_min = 0.3 * r0.unit() + 0.01; if (r0.chance(1, 4)) t.M_lambda_max = 1 + 3 * r0.unit(); if (r0.chance(1, 3)) t.alpha_boost = 1 + r0.unit(); if (r0.chance(1, 2)) t.isotropic_fallback = 0.5 + r0.unit();
        k.cell.resize(w.g.cells.size()); Rng rh(mix((uint64_t)o.at(4), 9)); bool hide = rh.chance(1, 6);
        for (size_t g = 0; g < k.cell.size(); ++g) { k.cell[g].hidden = hide && rh.chance(1, 4); cell_abs(w, k, (int)g); if (!k.cell[g].hidden) { if (k.cell[g].fuzzy) k.any_fuzzy = true; if (k.cell[g].s[2] > 0) k.any = true; } }
        // the function
        Ani::FemSpace fem = choose_space_from_name(KINDS[f.kind].name); INMOST::Tag var; INMOST::Solver::mesh() = &R.m; std::string mname = "metric";
        { Loud l; var = createFemVarTag(&R.m, *fem.dofMap().target<>(), "u", (o.at(2) & 1) != 0); }
        if (f.direct()) { for (size_t l = 0; l < R.lid2g[0].size(); ++l) if (R.lid2g[0][l] >= 0) INMOST::Node(&R.m, INMOST::ComposeHandle(0, (int)l)).RealArray(var)[0] = f.dn[(size_t)R.lid2g[0][l]]; if (f.kind == 2) for (size_t l = 0; l < R.lid2g[1].size(); ++l) if (R.lid2g[1][l] >= 0) INMOST::Edge(&R.m, INMOST::ComposeHandle(1, (int)l)).RealArray(var)[0] = f.de[(size_t)R.lid2g[1][l]]; }
        else { std::function<void(INMOST::Cell, std::array<double, 3>, double*)> fp = [&](INMOST::Cell c, std::array<double, 3> X, double* res) { Quiet q; res[0] = eval(w.g, KINDS[f.kind], R.lid2g[3][(size_t)c.LocalID()], X.data(), f.seed, 0).v; }; Loud l; make_l2_project(fp, &R.m, var, fem, KINDS[f.kind].bubble ? 8 : 2 * KINDS[f.kind].deg); }
        for (size_t l = 0; l < R.lid2g[3].size(); ++l) if (R.lid2g[3][l] >= 0) R.m.hidden[3][l] = k.cell[(size_t)R.lid2g[3][l]].hidden;
        std::map<std::string, std::vector<double>> before; INMOST::Tag mt; int how = (int)((o.at(2) >> 1) % 4), size = how == 1 ? (int)r0.in(7, 9) : 6;
        mt = R.m.CreateTag(mname, INMOST::DATA_REAL, how == 3 ? INMOST::CELL : INMOST::NODE, INMOST::NONE, how == 2 ? ENUMUNDEF : (INMOST_DATA_ENUM_TYPE)size); if (how == 1) for (auto& v : mt.d->r[0]) v = -7;
        if (how == 2) for (size_t l = 0; l < mt.d->rv[0].size(); ++l) if (r0.chance(1, 4)) mt.d->rv[0][l].assign(8, 5);
        // wrong arguments
        if (o.at(6)) { auto bad = t; INMOST::Tag none; int th = 0; bad.vertex_projection_strategy = (int)o.at(6) + 1; try { Loud l; construct_metrics(fem, var, mt, bad); } catch (const std::runtime_error&) { ++th; } try { Loud l; construct_metrics(fem, none, mt, t); } catch (const std::runtime_error&) { ++th; } try { Loud l; construct_metrics(fem, var, none, t); } catch (const std::runtime_error&) { ++th; } try { Loud l; construct_metrics(fem ^ 2, var, mt, t); } catch (const std::runtime_error&) { ++th; } if (th != 4) violation("argument", "a wrong argument is accepted"); probe("wrong-argument"); }
        auto udata = var.d->r[0]; auto uedge = var.d->r[1]; std::set<std::string> tags; for (auto& x : R.m.tags) tags.insert(x.first);
        if (nr == 1 || r == 0) sink().str(""); bool oom = false;
        if (nr > 1) { Loud l; int x = 0; R.m.collective("before", &x, [](std::vector<void*>&) {}); }
        for (int attempt = 0; attempt < 2; ++attempt) {
            oom = false; arm(attempt == 0 && fault_ok() ? o.fail : 0);
            try { Loud l; construct_metrics(fem, var, mt, t); } catch (const std::bad_alloc&) { oom = true; }
            bool hit = fired(); arm(0); if (oom && !hit) violation("exception", "out of memory without a fault"); if (oom) { probe("out-of-memory"); sink().str(""); sink().clear(); } else { if (hit) t.verbosity = false; /* a stream may have lost the text */ break; }
        }
        if (oom) violation("exception", "the second attempt fails too");
        if (!mt.isValid() || !mt.isDefined(INMOST::NODE) || (how != 2 && (int)mt.GetSize() != size) || mt.GetTagName() != mname || R.m.GetTag(mname) != mt) violation("tag", "the metric is not in the tag of the user");
        { std::string x; for (auto& y : R.m.tags) if (!tags.count(y.first)) x += " " + y.first; if (!x.empty()) violation("tags", "data stay on the mesh:%s", x.c_str()); } if (R.m.markers) violation("marker", "a marker stays on the mesh");
        if (var.d->r[0] != udata || var.d->r[1] != uedge) violation("input", "the function changed");
        for (size_t l = 0; l < R.lid2g[0].size(); ++l) {
            int e = R.lid2g[0][l]; if (e < 0) continue; auto a = INMOST::Node(&R.m, INMOST::ComposeHandle(0, (int)l)).RealArray(mt); if ((int)a.size() < 6) violation("size", "a node has %ld components", (long)a.size());
            for (size_t j = 6; j < a.size(); ++j) if (a[j] != (how == 1 ? -7 : 5)) violation("beyond", "component %ld of a tag of size %ld is changed", (long)j, (long)a.size());
            M3 m; m[0][0] = a[0]; m[1][1] = a[1]; m[2][2] = a[2]; m[0][1] = m[1][0] = a[3]; m[1][2] = m[2][1] = a[4]; m[0][2] = m[2][0] = a[5];
            for (auto& q : m) for (double v : q) if (!std::isfinite(v)) violation("finite", "the metric of node %d is not finite", e);
            Eig s = eig(m); if (s.l[0] < t.M_lambda_min * (1 - 1e-6) - 1e-9 * s.l[2] || s.l[2] > t.M_lambda_max * (1 + 1e-6) || (s.l[0] > 1e-7 * s.l[2] && s.l[2] > s.l[0] * std::max(1.0, t.M_lambda_max_rel) * (1 + 1e-5))) violation("bounds", "eigenvalues %g %g %g of the metric of node %d are outside of bounds (%g, %g, ratio %g)", s.l[0], s.l[1], s.l[2], e, t.M_lambda_min, t.M_lambda_max, t.M_lambda_max_rel);
            std::vector<int> patch; for (size_t g = 0; g < w.g.cells.size(); ++g) for (int n : w.g.cells[g]) if (n == e) patch.push_back((int)g);
            auto want = node_metric(k, patch); if (want.empty()) { probe("not-compared"); continue; }
            bool ok = false; for (auto& x : want) { double err = 0, sc = 0; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) err = std::max(err, std::fabs(x[i][j] - m[i][j])), sc = std::max(sc, std::fabs(x[i][j])); ok = ok || err <= 1e-5 * sc; }
            if (!ok) { auto& x = want[0]; violation("metric", "the metric of node %d on process %d of %d is (%.9g %.9g %.9g %.9g %.9g %.9g) instead of (%.9g %.9g %.9g %.9g %.9g %.9g) for %s", e, r, nr, a[0], a[1], a[2], a[3], a[4], a[5], x[0][0], x[1][1], x[2][2], x[0][1], x[1][2], x[0][2], KINDS[f.kind].name); }
            probe("compared");
        }
        ghosts(mt); if (t.verbosity) report(k); if (nr == 1 || r == 0) { sink().clear(); sink().str(""); }
        R.m.DeleteTag(mt); R.m.DeleteTag(var); for (auto& h : R.m.hidden[3]) h = 0; INMOST::Solver::mesh() = nullptr;
        if (nr > 1) { Loud l; int x = 0; R.m.collective("after", &x, [](std::vector<void*>&) {}); }
    }
    std::map<int, std::array<double, 6>> nodes; // metrics of all nodes
    // a copy of a node has the metric of its owner
    void ghosts(INMOST::Tag mt) {
        struct X { Rank* k; INMOST::Tag t; } x{this, mt}; nodes.clear();
        if (nr == 1) { for (size_t l = 0; l < R.lid2g[0].size(); ++l) { int e = R.lid2g[0][l]; if (e < 0) continue; auto a = INMOST::Node(&R.m, INMOST::ComposeHandle(0, (int)l)).RealArray(mt); std::copy(a.begin(), a.begin() + 6, nodes[e].begin()); } return; }
        Loud l;
        R.m.collective("compare", &x, [](std::vector<void*>& s) { Quiet q; std::map<int, std::array<double, 6>> seen;
            for (void* v : s) { X* y = (X*)v; for (size_t l = 0; l < y->k->R.lid2g[0].size(); ++l) { int e = y->k->R.lid2g[0][l]; if (e < 0) continue; auto a = INMOST::Node(&y->k->R.m, INMOST::ComposeHandle(0, (int)l)).RealArray(y->t); std::array<double, 6> b; std::copy(a.begin(), a.begin() + 6, b.begin()); auto it = seen.find(e); if (it == seen.end()) seen[e] = b; else if (it->second != b) violation("copies", "copies of node %d have different metrics", e); } } for (void* v : s) ((X*)v)->k->nodes = seen; });
        probe("copies-compared");
    }
    void report(const Case& k) {
        if (r != 0) return; long cells = 0, zero_dof = 0, deg = 0, boost = 0; bool fz = k.any_fuzzy; for (auto& c : k.cell) if (!c.hidden) { cells++; zero_dof += c.zero_dof; deg += c.deg; boost += c.boosted; }
        std::string t = sink().str(); auto num = [&](const char* what) { size_t q = t.find(what); if (q == std::string::npos || t.find(what, q + 1) != std::string::npos) violation("report", "the statistics are \"%s\"", t.substr(0, 200).c_str()); return std::strtol(t.c_str() + q + strlen(what), nullptr, 10); };
        if (num(" cells=") != cells || num(" nodes=") != (long)w.g.x.size() || (k.f.direct() && num("zero_dof_cells=") != zero_dof)) violation("report", "%ld cells (%ld without data) and %ld nodes are reported as \"%s\"", cells, zero_dof, (long)w.g.x.size(), t.substr(0, 120).c_str());
        if (!fz && (num("degenerate_|H|=") != deg || num("d_boost_attempts=") != boost)) violation("report", "%ld cells with degenerate second derivatives, %ld attempts to boost are reported as \"%s\"", deg, boost, t.substr(0, 220).c_str());
        // singular values of cells, metrics of nodes
        auto near = [&](const char* line, const char* what, double want, double slack) { size_t q = t.find(line); if (q != std::string::npos) q = t.find(what, q); if (q == std::string::npos) violation("report", "the statistics have no \"%s %s\"", line, what); double v = std::strtod(t.c_str() + q + strlen(what), nullptr); if (!(std::fabs(v - want) <= 2e-5 * std::fabs(want) + slack)) violation("report", "%s %s%g is reported instead of %g", line, what, v, want); };
        if (!fz && cells) for (int i = 0; i < 3; ++i) { double sum = 0, lo = 1e308, hi = 0, top = 0; for (auto& c : k.cell) if (!c.hidden) { sum += c.s[i]; lo = std::min(lo, c.s[i]); hi = std::max(hi, c.s[i]); top = std::max(top, c.s[2]); } char b[8]; snprintf(b, sizeof b, " s%d:", i); near(b, " mean=", sum / (double)cells, 1e-8 * top); near(b, " min=", lo, 1e-8 * top); near(b, " max=", hi, 1e-8 * top); probe("singular-values-reported"); }
        double lo = 1e308, hi = 0, sl = 0, rlo = 1e308, rhi = 0; bool flat = nodes.empty(); for (auto& x : nodes) { auto& a = x.second; M3 m; m[0][0] = a[0]; m[1][1] = a[1]; m[2][2] = a[2]; m[0][1] = m[1][0] = a[3]; m[1][2] = m[2][1] = a[4]; m[0][2] = m[2][0] = a[5]; Eig e = eig(m); if (!(e.l[0] > 1e-7 * e.l[2])) { flat = true; break; } double d = std::cbrt(e.l[0] * e.l[1] * e.l[2]); lo = std::min(lo, d); hi = std::max(hi, d); sl += std::log(d); rlo = std::min(rlo, e.l[2] / e.l[0]); rhi = std::max(rhi, e.l[2] / e.l[0]); }
        if (!flat) { const char* d = "det(M)^{1/3}:"; near(d, " min=", lo, 0); near(d, " max=", hi, 0); near(d, " geom_mean=", std::exp(sl / (double)nodes.size()), 0); const char* a = "lambda_max/lambda_min:"; near(a, " min=", rlo, 0); near(a, " max=", rhi, 0); probe("metrics-reported"); }
        probe("reported"); sink().str("");
    }
    void run() {
        Quiet q; std::unique_lock<std::mutex> lk; if (nr > 1) { lk = std::unique_lock<std::mutex>(w.comm->m, std::defer_lock); LOUD(lk.lock()); R.m.lk = &lk; }
        try { { Loud l; R.m.AssignGlobalID(INMOST::NODE | INMOST::EDGE | INMOST::FACE | INMOST::CELL); } for (auto& op : p.ops) { op_begin(op); arm(0); make(op); op_end(); } } catch (const std::exception& e) { violation("exception", "rank %d: %s", r, e.what()); }
        INMOST::Solver::mesh() = nullptr; if (nr > 1) LOUD(lk.unlock());
    }
};
void singular() { Quiet q; harness_error("the system of a projection is singular"); }
void run_metrics(const Plan& p) {
    Quiet q; int nr = (int)p.get("ranks"); World w; w.make((uint64_t)p.get("world"), (int)p.get("cells"), nr, 6, false); set_concurrency((int)p.get("hw")); INMOST::Solver::singular() = singular;
    for (auto& R : w.ranks) R->m.outer.assign(R->lid2g[2].size(), 0);
    struct Out { std::streambuf* b; Out() { b = std::cout.rdbuf(sink().rdbuf()); } ~Out() { std::cout.rdbuf(b); } } redirect; mixhash((uint64_t)w.g.cells.size());
    auto go = [&](int r) { Rank k(w, p, r); k.run(); };
    if (nr == 1) { go(0); return; }
    nontrivial(); { Loud l; std::vector<std::thread> th; for (int r = 0; r < nr; ++r) th.emplace_back([&, r] { go(r); }); for (auto& t : th) t.join(); }
}
void gen_c29(Plan& p, Rng& r) {
    long nr = r.chance(1, 3) ? 1 : r.in(2, 4), hw = 1;
#ifdef WITH_OPENMP
    hw = r.in(1, 4); if (nr > 2) nr = 2; if (nr == 2) hw = std::min(hw, 2l);
#endif
    p.par["ranks"] = nr; p.par["hw"] = hw; p.par["world"] = r.below(1l << 40); p.par["cells"] = r.chance(1, 4) ? r.in(1, 2) : r.in(nr, 8); bool faults = nr == 1 && hw == 1; long n = r.in(1, 3);
    for (long k = 0; k < n; ++k) p.add(0, "metric", {r.below(8), r.below(6), r.below(8), r.chance(1, 3), r.below(1l << 30), r.below(1l << 30), r.chance(1, 8) ? r.in(1, 2) : 0}, faults && r.chance(1, 2) ? (int)r.in(1, r.chance(1, 2) ? 40 : 150) : 0);
    gen_schedule(p, r, 20000);
}
Register r1(Scenario{"C29", "metrics", 1, gen_c29, run_metrics});
} // namespace
