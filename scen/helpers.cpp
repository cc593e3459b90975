// C28: integrals, projections, evaluation and the stationary diffusion problem over a distributed mesh: ranks are
// simulated tasks, worker threads (OpenMP) run inside a rank. The oracle is a finite element function of the harness:
// values on global nodes, edges, faces and cells, evaluated in barycentric coordinates.
#include "common.h"
#include <limits>
#include <set>
#include <sstream>
#include <thread>
#include "fefun.h"
#include "anifem++/inmost_interface/fem.h"
#include "anifem++/utils/utils.h"
using namespace sim; using namespace asmm;
double Timer() { Quiet q; return 1e-6 * (double)now_steps(); }

namespace {
struct Thrown { int k; };
// a polynomial on the whole domain
struct Poly { double c, b[3], h[3][3], t[3];
    Poly(uint64_t seed, int deg) { Rng r(mix(seed, 991)); auto n = [&] { return (double)r.in(-8, 8) / 4; }; c = n(); for (auto& x : b) x = deg > 0 ? n() : 0; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) h[i][j] = h[j][i] = deg > 1 ? n() / 2 : 0; for (auto& x : t) x = deg > 2 ? n() / 2 : 0; }
    double v(const double* x) const { double s = c; for (int i = 0; i < 3; ++i) { s += b[i] * x[i] + t[i] * x[i] * x[i] * x[i]; for (int j = 0; j < 3; ++j) s += h[i][j] * x[i] * x[j] / 2; } return s; }
    void grad(const double* x, double* g) const { for (int i = 0; i < 3; ++i) { g[i] = b[i] + 3 * t[i] * x[i] * x[i]; for (int j = 0; j < 3; ++j) g[i] += h[i][j] * x[j]; } }
    double hess(int i, int j, const double* x) const { return h[i][j] + (i == j ? 6 * t[i] * x[i] : 0); }
};
struct Diffusion { // the tensor s(x) K
    int kind; double K[3][3], s0, s[3];
    Diffusion(uint64_t seed, int kind_, bool vary) : kind(kind_) {
        Rng r(mix(seed, 55)); double off[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) off[i][j] = (double)r.in(-4, 4) / 16;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) K[i][j] = kind <= 1 ? (i == j) : kind == 2 ? (off[i][j] + off[j][i]) / 2 + (i == j ? 1 + 0.25 * i : 0) : off[i][j] + (i == j ? 1 + 0.25 * i : 0);
        s0 = kind == 0 ? 1 : 8; for (auto& x : s) x = kind == 0 || !vary ? 0 : (double)r.in(-4, 4) / 32;
    }
    double sc(const double* x) const { return s0 + s[0] * x[0] + s[1] * x[1] + s[2] * x[2]; }
    void flux(const Poly& u, const double* x, double* q) const { double g[3]; u.grad(x, g); for (int i = 0; i < 3; ++i) { q[i] = 0; for (int j = 0; j < 3; ++j) q[i] += sc(x) * K[i][j] * g[j]; } }
    double rhs(const Poly& u, const double* x) const { double g[3], r = 0; u.grad(x, g); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r -= s[i] * K[i][j] * g[j] + sc(x) * K[i][j] * u.hess(i, j, x); return r; }
};

struct Rank {
    World& w; RankMesh& R; const Plan& p; int r, nr; long ntag = 0, steps = 0; std::map<const void*, int> busy;
    Rank(World& w_, const Plan& p_, int r_) : w(w_), R(*w_.ranks[(size_t)r_]), p(p_), r(r_), nr(w_.nr) {}
    int gcell(int lid) const { return R.lid2g[3][(size_t)lid]; }
    double tol() const { return 1e-8; }
    static bool near(double a, double b, double scale) { return std::fabs(a - b) <= scale * 1e-7; }
    int cell_of(INMOST::Cell c) { if (!c.isValid() || c.GetMeshLink() != &R.m || c.GetElementNum() != 3) violation("cell", "a function of the user gets no cell"); int g = gcell(c.LocalID()); if (g < 0) violation("cell", "a function of the user gets a cell that does not exist"); return g; }
    void inside(int g, const double* x) { double l[4]; Geo(w.g, g).bary(x, l); for (double v : l) if (!(v > -1e-9 && v < 1 + 1e-9)) violation("point", "the point (%g %g %g) is outside of cell %d", x[0], x[1], x[2], g); }
    void work() { int n; { Quiet q; n = (int)(mix((uint64_t)steps++, 3) % 3); } for (int k = 0; k < n; ++k) yield_point(); }
    bool fault_ok() const { return nr == 1 && p.get("hw") == 1; }
    // points of the formula: X belongs to XYL by the nodes of the cell in positive order
    void points(INMOST::Cell c, int g, Ani::DenseMatrix<const double>& XYL, Ani::DenseMatrix<const double>& X) {
        if (XYL.nRow != 4 || X.nRow != 3 || XYL.nCol != X.nCol || XYL.nCol < 1) violation("points", "%ld x %ld barycentric coordinates, %ld x %ld coordinates", (long)XYL.nRow, (long)XYL.nCol, (long)X.nRow, (long)X.nCol);
        for (size_t n = 0; n < X.nCol; ++n) { double s = 0; for (int i = 0; i < 4; ++i) s += XYL(i, n); if (!near(s, 1, 1)) violation("points", "barycentric coordinates have the sum %g", s); inside(g, &X.data[3 * n]); }
        INMOST::HandleType h[4]; Ani::collectConnectivityInfo(c, h, nullptr, nullptr, true, false);
        for (size_t n = 0; n < X.nCol; ++n) for (int k = 0; k < 3; ++k) { double s = 0; for (int i = 0; i < 4; ++i) s += XYL(i, n) * R.m.xyz[3 * (size_t)INMOST::HandleLid(h[i]) + (size_t)k]; if (!near(s, X(k, n), 1)) violation("points", "point %ld of cell %d: coordinates and barycentric coordinates (in the node order of the assembler) are of different points", (long)n, g); }
    }
    struct Busy { Rank* b; const void* k; Busy(Rank* b_, const void* k_) : b(b_), k(k_) { Quiet q; if (b->busy.count(k)) violation("shared-memory", "two cells processed at the same time share their memory"); b->busy[k] = self(); if (b->busy.size() > 1) { probe("cells-overlap"); nontrivial(); } } ~Busy() { Quiet q; b->busy.erase(k); } };

    // ---- integrals
    struct Integrand { int dim, deg; uint64_t seed; };
    double ivalue(const Integrand& f, int g, const double* x, int d) {
        double a = num(f.seed, (uint64_t)g, (uint64_t)d, 0); if (f.deg == 0) return a;
        double s = a; for (int k = 0; k < 3; ++k) s += num(f.seed, (uint64_t)g, (uint64_t)d, (uint64_t)(1 + k)) * x[k];
        if (f.deg > 1) { double t = 0; for (int k = 0; k < 3; ++k) t += num(f.seed, (uint64_t)g, (uint64_t)d, (uint64_t)(4 + k)) * x[k]; s += t * t; }
        return s;
    }
    double iexact(const Integrand& f, int d, double& scale) {
        double sum = 0; scale = 1;
        for (size_t g = 0; g < w.g.cells.size(); ++g) {
            Geo q(w.g, (int)g); double mid[3] = {0, 0, 0}; for (int k = 0; k < 4; ++k) for (int j = 0; j < 3; ++j) mid[j] += q.x[k][(size_t)j] / 4;
            Integrand lin = f; lin.deg = std::min(f.deg, 1); double v = ivalue(lin, (int)g, mid, d);
            if (f.deg > 1) { double t[4], s = 0, s2 = 0; for (int k = 0; k < 4; ++k) { t[k] = 0; for (int j = 0; j < 3; ++j) t[k] += num(f.seed, (uint64_t)g, (uint64_t)d, (uint64_t)(4 + j)) * q.x[k][(size_t)j]; s += t[k]; s2 += t[k] * t[k]; } v += (s2 + s * s) / 20; }
            sum += v * q.vol; scale += std::fabs(v * q.vol);
        }
        return sum;
    }
    void integrate(const Op& o) {
        int which = (int)(o.at(0) % 4), dim = (int)(1 + o.at(1) % 4), order = (int)(1 + o.at(2) % 8); bool nopar = o.at(3) != 0; int throw_at = (int)o.at(5);
        Integrand f{dim, std::min(order, (int)(o.at(4) % 3)), (uint64_t)o.at(6)}; std::vector<int> calls(w.g.cells.size(), 0); std::vector<double> out((size_t)dim, 7e7);
        bool threw = false, oom = false; uint64_t mark = alloc_mark(); int seen = 0;
        auto again = [&] {
            arm(fault_ok() ? o.fail : 0); if (!fault_ok()) throw_at = 0;
            try {
                Loud l;
                if (which < 2) {
                    std::function<void(INMOST::Cell, Ani::DenseMatrix<const double>, Ani::DenseMatrix<const double>, Ani::DenseMatrix<>, Ani::DynMem<>&)> fn = [&](INMOST::Cell c, Ani::DenseMatrix<const double> XYL, Ani::DenseMatrix<const double> X, Ani::DenseMatrix<> F, Ani::DynMem<>& mem) {
                        Busy b(this, &mem); Busy b2(this, F.data); int me; { Quiet q; me = self(); }
                        auto part = mem.alloc(5, 2, 0); auto m = part.getPlainMemory(); for (int k = 0; k < 5; ++k) m.ddata[k] = me + k;
                        { Quiet q; int g = cell_of(c); if (calls[(size_t)g]++) violation("twice", "the function is evaluated twice for cell %d", g);
                          if (R.m.status[3][(size_t)c.LocalID()] == INMOST::Element::Ghost) violation("ghost", "the function is evaluated for the ghost cell %d", g);
                          if ((int)F.nRow != dim || F.nCol != X.nCol || !addressable(F.data, F.nRow * F.nCol * 8)) violation("output", "the function gets a place for %ld x %ld values", (long)F.nRow, (long)F.nCol);
                          points(c, g, XYL, X); for (size_t n = 0; n < X.nCol; ++n) for (int d = 0; d < dim; ++d) F(d, n) = ivalue(f, g, &X.data[3 * n], d); seen++; }
                        if (throw_at && seen == throw_at) { { Quiet q; note_fault("function-throws"); threw = true; } throw Thrown{1}; }
                        work(); for (int k = 0; k < 5; ++k) if (m.ddata[k] != me + k) { Quiet q; violation("contents", "pool memory changed during an evaluation"); }
                    };
                    integrate_vector_func(out.data(), (unsigned)dim, &R.m, fn, (unsigned)order, nopar);
                } else if (which == 2) {
                    auto fn = [&](const INMOST::Cell& c, const Ani::Coord<>& X) { Quiet q; int g = cell_of(c); inside(g, X.data()); calls[(size_t)g]++; if (R.m.status[3][(size_t)c.LocalID()] == INMOST::Element::Ghost) violation("ghost", "the function is evaluated for the ghost cell %d", g); seen++; if (throw_at && seen == throw_at) { note_fault("function-throws"); threw = true; throw Thrown{1}; } return ivalue(f, g, X.data(), 0); };
                    out.assign(1, integrate_scalar_func(&R.m, fn, (unsigned)order));
                } else {
                    auto fn = [&](const INMOST::Cell& c, const Ani::Coord<>& X) { Quiet q; int g = cell_of(c); inside(g, X.data()); calls[(size_t)g]++; if (R.m.status[3][(size_t)c.LocalID()] == INMOST::Element::Ghost) violation("ghost", "the function is evaluated for the ghost cell %d", g); seen++; if (throw_at && seen == throw_at) { note_fault("function-throws"); threw = true; throw Thrown{1}; } std::array<double, 3> v; for (int d = 0; d < 3; ++d) v[(size_t)d] = ivalue(f, g, X.data(), d); return v; };
                    auto v = integrate_vector_func<3>(&R.m, fn, (unsigned)order); out.assign(v.begin(), v.end());
                }
            } catch (const std::bad_alloc&) { oom = true; } catch (const Thrown&) { if (!threw) violation("exception", "an exception of another kind"); }
            if (oom && !fired()) violation("exception", "out of memory without a fault"); arm(0);
        };
        again();
        if (oom || threw) { probe(oom ? "out-of-memory" : "function-threw"); busy.clear(); return; }
        (void)mark;
        for (size_t g = 0; g < calls.size(); ++g) { bool mine = w.cell_rank[g] == r; if (mine && !calls[g]) violation("missed", "the function is not evaluated for cell %ld", (long)g); if (!mine && calls[g]) violation("foreign", "the function is evaluated for cell %ld of another process", (long)g); }
        for (size_t d = 0; d < out.size(); ++d) { double sc, e = iexact(f, (int)d, sc); if (!near(out[d], e, sc)) violation("integral", "component %ld of the integral is %.15g instead of %.15g (order %d, degree %d)", (long)d, out[d], e, order, f.deg); }
        probe(which < 2 ? "integral-fused" : "integral");
    }
    // ---- projections
    struct Var { INMOST::Tag t; int kind = 0, dim = 1; uint64_t seed = 0; bool poly = false; std::string name; };
    std::vector<Var> vars;
    Ani::FemSpace space(int kind, int dim) { Ani::FemSpace s = choose_space_from_name(KINDS[kind].name); return dim == 1 ? s : s ^ dim; }
    D value(const Var& v, int g, const double* x, int comp) {
        if (!v.poly) return eval(w.g, KINDS[v.kind], g, x, v.seed, comp);
        Poly u(mix(v.seed, (uint64_t)comp), KINDS[v.kind].deg); D d(u.v(x)); u.grad(x, d.g); return d;
    }
    INMOST::Tag make_tag(const Op& o, const Ani::FemSpace& s, std::string& name) {
        name = "v" + std::to_string(ntag++); INMOST::Tag t; int how = (int)(o.at(2) % 3);
        { Loud l; if (how == 0) t = createFemVarTag(&R.m, *s.dofMap().target<>(), name, true); else if (how == 1) t = createFemVarTag(&R.m, *s.dofMap().target<>(), name, false); else { auto q = create_or_load_problem_tag(&R.m, *s.dofMap().target<>(), name, o.at(3) & 1); t = q.first; Quiet z; if (q.second) violation("tag", "a new tag is reported as loaded"); } }
        if (!t.isValid() || !R.m.HaveTag(name)) violation("tag", "no tag was created");
        { bool th = false; std::pair<INMOST::Tag, bool> q; { Loud l; q = create_or_load_problem_tag(&R.m, *s.dofMap().target<>(), name, true); } if (!q.second || q.first != t) violation("tag", "the tag is not loaded"); try { Loud l; q = create_or_load_problem_tag(&R.m, *s.dofMap().target<>(), name, false); } catch (const std::runtime_error&) { th = true; } if (!th) violation("tag", "an unexpected tag is accepted"); }
        return t;
    }
    struct State { std::set<std::string> tags; unsigned markers; };
    State state() { State s; for (auto& t : R.m.tags) if (t.first.compare(0, 18, "IGlobEnumeration::")) s.tags.insert(t.first); /* (tables the assembler keeps for later) */ s.markers = R.m.markers; return s; }
    void same(const State& a, const char* what) { State b = state(); if (a.markers != b.markers) violation("marker", "%s leaves a marker on the mesh", what); if (a.tags != b.tags) { std::string x; for (auto& t : b.tags) if (!a.tags.count(t)) x += " " + t; violation("tags", "%s leaves data on the mesh:%s", what, x.c_str()); } }
    // runs f, which may run out of memory or be ended by an exception of a function of the user; true: done
    template <class F> bool guarded(const Op& o, const char* what, bool& threw, F f) {
        State s = state(); bool oom = false, th = false; threw = false; INMOST::Solver::mesh() = &R.m;
        arm(fault_ok() ? o.fail : 0);
        try { Loud l; f(); } catch (const std::bad_alloc&) { oom = true; } catch (const Thrown&) { th = true; }
        bool hit = fired(); arm(0); busy.clear();
        if (oom && !hit) violation("exception", "out of memory without a fault"); if (th && !threw) violation("exception", "an exception of another kind"); if (threw && !th) violation("swallowed", "%s goes on after an exception of the function", what);
        same(s, what); if (oom || th) probe(oom ? "out-of-memory" : "function-threw");
        return !oom && !th;
    }
    void project(const Op& o) {
        int how = (int)(o.at(0) % 3), kind = (int)(o.at(1) % NKIND), dim = (int)(1 + o.at(4) % 3); bool threw = false; int throw_at = fault_ok() ? (int)o.at(7) : 0, seen = 0;
        static const int K4[4] = {0, 1, 2, 1}; int tmpl = (int)(o.at(1) % 4); if (how == 2) { kind = K4[tmpl]; dim = tmpl == 3 ? 3 : 1; }
        const Kind& k = KINDS[kind]; Var v; v.kind = kind; v.dim = dim; v.seed = (uint64_t)o.at(5); int order = std::max(1, k.bubble ? 8 : 2 * k.deg) + (int)(o.at(6) % 3);
        Ani::FemSpace s = space(kind, dim); v.t = make_tag(o, s, v.name); std::vector<int> calls(w.g.cells.size(), 0);
        auto at = [&](INMOST::Cell c, const double* x, double* res) { int g = cell_of(c); inside(g, x); calls[(size_t)g]++; for (int d = 0; d < dim; ++d) res[d] = value(v, g, x, d).v; };
        std::function<void(INMOST::Cell, std::array<double, 3>, double*)> fp = [&](INMOST::Cell c, std::array<double, 3> X, double* res) { { Quiet q; at(c, X.data(), res); seen++; if (throw_at && seen == throw_at) { note_fault("function-throws"); threw = true; throw Thrown{1}; } } work(); };
        std::function<void(INMOST::Cell, Ani::DenseMatrix<const double>, Ani::DenseMatrix<const double>, Ani::DenseMatrix<>, Ani::DynMem<>&)> ff = [&](INMOST::Cell c, Ani::DenseMatrix<const double> XYL, Ani::DenseMatrix<const double> X, Ani::DenseMatrix<> F, Ani::DynMem<>& mem) {
            Busy b(this, &mem); auto part = mem.alloc(5, 2, 0); auto m = part.getPlainMemory(); for (int j = 0; j < 5; ++j) m.ddata[j] = j; work();
            { Quiet q; int g = cell_of(c); points(c, g, XYL, X); if ((int)F.nRow != dim || F.nCol != X.nCol) violation("output", "the function gets a place for %ld x %ld values", (long)F.nRow, (long)F.nCol); for (size_t n = 0; n < X.nCol; ++n) at(c, &X.data[3 * n], &F.data[n * F.nRow]); seen++; if (throw_at && seen == throw_at) { note_fault("function-throws"); threw = true; throw Thrown{1}; } }
            for (int j = 0; j < 5; ++j) if (m.ddata[j] != j) { Quiet q; violation("contents", "pool memory changed during an evaluation"); }
        };
        bool ok = guarded(o, "the projection", threw, [&] {
            if (how == 0) make_l2_project(fp, &R.m, v.t, s, order); else if (how == 1) make_l2_project(ff, &R.m, v.t, s, order);
            else if (tmpl == 0) make_l2_project<Ani::FemFix<Ani::FEM_P0>>(fp, &R.m, v.t, order); else if (tmpl == 1) make_l2_project<Ani::FemFix<Ani::FEM_P1>>(fp, &R.m, v.t, order);
            else if (tmpl == 2) make_l2_project<Ani::FemFix<Ani::FEM_P2>>(fp, &R.m, v.t, order); else make_l2_project<Ani::FemVec<3, Ani::FEM_P1>>(fp, &R.m, v.t, order); });
        if (!ok) { R.m.DeleteTag(v.t); return; }
        check(v, "projection"); vars.push_back(v); probe(how == 0 ? "project-pointwise" : how == 1 ? "project-fused" : "project-static");
    }
    // the function is the expected one on every cell known here
    void check(const Var& v, const char* what) {
        Ani::FemSpace s = space(v.kind, v.dim); auto id = s.getOP(Ani::IDEN); Rng rr(mix(v.seed, 77)); Ani::DynMem<> mem;
        for (size_t l = 0; l < R.lid2g[3].size(); ++l) {
            int g = R.lid2g[3][l]; if (g < 0) continue; INMOST::Cell c(&R.m, INMOST::ComposeHandle(3, (int)l)); const int N = 3; double xyl[4 * N], X[3 * N]; make_points(c, rr, N, xyl, X); std::vector<double> out((size_t)(v.dim * N), 9e9);
            { Loud z; eval_op_var_by_barycentric_points(Ani::DenseMatrix<>(out.data(), (size_t)v.dim, N), mem, c, Ani::DenseMatrix<const double>(xyl, 4, N), id, *s.dofMap().target<>(), v.t); }
            for (int n = 0; n < N; ++n) for (int d = 0; d < v.dim; ++d) { double e = value(v, g, X + 3 * n, d).v; if (!near(out[(size_t)(n * v.dim + d)], e, 100)) violation("value", "%s on %s: component %d is %.12g instead of %.12g in cell %d (%s) of process %d", what, KINDS[v.kind].name, d, out[(size_t)(n * v.dim + d)], e, g, R.m.status[3][l] == INMOST::Element::Ghost ? "ghost" : "own", r); }
        }
    }
    void make_points(INMOST::Cell c, Rng& rr, int N, double* xyl, double* X) {
        INMOST::HandleType h[4]; Ani::collectConnectivityInfo(c, h, nullptr, nullptr, true, false);
        for (int n = 0; n < N; ++n) { double s = 0; for (int i = 0; i < 4; ++i) s += xyl[4 * n + i] = 0.05 + rr.unit(); for (int i = 0; i < 4; ++i) xyl[4 * n + i] /= s; for (int k = 0; k < 3; ++k) { X[3 * n + k] = 0; for (int i = 0; i < 4; ++i) X[3 * n + k] += xyl[4 * n + i] * R.m.xyz[3 * (size_t)INMOST::HandleLid(h[i]) + (size_t)k]; } }
    }
    // ---- evaluation of values and gradients, of the whole variable or of one component
    void evaluate(const Op& o) {
        if (vars.empty()) return; Var& v = vars[(size_t)o.at(0) % vars.size()]; bool grad = o.at(1) & 1, part = (o.at(1) & 2) && v.dim > 1; int way = (int)(o.at(2) % 2), comp = (int)(o.at(3) % v.dim); Rng rr((uint64_t)o.at(4));
        Ani::FemSpace full = space(v.kind, v.dim), s = part ? space(v.kind, 1) : full; auto op = s.getOP(grad ? Ani::GRAD : Ani::IDEN); int c0 = part ? comp : 0, nc = part ? 1 : v.dim, D_ = nc * (grad ? 3 : 1); bool threw = false;
        if ((int)op.Dim() != D_) harness_error("dimension of the operator");
        std::vector<std::vector<double>> got; std::vector<std::array<double, 9>> at; std::vector<int> cells; const int N = 3; INMOST::Solver::mesh() = &R.m;
        guarded(o, "the evaluation", threw, [&] {
            std::unique_ptr<Assembler> d;
            if (way) {
                d.reset(new Assembler(&R.m)); d->m_assm_traits.reorder_nodes = o.at(5) == 0; int n = (int)full.dofMap().NumDofOnTet();
                std::function<void(const double**, double*, double*, double*, long*, void*, Ani::DynMem<double, long>*)> fn = [](const double**, double*, double*, double*, long*, void*, Ani::DynMem<double, long>*) {};
                d->SetMatRHSFunc(Ani::GenerateElemMatRhs(fn, (unsigned)n, (unsigned)n, 0, 0)); Ani::FemExprDescr fed; auto h = Ani::GenerateHelper(*full.base()); fed.PushTrialFunc(h, "u"); fed.PushTestFunc(h, "v"); d->SetProbDescr(std::move(fed)); d->SetDataGatherer([](Ani::ElementalAssembler&) {}); d->PrepareProblem();
            }
            Ani::DynMem<> mem; std::array<int, 2> cc{{0, comp}}; // the path to the component: the variable, then the component
            for (size_t l = 0; l < R.lid2g[3].size(); ++l) {
                double xyl[4 * N]; std::array<double, 9> X; std::vector<double> out;
                { Quiet q; int g = R.lid2g[3][l]; if (g < 0) continue; make_points(INMOST::Cell(&R.m, INMOST::ComposeHandle(3, (int)l)), rr, N, xyl, X.data()); out.assign((size_t)(D_ * N), 9e9); cells.push_back(g); at.push_back(X); }
                INMOST::Cell c(&R.m, INMOST::ComposeHandle(3, (int)l));
                if (!way) eval_op_var_by_barycentric_points(Ani::DenseMatrix<>(out.data(), (size_t)D_, N), mem, c, Ani::DenseMatrix<const double>(xyl, 4, N), op, *full.dofMap().target<>(), v.t, part ? &comp : nullptr, part ? 1 : 0);
                else for (int n = 0; n < N; ++n) {
                    std::array<double, 3> x{{X[(size_t)(3 * n)], X[(size_t)(3 * n + 1)], X[(size_t)(3 * n + 2)]}};
                    if (D_ == 1) out[(size_t)n] = eval_op_var_at_point<1>(c, x, op, *d, v.t, part ? cc.data() : nullptr, part ? 2 : 0)[0];
                    else if (part) { auto z = eval_op_var_at_point<9>(c, x, op, *d, v.t, {0, comp}); std::copy(z.begin(), z.begin() + D_, out.begin() + n * D_); }
                    else eval_op_var_at_point(out.data() + n * D_, c, x, op, *d, v.t, nullptr, 0);
                }
                Quiet q; got.push_back(out);
            }
        });
        for (size_t i = 0; i < got.size(); ++i) for (int n = 0; n < N; ++n) for (int d = 0; d < nc; ++d) { D e = value(v, cells[i], &at[i][(size_t)(3 * n)], c0 + d); for (int k = 0; k < (grad ? 3 : 1); ++k) { double x = got[i][(size_t)(n * D_ + d * (grad ? 3 : 1) + k)], y = grad ? e.g[k] : e.v; if (!near(x, y, 1000)) violation("value", "%s of component %d on %s (%s) is %.12g instead of %.12g in cell %d", grad ? "gradient" : "value", c0 + d, KINDS[v.kind].name, way ? "at points" : "by barycentric coordinates", x, y, cells[i]); } }
        if (!got.empty()) probe(way ? "evaluated-at-points" : "evaluated-barycentric");
    }
    // ---- stationary diffusion
    void diffusion(const Op& o) {
        int kind = (int)(1 + o.at(0) % (NKIND - 1)), dim = o.at(1) % 4 == 0 ? 2 + (int)(o.at(1) / 4 % 2) : 1, kk = (int)(o.at(4) % 4), form = (int)(o.at(6) % 3); const Kind& k = KINDS[kind]; if (dim > 1) kk = 0; bool threw = false; int throw_at = fault_ok() ? (int)o.at(7) : 0, seen = 0;
        Var v; v.kind = kind; v.dim = dim; v.seed = (uint64_t)o.at(5); v.poly = true; Ani::FemSpace s = space(kind, dim); v.t = make_tag(o, s, v.name);
        bool laplace = form == 0; if (laplace) kk = 0; Diffusion K(v.seed, kk, !k.cr); std::vector<Poly> u; for (int d = 0; d < dim; ++d) u.push_back(Poly(mix(v.seed, (uint64_t)d), k.deg));
        // the boundary: at least one face of every part joined by faces has given values
        std::vector<std::vector<int>> of(w.g.ent[2].size()); std::vector<int> comp(w.g.cells.size()); for (size_t c = 0; c < comp.size(); ++c) { comp[c] = (int)c; for (int f = 0; f < 4; ++f) of[(size_t)face(c, f)].push_back((int)c); }
        std::function<int(int)> root = [&](int c) { return comp[(size_t)c] == c ? c : comp[(size_t)c] = root(comp[(size_t)c]); };
        for (auto& f : of) if (f.size() == 2) comp[(size_t)root(f[0])] = root(f[1]);
        Rng rr(mix(v.seed, 8)); std::set<int> have, dir[4]; bool all = laplace; std::vector<char> isdir(of.size(), 0);
        std::vector<int> fs; for (size_t f = 0; f < of.size(); ++f) if (of[f].size() == 1) fs.push_back((int)f); for (size_t q = fs.size(); q > 1; --q) std::swap(fs[q - 1], fs[(size_t)rr.below((long)q)]);
        for (int f : fs) { bool need = have.insert(root(of[(size_t)f][0])).second; if (!(need || all || rr.chance(1, 3))) continue; isdir[(size_t)f] = 1; auto& n = w.g.ent[2][(size_t)f]; dir[2].insert(f); for (int a = 0; a < 3; ++a) { dir[0].insert(n[(size_t)a]); for (int b = a + 1; b < 3; ++b) dir[1].insert(w.g.find[1].at({n[(size_t)a], n[(size_t)b]})); } }
        bool neumann = dir[2].size() < fs.size();
        auto elem = [&](INMOST::Element e, int& d) { if (!e.isValid() || e.GetMeshLink() != &R.m) violation("element", "a function of the user gets no element"); d = e.GetElementNum(); int g = R.lid2g[d][(size_t)e.LocalID()]; if (g < 0) violation("element", "a function of the user gets an element that does not exist"); return g; };
        std::function<bool(INMOST::Element)> is_dir = [&](INMOST::Element e) { Quiet q; int d, g = elem(e, d); seen++; if (throw_at && seen == throw_at) { note_fault("function-throws"); threw = true; throw Thrown{1}; } return d < 3 && dir[d].count(g) > 0; };
        std::function<void(INMOST::Element, std::array<double, 3>, Ani::ArrayView<>)> dval = [&](INMOST::Element e, std::array<double, 3> X, Ani::ArrayView<> out) {
            { Quiet q; int d, g = elem(e, d); if (d > 2 || !dir[d].count(g)) violation("boundary", "boundary values are asked for an element without them"); if ((int)out.size != dim) violation("boundary", "%ld boundary values instead of %d", (long)out.size, dim);
              auto& n = w.g.ent[d][(size_t)g]; if (d == 0) for (int j = 0; j < 3; ++j) if (!near(X[(size_t)j], w.g.x[(size_t)n[0]][(size_t)j], 1)) violation("point", "the boundary value of a node is asked elsewhere");
              if (d > 0) { int c = -1; for (size_t q2 = 0; q2 < w.g.cells.size(); ++q2) { int m = 0; for (int z : n) m += std::count(w.g.cells[q2].begin(), w.g.cells[q2].end(), z) > 0; if (m == d + 1) c = (int)q2; } Geo ge(w.g, c); double l[4]; ge.bary(X.data(), l); for (int j = 0; j < 4; ++j) if (std::count(n.begin(), n.end(), ge.n[(size_t)j]) == 0 && !near(l[j], 0, 1)) violation("point", "a boundary value of an element of dimension %d is asked outside of it", d); }
              for (int j = 0; j < dim; ++j) out[(size_t)j] = u[(size_t)j].v(X.data()); } work(); };
        std::function<void(INMOST::Face, std::array<double, 3>, Ani::ArrayView<>)> nval = [&](INMOST::Face f, std::array<double, 3> X, Ani::ArrayView<> out) {
            { Quiet q; int d, g = elem(f, d); if (d != 2 || of[(size_t)g].size() != 1 || isdir[(size_t)g]) violation("boundary", "a flux is asked for an element where it is not given"); if ((int)out.size != dim) violation("boundary", "%ld fluxes instead of %d", (long)out.size, dim);
              int c = of[(size_t)g][0]; Geo ge(w.g, c); int opp = 0; auto& n = w.g.ent[2][(size_t)g]; for (int j = 0; j < 4; ++j) if (!std::count(n.begin(), n.end(), ge.n[(size_t)j])) opp = j; double l[4]; ge.bary(X.data(), l); if (!near(l[opp], 0, 1)) violation("point", "a flux is asked outside of the face");
              double nn = 0; for (int j = 0; j < 3; ++j) nn += ge.gl[opp][j] * ge.gl[opp][j]; nn = std::sqrt(nn); for (int i = 0; i < dim; ++i) { double q3[3]; K.flux(u[(size_t)i], X.data(), q3); double t = 0; for (int j = 0; j < 3; ++j) t -= q3[j] * ge.gl[opp][j] / nn; out[(size_t)i] = t; } } work(); };
        std::function<Ani::TensorType(INMOST::Cell, std::array<double, 3>, Ani::DenseMatrix<>)> kval = [&](INMOST::Cell c, std::array<double, 3> X, Ani::DenseMatrix<> out) {
            Quiet q; inside(cell_of(c), X.data()); if (kk == 0) return Ani::TENSOR_NULL; if (kk == 1) { out.data[0] = K.sc(X.data()); return Ani::TENSOR_SCALAR; }
            if (out.nRow != 3 || out.nCol != 3) violation("output", "the diffusion tensor has a place for %ld x %ld values", (long)out.nRow, (long)out.nCol); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) out(i, j) = K.sc(X.data()) * K.K[i][j]; return kk == 2 ? Ani::TENSOR_SYMMETRIC : Ani::TENSOR_GENERAL; };
        std::function<void(INMOST::Cell, std::array<double, 3>, Ani::ArrayView<>)> rval = [&](INMOST::Cell c, std::array<double, 3> X, Ani::ArrayView<> out) { { Quiet q; inside(cell_of(c), X.data()); if ((int)out.size != dim) violation("output", "%ld right-hand sides instead of %d", (long)out.size, dim); for (int j = 0; j < dim; ++j) out[(size_t)j] = K.rhs(u[(size_t)j], X.data()); } work(); };
        if (laplace) for (auto& x : u) { Poly y(1, 0); y.c = x.c; for (int j = 0; j < 3; ++j) y.b[j] = x.b[j]; x = y; } // a harmonic solution
        bool ok = guarded(o, "the solution", threw, [&] { if (laplace) make_laplace(&R.m, s, v.t, is_dir, dval, (int)(7 + o.at(3) % 2)); else solve_stationary_diffusion(&R.m, s, v.t, is_dir, dval, nval, kval, rval, (int)(7 + o.at(3) % 2)); });
        if (!ok) { R.m.DeleteTag(v.t); return; }
        if (laplace) { // compared with the linear function
            Var t = v; check_linear(t, u); R.m.DeleteTag(v.t); probe("laplace"); return; }
        check(v, "solution"); vars.push_back(v); probe("diffusion"); if (neumann) probe("flux"); if (dim > 1) probe("diffusion-vector");
    }
    int face(size_t c, int f) { auto& n = w.g.cells[c]; std::vector<int> t; for (int j = 0; j < 4; ++j) if (j != f) t.push_back(n[(size_t)j]); std::sort(t.begin(), t.end()); return w.g.find[2].at(t); }
    void check_linear(const Var& v, const std::vector<Poly>& u) {
        Ani::FemSpace s = space(v.kind, v.dim); auto id = s.getOP(Ani::IDEN); Rng rr(mix(v.seed, 78)); Ani::DynMem<> mem;
        for (size_t l = 0; l < R.lid2g[3].size(); ++l) {
            int g = R.lid2g[3][l]; if (g < 0) continue; INMOST::Cell c(&R.m, INMOST::ComposeHandle(3, (int)l)); const int N = 3; double xyl[4 * N], X[3 * N]; make_points(c, rr, N, xyl, X); std::vector<double> out((size_t)(v.dim * N), 9e9);
            { Loud z; eval_op_var_by_barycentric_points(Ani::DenseMatrix<>(out.data(), (size_t)v.dim, N), mem, c, Ani::DenseMatrix<const double>(xyl, 4, N), id, *s.dofMap().target<>(), v.t); }
            for (int n = 0; n < N; ++n) for (int d = 0; d < v.dim; ++d) { double e = u[(size_t)d].v(X + 3 * n); if (!near(out[(size_t)(n * v.dim + d)], e, 100)) violation("value", "harmonic function on %s: component %d is %.12g instead of %.12g in cell %d", KINDS[v.kind].name, d, out[(size_t)(n * v.dim + d)], e, g); }
        }
    }
    // ---- messages
    void message(const Op& o) {
        INMOST::Solver::mesh() = &R.m; INMOST::Solver s(INMOST::Solver::INNER_ILU2); s.set_solved(true); s.script.solved = o.at(0) & 1; static const int its[] = {0, 1, 9, 10, 99, 100, 999, 1000, 4711, 99999, 2000000000}; s.script.iterations = its[(size_t)o.at(1) % 11]; s.script.residual = 0.5; s.script.reason = "stagnation";
        std::ostringstream* out; { Loud l; out = &sink(); } size_t before = out->str().size();
        LOUD(print_linear_solver_status(s, "the problem", false));
        std::string t = out->str().substr(before);
#ifdef USE_MPI
        bool first = r == 0;
#else
        bool first = true;
#endif
        if (s.script.solved) { if (first) { std::string n = "#lits " ; size_t k = t.find(n); if (t.find("the problem") == std::string::npos || k == std::string::npos || std::strtol(t.c_str() + k + n.size(), nullptr, 10) != s.script.iterations) violation("message", "%d iterations are reported as \"%s\"", s.script.iterations, t.substr(0, 120).c_str()); } }
        else if (nr == 1) { if (t.find("stagnation") == std::string::npos || t.find("#lits " + std::to_string(s.script.iterations)) == std::string::npos) violation("message", "a failure is reported as \"%s\"", t.substr(0, 160).c_str()); }
        probe(s.script.solved ? "status-solved" : "status-failed");
    }
    static std::ostringstream& sink() { static std::ostringstream s; return s; }
    void names(const Op& o) {
        bool th = false; static const char* bad[] = {"", "P4", "p1", "MINI4", "CR2", "P1 "}; try { Loud l; choose_space_from_name(bad[(size_t)o.at(0) % 6]); } catch (const std::runtime_error&) { th = true; } if (!th) violation("name", "an unknown name of a space is accepted"); probe("unknown-name");
    }
    void collective(const char* k) { if (nr > 1) { Loud l; int x = 0; R.m.collective(k, &x, [](std::vector<void*>&) {}); } }
    void run() {
        Quiet q; std::unique_lock<std::mutex> lk; if (nr > 1) { lk = std::unique_lock<std::mutex>(w.comm->m, std::defer_lock); LOUD(lk.lock()); R.m.lk = &lk; }
        try {
            for (auto& op : p.ops) {
                op_begin(op); arm(0);
                if (op.kind == "int") integrate(op); else if (op.kind == "proj") project(op); else if (op.kind == "eval") evaluate(op); else if (op.kind == "diff") diffusion(op); else if (op.kind == "msg") message(op); else if (op.kind == "name") names(op);
                if (vars.size() > 4) { R.m.DeleteTag(vars[0].t); vars.erase(vars.begin()); }
                op_end();
            }
        } catch (const std::exception& e) { violation("exception", "rank %d: %s", r, e.what()); }
        INMOST::Solver::mesh() = nullptr; if (nr > 1) LOUD(lk.unlock());
    }
};
void singular() { Quiet q; violation("singular", "the system is singular"); }
void run_helpers(const Plan& p) {
    Quiet q; int nr = (int)p.get("ranks"); World w; w.make((uint64_t)p.get("world"), (int)p.get("cells"), nr, 6, false); set_concurrency((int)p.get("hw")); INMOST::Solver::singular() = singular;
    std::vector<int> uses(w.g.ent[2].size(), 0); for (auto& n : w.g.cells) for (int f = 0; f < 4; ++f) { std::vector<int> t; for (int j = 0; j < 4; ++j) if (j != f) t.push_back(n[(size_t)j]); std::sort(t.begin(), t.end()); uses[(size_t)w.g.find[2].at(t)]++; }
    for (auto& R : w.ranks) { R->m.outer.assign(R->lid2g[2].size(), 0); for (size_t l = 0; l < R->lid2g[2].size(); ++l) if (R->lid2g[2][l] >= 0) R->m.outer[l] = uses[(size_t)R->lid2g[2][l]] == 1; }
    struct Out { std::streambuf* b; Out() { b = std::cout.rdbuf(Rank::sink().rdbuf()); } ~Out() { std::cout.rdbuf(b); } } redirect;
    mixhash((uint64_t)w.g.cells.size());
    auto go = [&](int r) { Rank k(w, p, r); k.run(); };
    if (nr == 1) { go(0); return; }
    nontrivial(); { Loud l; std::vector<std::thread> th; for (int r = 0; r < nr; ++r) th.emplace_back([&, r] { go(r); }); for (auto& t : th) t.join(); }
}
void gen_c28(Plan& p, Rng& r) {
    long nr = r.chance(1, 3) ? 1 : r.in(2, 4), hw = 1;
#ifdef WITH_OPENMP
    hw = r.in(1, 4); if (nr > 2) nr = 2; if (nr == 2) hw = std::min(hw, 2l);
#endif
    p.par["ranks"] = nr; p.par["hw"] = hw; p.par["world"] = r.below(1l << 40); p.par["cells"] = r.chance(1, 4) ? r.in(1, 2) : r.in(nr, 7); bool faults = nr == 1 && hw == 1;
    long n = r.in(2, 5);
    for (long k = 0; k < n; ++k) {
        long t = r.below(16); long fail = faults && r.chance(1, 3) ? r.in(1, r.chance(1, 2) ? 40 : 400) : 0, th = faults && !fail && r.chance(1, 6) ? r.in(1, 30) : 0;
        if (t < 4) p.add(0, "int", {r.below(4), r.below(4), r.below(8), r.chance(1, 4), r.below(3), th, r.below(1l << 30)}, (int)fail);
        else if (t < 8) p.add(0, "proj", {r.below(3), r.below(1000), r.below(3), r.below(2), r.chance(2, 3) ? 0 : r.below(3), r.below(1l << 30), r.below(3), th}, (int)fail);
        else if (t < 10) p.add(0, "eval", {r.below(8), r.below(4), r.below(2), r.below(3), r.below(1l << 30), r.chance(1, 4)}, (int)fail);
        else if (t < 14) p.add(0, "diff", {r.below(1000), r.below(16), r.below(3), r.below(2), r.below(4), r.below(1l << 30), r.below(3), th}, (int)fail);
        else if (t < 15) p.add(0, "msg", {r.below(4) != 0, r.below(11)});
        else p.add(0, "name", {r.below(6)});
    }
    gen_schedule(p, r, 20000);
}
Register r1(Scenario{"C28", "helpers", 1, gen_c28, run_helpers});
} // namespace
