// C10, C11: assembly of a finite element system by worker threads and by simulated ranks.
#include "common.h"
#include <limits>
#include <set>
#include <thread>
#include "asm_model.h"
#include "anifem++/inmost_interface/fem.h"
using namespace sim; using namespace asmm;
double Timer() { Quiet q; static double skew = 0; if (now_steps() % 97 == 0) skew -= 1e-3 * (double)(now_steps() % 5); return 1e-6 * (double)now_steps() + skew; }

namespace {
typedef Ani::AssemblerT<> SerialAs;
typedef Ani::ElementalAssembler EA;
typedef Ani::IGlobEnumeration IGE;
struct Thrown { int k; };
struct UD { long magic; };

Ani::DofT::DofMap build_base(const Base& b, bool named) {
    using namespace Ani; using namespace Ani::DofT;
    if (named && b.name) {
        std::string n = b.name;
        if (n == "P0") return DofMap(Dof<FemFix<FEM_P0>>::Map()); if (n == "P1") return DofMap(Dof<FemFix<FEM_P1>>::Map()); if (n == "P2") return DofMap(Dof<FemFix<FEM_P2>>::Map()); if (n == "P3") return DofMap(Dof<FemFix<FEM_P3>>::Map());
        if (n == "CR1") return DofMap(Dof<FemFix<FEM_CR1>>::Map()); if (n == "RT0") return DofMap(Dof<FemFix<FEM_RT0>>::Map()); if (n == "ND0") return DofMap(Dof<FemFix<FEM_ND0>>::Map());
    }
    return base_map(b);
}
Ani::DofT::DofMap build_var(const Var& v, bool named) {
    std::vector<Ani::DofT::DofMap> parts; using namespace Ani;
    if (named && v.parts[0].vec && v.parts[0].dim == 3 && v.parts[0].b.name) { // maps made at compile time
        std::string n = v.parts[0].b.name, n2 = v.complex && v.parts.size() == 2 && !v.parts[1].vec && v.parts[1].b.name ? v.parts[1].b.name : "";
        if (!v.complex && n == "P1") return DofT::DofMap(Dof<FemVec<3, FEM_P1>>::Map()); if (!v.complex && n == "P2") return DofT::DofMap(Dof<FemVec<3, FEM_P2>>::Map()); if (!v.complex && n == "P3") return DofT::DofMap(Dof<FemVec<3, FEM_P3>>::Map());
        if (n == "P2" && n2 == "P1") return DofT::DofMap(Dof<FemCom<FemVec<3, FEM_P2>, FemFix<FEM_P1>>>::Map()); if (n == "P1" && n2 == "P0") return DofT::DofMap(Dof<FemCom<FemVec<3, FEM_P1>, FemFix<FEM_P0>>>::Map());
    }
    for (auto& p : v.parts) { auto b = build_base(p.b, named); parts.push_back(p.vec ? pow(b, (unsigned)p.dim) : b); }
    return v.complex ? Ani::DofT::merge(parts) : parts[0];
}
Ani::FemExprDescr build_descr(const Space& s, bool named) {
    Ani::FemExprDescr d;
    for (size_t v = 0; v < s.vars.size(); ++v) { auto m = build_var(s.vars[v], named); d.PushTrialFunc(m, "v" + std::to_string(v)); d.PushTestFunc(m, "w" + std::to_string(v)); }
    return d;
}
// a wrapper with sparsity views of its own
struct CustomF : public Ani::MatFuncWrap<double, long> {
    std::function<int(const double**, double**, double*, long*, void*, Ani::DynMem<double, long>*)> f; std::vector<Ani::MatSparsity<long>> in, out; size_t w = 0, iw = 0; bool ud = false;
    int operator()(const double** a, double** r, double* w_, long* iw_, void* u, long) const override { return f(a, r, w_, iw_, u, nullptr); }
    size_t n_in() const override { return in.size(); } size_t n_out() const override { return out.size(); }
    void working_sizes(size_t& a, size_t& r, size_t& w_, size_t& iw_) const override { a = in.size(); r = out.size(); w_ = w; iw_ = iw; }
    bool is_user_data_required() const override { return ud; }
    static Ani::MatSparsityView<long> view(const Ani::MatSparsity<long>& s) { return s.m_tp == Ani::MatSparsityView<long>::DENSE ? Ani::MatSparsityView<long>::make_as_dense(s.m_sz1, s.m_sz2) : Ani::MatSparsityView<long>::make_as_sparse(s.m_nnz, s.m_sz1, s.m_sz2, s.m_colind.data(), s.m_row.data()); }
    Ani::MatSparsityView<long> out_sparsity(long k) const override { return view(out[(size_t)k]); }
    Ani::MatSparsityView<long> in_sparsity(long k) const override { return view(in[(size_t)k]); }
    bool isValid() const override { return true; }
};
struct Csc { bool dense = true; int rows = 0, cols = 0; std::vector<long> col, row;
    Ani::MatSparsity<long> sp() const { return dense ? Ani::MatSparsity<long>::make_as_dense(rows, cols) : Ani::MatSparsity<long>::make_as_sparse((long)row.size(), rows, cols, col, row); }
    bool has(int i, int j) const { if (dense) return true; for (long k = col[(size_t)j]; k < col[(size_t)j + 1]; ++k) if (row[(size_t)k] == i) return true; return false; }
    void make(Rng& r, int n, int m) {
        dense = false; rows = n; cols = m; col.assign(1, 0); row.clear(); int den = (int)r.in(1, 4);
        for (int j = 0; j < m; ++j) { for (int i = 0; i < n; ++i) if (!r.chance(den, 5)) row.push_back(i); col.push_back((long)row.size()); }
        if (row.empty()) { row.push_back(0); for (size_t k = 1; k < col.size(); ++k) col[k] = 1; } // at least one entry
        if ((int)row.size() == n * m && n * m > 1) { row.pop_back(); col.back()--; }
    }
};
struct Slot {
    INMOST::Sparse::Matrix M; INMOST::Sparse::Vector V; bool okM = false, okV = false;
    std::map<std::pair<int, int>, double> A; std::vector<double> F; std::map<std::pair<int, int>, char> may; std::map<std::pair<int, int>, char> tmpl; bool templated = false;
};
long fnum(uint64_t cell, uint64_t a, uint64_t seed) { Rng r(mix(mix(seed, cell), a)); long v = (1l << 20) + r.below(1l << 34); return r.chance(1, 2) ? v : -v; }
int anum(uint64_t cell, uint64_t a, uint64_t b, uint64_t seed) { Rng r(mix(mix(mix(seed, cell), a), b)); if (r.chance(1, 4)) return 0; return (int)r.in(-9, 9); }
double vnum(uint64_t a, uint64_t seed) { Rng r(mix(seed, a)); return (double)((1l << 12) + r.below(1l << 20)) * (r.chance(1, 2) ? 1 : -1); }

struct Cfg { // of the whole run
    int traits, threads, form, enumk, arr, udform, sz_w, sz_iw, dyn, custom, reorder, prep, named, setter; uint64_t fseed; Csc A, F, fullF;
    explicit Cfg(const Plan& p, const World& w) {
        traits = (int)p.get("traits"); threads = (int)p.get("workers"); form = (int)p.get("form"); enumk = (int)p.get("enum"); arr = (int)p.get("arr"); udform = (int)p.get("ud"); sz_w = (int)p.get("szw"); sz_iw = (int)p.get("sziw"); dyn = (int)p.get("dyn"); custom = (int)p.get("custom");
        reorder = (int)p.get("reorder"); prep = (int)p.get("prep"); named = (int)p.get("named"); setter = (int)p.get("setter"); fseed = (uint64_t)p.get("fseed");
        Rng r(mix(fseed, 77)); A.rows = A.cols = F.rows = w.sp.n; F.cols = 1; fullF = F;
        if (p.get("spA")) A.make(r, w.sp.n, w.sp.n);
        if (p.get("spF")) F.make(r, w.sp.n, 1);
    }
};

struct RankBase { // shared by the jobs of one rank
    World& w; Cfg& cfg; RankMesh& R; std::map<int, std::array<int, 4>> order; // cell -> order of its nodes
    RankBase(World& w_, Cfg& c, int r) : w(w_), cfg(c), R(*w_.ranks[(size_t)r]) {}
    bool mine(int id) const { return w.dof_owner(id) == R.r; }
    int gcell(int lid) const { return R.lid2g[3][(size_t)lid]; }
    bool visible(int id) const { auto& e = w.dof_ent[(size_t)id]; return w.local[e.first][(size_t)e.second][(size_t)R.r]; }
    // is the cell assembled on this rank: it has a degree of freedom of this rank
    bool active(int c) const { std::vector<int> id, s; w.local_dofs(w.g.cells[(size_t)c], id, s); for (int k : id) if (mine(k)) return true; return false; }
};

template <class Tr> struct Job {
    typedef Ani::AssemblerT<Tr> As; static const ThreadPar::Type PT = Tr::MatFuncT::parallel_type;
    RankBase& b; World& w; Cfg& cfg; RankMesh& R; std::unique_ptr<As> as; bool ref; Csc cA, cF;
    // of the current assembly
    std::vector<int> seen; int badmode = 0, badcell = -1, badi = 0, badj = 0; UD ud{4711}; int udmode = 0, work = 0; bool inflight = false; int running = 0; std::map<const void*, int> busy, busyfn; long maxrunning = 0; bool check_init = false; uint64_t init_seed = 0; double init_const = 0; INMOST::Tag init_tag; std::vector<INMOST::Tag> init_tags; int what = 0; bool bad_hit = false; int threw = 0;
    Job(RankBase& b_, bool ref_) : b(b_), w(b_.w), cfg(b_.cfg), R(b_.R), ref(ref_) { if (ref) { cA = cfg.A; cA.dense = true; cF = cfg.fullF; } else { cA = cfg.A; cF = cfg.F; } }

    // ---- local functions
    int local(int kind /* 0 both, 1 matrix, 2 rhs */, const double** args, double** res, double* wm, long* iw, void* u, Ani::DynMem<double, long>* dyn, bool dyn_expected) {
        int n = w.sp.n;
        { Quiet q;
            if (args[2][0] != 12345.5) violation("arguments", "the local function gets other arguments");
            if ((cfg.udform && !ref) && (u != &ud)) violation("user-data", "the local function gets other user data");
            if (dyn_expected && !dyn) violation("no-pool", "the local function gets no memory pool");
            if (dyn) { if (busyfn.count(dyn)) violation("shared-pool", "two local functions running at the same time have the same memory pool"); busyfn[dyn] = self(); }
            for (int k = 0; k < (kind ? 1 : 2); ++k) { if (!res[k]) violation("outputs", "no place for output %d of the local function", k); size_t need = (kind == 2 || k == 1) ? (cF.dense ? (size_t)n : cF.row.size()) : (cA.dense ? (size_t)n * (size_t)n : cA.row.size());
                if (!addressable(res[k], need * sizeof(double))) violation("outputs", "the place for output %d of the local function is too small", k);
                if (busy.count(res[k])) violation("shared-output", "two local functions running at the same time write to the same place"); busy[res[k]] = self(); }
            if (cfg.sz_w && !ref) { if (!addressable(wm, (size_t)cfg.sz_w * sizeof(double))) violation("work-arrays", "the work array is too small"); }
            if (cfg.sz_iw && !ref) { if (!addressable(iw, (size_t)cfg.sz_iw * sizeof(long))) violation("work-arrays", "the integer work array is too small"); }
        }
        struct Exit { Job* j; void* p; double** res; int k; ~Exit() { Quiet q; if (p) j->busyfn.erase(p); for (int i = 0; i < k; ++i) j->busy.erase(res[i]); } } ex{this, dyn, res, kind ? 1 : 2};
        int me; { Quiet q; me = self(); }
        if (!ref) { for (int k = 0; k < cfg.sz_w; ++k) wm[k] = me + 10 * k; for (int k = 0; k < cfg.sz_iw; ++k) iw[k] = me + 7 * k; }
        if (dyn) {
            size_t k = (size_t)(work % 5) + 1; auto part = dyn->alloc(k, 2 * k, 0); auto m = part.getPlainMemory();
            for (size_t i = 0; i < k; ++i) m.ddata[i] = (double)me, m.idata[2 * i] = me;
            if (work & 1) { auto p2 = dyn->alloc(3 * k, 1, 1); p2.getPlainMemory().ddata[3 * k - 1] = 1; }
            for (int i = 0; i < work; ++i) yield_point();
            for (size_t i = 0; i < k; ++i) if (m.ddata[i] != (double)me || m.idata[2 * i] != me) { Quiet q; violation("contents", "pool memory changed during an evaluation"); }
        } else for (int i = 0; i < work; ++i) yield_point();
        if (kind != 2) { if (cA.dense) for (int k = 0; k < n * n; ++k) res[0][k] = args[0][k]; else for (int j = 0; j < n; ++j) for (long k = cA.col[(size_t)j]; k < cA.col[(size_t)j + 1]; ++k) res[0][k] = args[0][j * n + cA.row[(size_t)k]]; }
        if (kind != 1) { double* f = res[kind == 2 ? 0 : 1]; if (cF.dense) for (int k = 0; k < n; ++k) f[k] = args[1][k]; else for (size_t k = 0; k < cF.row.size(); ++k) f[k] = args[1][cF.row[k]]; }
        for (int i = 0; i < work / 2; ++i) yield_point();
        if (!ref) { for (int k = 0; k < cfg.sz_w; ++k) if (wm[k] != me + 10 * k) { Quiet q; violation("contents", "the work array changed during an evaluation"); } for (int k = 0; k < cfg.sz_iw; ++k) if (iw[k] != me + 7 * k) { Quiet q; violation("contents", "the integer work array changed during an evaluation"); } }
        return 0;
    }
    typename Tr::MatFuncT make_func(int kind, bool dyn) {
        int n = w.sp.n; typedef Ani::MatFuncWrapDynamic<PT, double, long> D; using SP = Ani::MatSparsity<long>;
        std::vector<SP> in{SP::make_as_dense(n, n), SP::make_as_dense(n, 1), SP::make_as_dense(4, 1)}, out; if (kind != 2) out.push_back(cA.sp()); if (kind != 1) out.push_back(cF.sp());
        size_t sw = ref ? 0 : (size_t)cfg.sz_w, si = ref ? 0 : (size_t)cfg.sz_iw; bool u = !ref && cfg.udform;
        if (cfg.custom && !ref) {
            CustomF f; f.f = [this, kind](const double** a, double** r, double* wm, long* iw, void* u_, Ani::DynMem<double, long>* d) { return local(kind, a, r, wm, iw, u_, d, false); };
            f.in = in; f.out = out; f.w = sw; f.iw = si; f.ud = u; return typename Tr::MatFuncT(std::move(f));
        }
        D f([this, kind, dyn](const double** a, double** r, double* wm, long* iw, void* u_, Ani::DynMem<double, long>* d) { return local(kind, a, r, wm, iw, u_, d, dyn); }, in, out, sw, si, u, dyn);
        return typename Tr::MatFuncT(std::move(f));
    }
    // ---- user handler
    void handler(EA& p) {
        int n = w.sp.n; double *A, *F; std::vector<double> bA, bF; double misc[4] = {12345.5, 0, 0, 0}; int g; const void* bk;
        typename std::remove_reference<decltype(*p.pool)>::type::MemPart part;
        bool usepool = (work & 2) && !ref && p.pool; if (usepool) { part = p.pool->alloc((size_t)(n * n + n), 3, 0); A = part.getPlainMemory().ddata; F = A + n * n; }
        else { bA.resize((size_t)(n * n)); bF.resize((size_t)n); A = bA.data(); F = bF.data(); }
        { Quiet q;
            if (++running > 1) { probe("cells-overlap"); nontrivial(); } if (running > maxrunning) maxrunning = running;
            if (!p.cell || p.cell->GetMeshLink() != &R.m) violation("cell", "the handler gets no cell"); 
            g = b.gcell(p.cell->LocalID()); if (g < 0) violation("cell", "the handler gets a cell that does not exist");
            if (seen[(size_t)g]++) violation("repeated-cell", "the handler runs twice for cell %d", g);
            if (!b.active(g)) violation("inactive-cell", "the handler runs for cell %d, which has no degree of freedom of this process", g);
            bk = p.pool ? (const void*)p.pool : (const void*)p.nodes; if (busy.count(bk)) violation("shared-memory", "two cells processed at the same time share their memory"); busy[bk] = self();
            std::array<int, 4> L; std::array<int, 4> s, t = w.g.cells[(size_t)g];
            for (int k = 0; k < 4; ++k) { auto e = (*p.nodes)[(size_t)k]; if (!e.isValid() || e.GetElementNum() != 0) violation("nodes", "node %d of cell %d is no node", k, g); L[(size_t)k] = R.lid2g[0][(size_t)e.LocalID()]; }
            s = L; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); if (s != t) violation("nodes", "the handler gets other nodes for cell %d", g);
            if (as->m_assm_traits.reorder_nodes && !(w.g.det(L) < 0)) violation("orientation", "the nodes of cell %d are not in positive order", g);
            const double* xyz = p.get_nodes(); for (int k = 0; k < 4; ++k) for (int j = 0; j < 3; ++j) if (bits(xyz[3 * k + j]) != bits(w.g.x[(size_t)L[(size_t)k]][(size_t)j])) violation("coordinates", "coordinate %d of node %d of cell %d is %g instead of %g", j, k, g, xyz[3 * k + j], w.g.x[(size_t)L[(size_t)k]][(size_t)j]);
            bool ef = as->m_assm_traits.prepare_edges || as->m_assm_traits.prepare_faces || (w.sp.mask & 30u);
            if (ef) {
                for (int k = 0; k < 6; ++k) { auto e = (*p.edges)[(size_t)k]; std::vector<int> v{L[(size_t)EDGE_V[k][0]], L[(size_t)EDGE_V[k][1]]}; std::sort(v.begin(), v.end()); if (!e.isValid() || e.GetElementNum() != 1 || R.lid2g[1][(size_t)e.LocalID()] != w.g.find[1].at(v)) violation("edges", "edge %d of cell %d does not join its nodes", k, g); }
                for (int k = 0; k < 4; ++k) { auto e = (*p.faces)[(size_t)k]; std::vector<int> v{L[(size_t)face_v(k, 0)], L[(size_t)face_v(k, 1)], L[(size_t)face_v(k, 2)]}; std::sort(v.begin(), v.end()); if (!e.isValid() || e.GetElementNum() != 2 || R.lid2g[2][(size_t)e.LocalID()] != w.g.find[2].at(v)) violation("faces", "face %d of cell %d does not have its nodes", k, g); }
            }
            bool nontriv = !w.sp.trivial || (w.sp.mask & 20u);
            if (nontriv) for (int k = 0; k < 4; ++k) { int c = 0; for (int j = 0; j < 4; ++j) c += w.gid[0][(size_t)L[(size_t)j]] < w.gid[0][(size_t)L[(size_t)k]]; if (p.node_permutation[k] != c) violation("node-order", "node permutation of cell %d: %d instead of %d for node %d", g, (int)p.node_permutation[k], c, k); }
            b.order[g] = L; // only one worker handles a cell
            std::vector<int> id, sg; w.local_dofs(L, id, sg);
            if ((int)p.vars->initValues.size() != n) violation("initial-values", "%ld initial values for %d local degrees of freedom", (long)p.vars->initValues.size(), n);
            if (check_init) for (int i = 0; i < n; ++i) { double e = init_tag.isValid() || !init_tags.empty() ? sg[(size_t)i] * vnum((uint64_t)id[(size_t)i], init_seed) : init_const; if (bits(p.vars->initValues[(size_t)i]) != bits(e)) violation("initial-values", "initial value %d (degree of freedom %d) of cell %d is %g instead of %g", i, id[(size_t)i], g, p.vars->initValues[(size_t)i], e); }
            for (size_t v = 0; v < w.sp.vars.size(); ++v) if (p.vars->begin((int)v) - p.vars->initValues.data() != w.sp.var_begin[v] || p.vars->end((int)v) - p.vars->initValues.data() != w.sp.var_begin[v + 1]) violation("initial-values", "initial values of variable %ld are not where they belong", (long)v);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[j * n + i] = sg[(size_t)i] * sg[(size_t)j] * anum((uint64_t)g, (uint64_t)id[(size_t)i], (uint64_t)id[(size_t)j], cfg.fseed);
            for (int i = 0; i < n; ++i) F[i] = (double)(sg[(size_t)i] * fnum((uint64_t)g, (uint64_t)id[(size_t)i], cfg.fseed));
            if (g == badcell && badmode) {
                double v = badmode == 3 ? std::numeric_limits<double>::infinity() : badmode == 4 ? -std::numeric_limits<double>::infinity() : std::nan("");
                bool inA = what != 2 && (badmode != 2 || what == 1);
                if (inA) A[badj * n + badi] = v; else F[badi] = v;
                bad_hit = b.mine(id[(size_t)badi]) && (inA ? cA.has(badi, badj) : cF.has(badi, 0)); note_fault("non-finite-result");
            }
        }
        struct Exit { Job* j; const void* k; ~Exit() { Quiet q; j->running--; j->busy.erase(k); } } ex{this, bk};
        if (badmode == 5 && g == badcell) { { Quiet q; note_fault("handler-throws"); threw = 1; } throw Thrown{g}; }
        for (int k = 0; k < work; ++k) yield_point();
        const double* args[3] = {A, F, misc};
        if (udmode == 1) p.compute(args, &ud); else p.compute(args);
    }
    // ---- set up
    void configure() {
        as->SetMesh(R.m); as->SetProbDescr(build_descr(w.sp, cfg.named));
        as->m_assm_traits.num_threads = ref ? 1 : cfg.threads; as->m_assm_traits.reorder_nodes = cfg.reorder; as->m_assm_traits.prepare_edges = cfg.prep & 1; as->m_assm_traits.prepare_faces = cfg.prep & 2;
        bool dyn = cfg.dyn && !ref && !cfg.custom; int form = ref ? 0 : cfg.form;
        if (form != 1) { as->SetMatFunc(make_func(1, dyn && (cfg.dyn & 1))); as->SetRHSFunc(make_func(2, dyn && (cfg.dyn & 2))); }
        if (form != 0) as->SetMatRHSFunc(make_func(0, dyn));
        as->SetDataGatherer([this](EA& p) { handler(p); });
        if (cfg.enumk < 6) {
            typedef Ani::GlobEnumeration GE; auto t = (GE::ASSEMBLING_TYPE)cfg.enumk;
            if (cfg.arr & 1) as->SetEnumerator(GE(t));
            else { GE e; e.setAssemblingType(t); bool refused = false; try { e.setAssemblingType(GE::NOSPECIFIED); } catch (const std::runtime_error&) { refused = true; } if (!refused || e.getAssemblingType() != t) { Quiet q; violation("type", "the type of numbering is %d instead of %d", (int)e.getAssemblingType(), (int)t); } as->SetEnumerator(std::move(e)); }
        }
        else {
            std::array<unsigned char, 5> a; int perm[5] = {0, 1, 2, 3, 4}; for (int k = 0; k < cfg.arr % 120; ++k) std::next_permutation(perm, perm + 5); for (int k = 0; k < 5; ++k) a[(size_t)k] = (unsigned char)perm[k];
            as->m_enum.template setBaseEnumerator<Ani::OrderedEnumerator>(); as->m_enum.template base<Ani::OrderedEnumerator>()->setArrangment(a).setReverse(cfg.arr >= 120);
        }
    }
    void setup() { Loud l; as.reset(new As); configure(); as->PrepareProblem(); }
    void begin(int what_) { seen.assign(w.g.cells.size(), 0); badmode = 0; badcell = -1; bad_hit = false; threw = 0; running = 0; maxrunning = 0; busy.clear(); busyfn.clear(); what = what_; }
    void all_seen() { for (size_t c = 0; c < seen.size(); ++c) { bool need = w.local[3][c][(size_t)R.r] && b.active((int)c); if (need && !seen[c]) violation("missed-cell", "cell %d was not assembled", (int)c); } }

    // ---- numbering
    IGE::NaturalIndex nat(int d, int lid, const LDof& x) { return IGE::NaturalIndex(INMOST::Element(&R.m, INMOST::ComposeHandle(d, lid)), (unsigned char)(1u << x.et), x.var, x.dim_id, x.lde); }
    void check_ranges() {
        long beg, end, sz; LOUD(beg = as->getBegInd(); end = as->getEndInd(); sz = as->m_enum.getMatrixSize());
        if (sz != w.total()) violation("size", "the system has %ld rows for %ld degrees of freedom", sz, w.total());
        long before = 0, own = 0; for (int i = 0; i < (int)w.total(); ++i) { before += w.dof_owner(i) < R.r; own += w.dof_owner(i) == R.r; }
        if (beg != before || end != before + own) violation("range", "process %d of %d has rows %ld..%ld instead of %ld..%ld", R.r, w.nr, beg, end, before, before + own);
    }
    // index -> degree of freedom, from the right-hand side
    static long k0(double x) { return (long)std::fabs(x); }
    void dump() const {
        if (!getenv("VERIF_DUMP")) return; // a person looks at a run
        for (size_t v = 0; v < w.sp.vars.size(); ++v) { fprintf(stderr, "variable %d%s:", (int)v, w.sp.vars[v].complex ? " complex" : ""); for (auto& p : w.sp.vars[v].parts) { fprintf(stderr, " {%s dim %d%s", p.b.name ? p.b.name : "-", p.dim, p.vec ? " vector" : ""); for (int e = 0; e < 6; ++e) for (int k = 0; k < ET_NGR[e]; ++k) if (p.b.g[e][k]) fprintf(stderr, " et%d.%d=%u", e, k, p.b.g[e][k]); fprintf(stderr, "}"); } fprintf(stderr, "\n"); }
    }
    void solve(INMOST::Sparse::Vector& v) {
        dump();
        std::map<long, int> by; std::vector<double> F(w.dof_ent.size(), 0);
        for (size_t c = 0; c < w.g.cells.size(); ++c) { std::vector<int> id, sg; w.local_dofs(w.g.cells[c], id, sg); std::sort(id.begin(), id.end()); if (std::unique(id.begin(), id.end()) != id.end()) harness_error("model: a cell has a degree of freedom twice"); for (int i : id) F[(size_t)i] += (double)fnum(c, (uint64_t)i, cfg.fseed); }
        for (size_t i = 0; i < F.size(); ++i) { long k = (long)std::fabs(F[i]); if (!by.insert({k, (int)i}).second) harness_error("right-hand sides collide"); }
        long beg = v.GetFirstIndex(), end = v.GetLastIndex();
        for (long k = beg; k < end; ++k) {
            double x = v[(unsigned)k]; auto it = by.find((long)std::fabs(x));
            if (getenv("VERIF_DUMP") && (it == by.end())) { std::vector<std::array<long,4>> all; for (size_t c = 0; c < w.g.cells.size(); ++c) { std::vector<int> id, sg; auto q = b.order.find((int)c); if (q == b.order.end()) continue; w.local_dofs(q->second, id, sg); for (int i = 0; i < w.sp.n; ++i) all.push_back({(long)c, i, id[(size_t)i], (long)fnum(c, (uint64_t)id[(size_t)i], cfg.fseed)}); }
                for (size_t p = 0; p < all.size(); ++p) for (size_t q = 0; q < p; ++q) if (std::labs(all[p][3] + all[q][3]) == k0(x) || std::labs(all[p][3]-all[q][3]) == k0(x)) fprintf(stderr, "row %ld = cell %ld local %ld dof %ld, cell %ld local %ld dof %ld\n", k, all[p][0], all[p][1], all[p][2], all[q][0], all[q][1], all[q][2]); }
            if (it == by.end() || std::fabs(x) != (double)it->first) violation("right-hand-side", "entry %ld of the right-hand side is %.17g, which is the sum of contributions of no degree of freedom", k, x);
            int id = it->second; if (!b.mine(id)) violation("owner", "row %ld belongs to a degree of freedom of process %d, but lies in the range of process %d", k, w.dof_owner(id), R.r);
            if (w.idx[(size_t)id] >= 0) violation("right-hand-side", "rows %ld and %ld of the right-hand side belong to the same degree of freedom", w.idx[(size_t)id], k);
            w.idx[(size_t)id] = k; w.sig[(size_t)id] = (x > 0) == (F[(size_t)id] > 0) ? 1 : -1; w.at[(size_t)k] = id;
        }
    }
    // expected contribution of one assembly on this process
    void expect(Slot& s, int wh, double drop) {
        int n = w.sp.n;
        for (size_t c = 0; c < w.g.cells.size(); ++c) {
            if (!w.local[3][c][(size_t)R.r]) continue; auto it = b.order.find((int)c); if (it == b.order.end()) continue;
            std::vector<int> id, sg; w.local_dofs(it->second, id, sg);
            for (int i = 0; i < n; ++i) {
                int I = id[(size_t)i]; if (!b.mine(I)) continue;
                if ((wh == 0 || wh == 2) && cF.has(i, 0)) s.F[(size_t)I] += (double)fnum(c, (uint64_t)I, cfg.fseed);
                if (wh != 2) for (int j = 0; j < n; ++j) {
                    if (!cA.has(i, j)) continue; int J = id[(size_t)j]; s.may[{I, J}] = 1; if (wh == 3) { s.tmpl[{I, J}] = 1; continue; }
                    int a = anum(c, (uint64_t)I, (uint64_t)J, cfg.fseed); if (std::abs(a) > drop && a) s.A[{I, J}] += a;
                }
            }
        }
        for (int i = 0; i < (int)w.total(); ++i) s.may[{i, i}] = 1;
    }
    static bool sorted_rows(INMOST::Sparse::Matrix& M) { for (unsigned k = M.GetFirstIndex(); k < M.GetLastIndex(); ++k) for (size_t i = 1; i < M[k].e.size(); ++i) if (M[k].e[i - 1].first >= M[k].e[i].first) return false; return true; }
    void compare(Slot& s, int wh, bool must_sorted) {
        long beg = as->getBegInd(), end = as->getEndInd();
        if (wh == 0 || wh == 2) {
            if ((long)s.V.GetFirstIndex() != beg || (long)s.V.GetLastIndex() != end) violation("range", "the right-hand side has rows %u..%u instead of %ld..%ld", s.V.GetFirstIndex(), s.V.GetLastIndex(), beg, end);
            for (long k = beg; k < end; ++k) { int i = w.at[(size_t)k]; double e = w.sig[(size_t)i] * s.F[(size_t)i]; if (s.V[(unsigned)k] != e) violation("right-hand-side", "entry %ld of the right-hand side is %.17g instead of %.17g", k, s.V[(unsigned)k], e); }
        }
        if (wh != 2) {
            auto& M = s.M; if ((long)M.GetFirstIndex() != beg || (long)M.GetLastIndex() != end) violation("range", "the matrix has rows %u..%u instead of %ld..%ld", M.GetFirstIndex(), M.GetLastIndex(), beg, end);
            long present = 0;
            for (long k = beg; k < end; ++k) {
                int I = w.at[(size_t)k]; std::map<unsigned, int> dup;
                for (auto& e : M[(unsigned)k].e) {
                    if (dup[e.first]++) violation("duplicate-entry", "row %ld has two entries in column %u", k, e.first);
                    if ((long)e.first >= w.total()) violation("column", "row %ld has an entry in column %u of %ld", k, e.first, w.total());
                    int J = w.at[e.first]; auto it = s.A.find({I, J}); double x = it == s.A.end() ? 0 : it->second * w.sig[(size_t)I] * w.sig[(size_t)J];
                    if (e.second != x) violation("matrix", "entry (%ld, %u) of the matrix is %.17g instead of %.17g", k, e.first, e.second, x);
                    if (it == s.A.end() && !s.may.count({I, J})) violation("extra-entry", "the matrix has an entry (%ld, %u) of degrees of freedom without a common cell", k, e.first);
                    present += it != s.A.end();
                }
                for (auto it = s.A.lower_bound({I, 0}); it != s.A.end() && it->first.first == I; ++it) if (it->second != 0 && !dup.count((unsigned)w.idx[(size_t)it->first.second])) violation("lost-entry", "entry (%ld, %ld) of the matrix is missing, %.17g is expected", k, w.idx[(size_t)it->first.second], it->second);
                for (auto it = s.tmpl.lower_bound({I, 0}); it != s.tmpl.end() && it->first.first == I; ++it) if (!dup.count((unsigned)w.idx[(size_t)it->first.second])) violation("template", "the template has no entry (%ld, %ld)", k, w.idx[(size_t)it->first.second]);
            }
            if (must_sorted && !sorted_rows(M)) violation("unsorted", "rows of the matrix are not sorted");
        }
    }
};
#include "assembler_ops.h"
} // namespace
