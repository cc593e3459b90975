#include "fem_jobs.h"
using namespace sim;
namespace fj {
static long M(long x, long n) { long r = x % n; return r < 0 ? r + n : r; }
static double dval(uint64_t h) { return (double)((h >> 20) & 0xffff) / 65536.0 * 2 - 1; }
static void tetra(Job& j, uint64_t seed, const double** P) {
    static const double ref[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    double s = 0.5 + (double)(seed % 5) * 0.3;
    for (int p = 0; p < 4; ++p) { std::vector<double> c; for (int k = 0; k < 3; ++k) c.push_back(s * ref[p][k] + 0.15 * s * dval(mix(seed, (uint64_t)(p * 3 + k)))); P[p] = j.in_vals(c)->p; }
}
static DofT::TetGeomSparsity sparsity(long b) {
    DofT::TetGeomSparsity sp;
    if (b & 1) { if (b & 2) sp.setCell(b & 4); }
    for (int i = 0; i < 4; ++i) if (b & (8 << i)) sp.setNode(i);
    if (b & 128) for (int i = 0; i < 6; ++i) if ((b >> 7) * (i + 3) & 4) sp.setEdge(i, (b >> i) & 1);
    if (b & 256) for (int i = 0; i < 4; ++i) if ((b >> 8) * (i + 5) & 2) sp.setFace(i, (b >> i) & 8);
    if (sp.empty()) { if (b & 512) sp.setCell(true); else sp.setFace((int)(b >> 10) & 3, true); }
    return sp;
}
// components of compound spaces
static std::vector<int> component(int s, long sel) {
    switch (s) {
        case 9: return {(int)M(sel, 3)};
        case 10: case 23: return {(int)M(sel, 2)};
        case 11: case 17: return {(int)M(sel, 2)};
        case 12: return M(sel, 4) == 3 ? std::vector<int>{1} : M(sel / 4, 2) ? std::vector<int>{0} : std::vector<int>{0, (int)M(sel, 3)};
        case 14: case 18: return {(int)M(sel, 3)};
        case 15: return {(int)M(sel, 3)};
        case 16: return M(sel, 3) ? std::vector<int>{1, (int)M(sel, 2)} : std::vector<int>{0};
        case 19: return M(sel, 3) ? std::vector<int>{1, (int)M(sel, 2)} : std::vector<int>{0};
        case 21: return M(sel, 2) ? std::vector<int>{(int)M(sel / 2, 2)} : std::vector<int>{(int)M(sel / 2, 2), (int)M(sel / 4, 2)};
        case 22: return M(sel, 2) ? std::vector<int>{0, (int)M(sel / 2, 2)} : std::vector<int>{1};
        default: return {};
    }
}
// ---- family 1: interpolation on degrees of freedom and regions
struct InterpJob : Job {
    int kind, s, idof = 0, f = 1, order, fn; FemSpace sp; std::vector<int> dims; DofT::TetGeomSparsity g; const double* P[4]; std::vector<Buf*> u; std::vector<ArrayView<>> views; DofT::NestedDofMapView nv; uchar et = 1; int ie = 0;
    InterpJob(const V& vv, Env& env) {
        v = vv; v.resize(15);
        kind = (int)M(v[1], 8); if (kind == 7) kind = 6;
        s = (int)M(v[3], nspaces()); sp = env.space(s); order = (int)M(v[8], 6);
        int cheap[] = {1, 2, 9, 11, 13, 4, 6, 0};
        if (kind == 6 && sp.dofMap().NumDofOnTet() > 24) { s = cheap[M(v[3], 8)]; sp = env.space(s); }
        if (kind == 6) order = 2 * (int)sp.order() + (int)M(v[8], 2);
        bool nested = kind == 3 || kind == 5;
        if (nested) { dims = component(s, v[4]); if (dims.empty()) { nested = false; kind = kind == 3 ? 2 : 4; } }
        if (nested) { LOUD(nv = sp.dofMap().GetNestedDofMapView(dims.data(), (int)dims.size())); }
        fn = (int)M(v[5], 3);
        uint nfa = sp.dofMap().NumDofOnTet();
        if (kind == 0) f = 1 + (int)M(v[9], 3);
        idof = (int)M(v[6], nfa);
        g = sparsity(v[7]);
        if (kind == 6) { static const uchar ts[4] = {DofT::NODE, DofT::EDGE, DofT::FACE, DofT::CELL}; et = ts[M(v[6], 4)]; ie = (int)M(v[9], et == DofT::NODE ? 4 : et == DofT::EDGE ? 6 : et == DofT::FACE ? 4 : 1); }
        tetra(*this, (uint64_t)v[11], P);
        for (int k = 0; k < f; ++k) u.push_back(inout(nfa, (uint64_t)v[12] + k));
        views.resize((size_t)f);
        cb.seed = (uint64_t)v[12]; cb.level = 0; cb.ud = fn == 1 ? (void*)&cb : (void*)this;
        static const char* const nm[7] = {"interpolate dof (fused)", "interpolate dof", "interpolate by dofs", "interpolate component", "set constant", "set constant on component", "interpolate on region"};
        name = std::string(nm[kind]) + " space " + std::to_string(s) + " order " + std::to_string(order) + (kind < 2 ? " dof " + std::to_string(idof) + " fusion " + std::to_string(f) : "") + (kind == 6 ? " region " + std::to_string((int)et) + "/" + std::to_string(ie) : "");
    }
    ~InterpJob() { Loud l; sp = FemSpace(); }
    void reset_descriptors() override { for (int k = 0; k < f; ++k) views[(size_t)k].Init(u[(size_t)k]->p, u[(size_t)k]->n); }
    bool workspace() override { return kind != 4 && kind != 5; }
    bool can(int way) override { return !workspace() ? way == SEP : way == STACK ? false : way == DYN ? kind != 6 : true; }
    PlainMemoryX<> req() override {
        switch (kind) {
            case 0: return sp.interpolateOnDOF_mem_req(idof, f, (uint)order);
            case 1: return sp.interpolateOnDOF_mem_req(idof, (uint)order);
            case 2: return sp.interpolateByDOFs_mem_req((uint)order);
            case 3: return sp.interpolateByDOFs_mem_req((uint)order);
            case 6: return sp.interpolateOnRegion_mem_req(et, (uint)order);
            default: return PlainMemoryX<>();
        }
    }
    template <class F, class Me> void go(const F& fun, Me mem) {
        Tetra<const double> T(P[0], P[1], P[2], P[3]); void* ud = cb.ud;
        switch (kind) {
            case 0: sp.interpolateOnDOF(T, fun, views.data(), idof, f, mem, ud, (uint)order); break;
            case 1: sp.interpolateOnDOF(T, fun, views[0], idof, mem, ud, (uint)order); break;
            case 2: sp.interpolateByDOFs(T, fun, views[0], g, mem, ud, (uint)order); break;
            case 3: sp.interpolateByDOFs(T, fun, views[0], g, nv, mem, ud, (uint)order); break;
        }
    }
    template <class F> void go_dyn(const F& fun, DynMem<>& mem) {
        Tetra<const double> T(P[0], P[1], P[2], P[3]); void* ud = cb.ud;
        switch (kind) {
            case 0: sp.interpolateOnDOF(T, fun, views.data(), idof, f, mem, ud, (uint)order); break;
            case 1: sp.interpolateOnDOF(T, fun, views[0], idof, mem, ud, (uint)order); break;
            case 2: sp.interpolateByDOFs(T, fun, views[0], g, mem, ud, (uint)order); break;
            case 3: sp.interpolateByDOFs(T, fun, views[0], g, nv, mem, ud, (uint)order); break;
        }
    }
    void exec(Work& w) override {
        if (kind == 4) return sp.interpolateConstant(cb.seed % 97 * 0.37, views[0], g);
        if (kind == 5) return sp.interpolateConstant(cb.seed % 97 * 0.37, views[0], g, nv);
        BaseFemSpace::EvalFunc fp = eval_fn;
        if (kind == 6) { Tetra<const double> T(P[0], P[1], P[2], P[3]); BaseFemSpace::EvalFunctor fu = EvalCB{&cb}; sp.interpolateOnRegion(T, fu, views[0], et, ie, w.x, cb.ud, (uint)order); return; }
        if (w.way == DYN) { if (fn == 1) go_dyn(fp, *w.dyn); else go_dyn(EvalCB{&cb}, *w.dyn); }
        else { if (fn == 1) go(fp, w.x); else go(EvalCB{&cb}, w.x); }
    }
    void check_objects(const char* when) override {
        for (int k = 0; k < f; ++k) if (views[(size_t)k].data != u[(size_t)k]->p || views[(size_t)k].size != u[(size_t)k]->n) violation("descriptor", "%s: the caller's view %d of degrees of freedom is moved by %ld and has %zu elements instead of %zu", when, k, (long)(views[(size_t)k].data - u[(size_t)k]->p), views[(size_t)k].size, u[(size_t)k]->n);
    }
};
// ---- family 2: boundary conditions on elemental systems
struct DirJob : Job {
    bool sized() override { return false; }
    int kind; size_t n, m, d; Buf *a = nullptr, *f = nullptr, *vo = nullptr, *bc = nullptr; DenseMatrix<> A, F, Vo; ArrayView<> B, C; std::vector<int> id; std::vector<uint> ido, dc; uint ndc; int k; bool use_dc;
    DirJob(const V& vv, Env&) {
        v = vv; v.resize(15);
        kind = (int)M(v[1], 10); d = 1 + M(v[2], 3); n = d + M(v[3], 6); m = n + (kind == 1 ? M(v[4], 1) : 0); 
        a = inout(n * m, (uint64_t)v[11]); f = inout(n, (uint64_t)v[11] + 1);
        // orthogonal matrix: product of a rotation and a permutation
        std::vector<double> q(d * d, 0.0); double t = dval(mix((uint64_t)v[11], 3)) * 3; for (size_t i = 0; i < d; ++i) q[i + d * i] = 1;
        if (d >= 2) { q[0] = std::cos(t); q[1] = std::sin(t); q[d] = -std::sin(t); q[d + 1] = std::cos(t); }
        vo = in_vals(q);
        ndc = (uint)(1 + M(v[5], (long)d));
        for (size_t i = 0; i < n; ++i) id.push_back((int)i);
        Rng r((uint64_t)v[11] + 5); for (size_t i = n; i > 1; --i) std::swap(id[i - 1], id[(size_t)r.below((long)i)]);
        for (size_t i = 0; i < d; ++i) dc.push_back((uint)i);
        for (size_t i = d; i > 1; --i) std::swap(dc[i - 1], dc[(size_t)r.below((long)i)]);
        use_dc = M(v[6], 2); k = (int)M(v[7], (long)n);
        bc = in(ndc, (uint64_t)v[11] + 9);
        static const char* const nm[10] = {"applyDir", "applyDirMatrix", "applyDirResidual", "applyDirNonExists", "applyDirNonExists(A)", "applyVectorDirMatrix", "applyVectorDirMatrixExtCol", "applyVectorDirMatrixExtRow", "applyVectorDir", "applyVectorDirResidual"};
        name = std::string(nm[kind]) + " rows " + std::to_string(n) + " components " + std::to_string(d) + " conditions " + std::to_string(ndc);
    }
    void reset_descriptors() override { A.Init(a->p, n, m, n * m); F.Init(f->p, n, 1, n); Vo.Init(vo->p, d, d, d * d); B.Init(f->p, n); }
    bool workspace() override { return kind == 5 || kind == 6 || kind >= 8; }
    bool can(int way) override { return !workspace() ? way == SEP : way == RAW || way == SEP || way == DYN; }
    PlainMemoryX<> req() override { PlainMemoryX<> r; if (kind == 5 || kind == 8) r.dSize = d * std::max(n, m); else if (workspace()) r.dSize = d; return r; }
    void exec(Work& w) override {
        if (w.way == DYN && workspace()) { auto p = w.dyn->alloc(req().dSize, 0, 0); auto q = p.getPlainMemory(); ArrayView<> mem(q.ddata, q.dSize); go(mem); }
        else { ArrayView<> mem(w.x.ddata, w.x.dSize); go(mem); }
    }
    void go(ArrayView<> mem) {
        const uint* o = use_dc ? dc.data() : nullptr; const int* ids = id.data();
        switch (kind) {
            case 0: applyDir(A, F, k, bc->p[0]); break;
            case 1: applyDirMatrix(A, k); break;
            case 2: applyDirResidual(F, k); break;
            case 3: applyDirNonExists(A, F, k); break;
            case 4: applyDirNonExists(A, k); break;
            case 5: applyVectorDirMatrix(A, ids, Vo, mem, ndc, o); break;
            case 6: applyVectorDirMatrixExtCol(B, ids, Vo, mem, ndc, o); break;
            case 7: applyVectorDirMatrixExtRow(B, ids, Vo, ndc, o); break;
            case 8: applyVectorDir(A, F, ids, Vo, ArrayView<>(bc->p, ndc), mem, ndc, o); break;
            default: applyVectorDirResidual(F, ids, Vo, mem, ndc, o); break;
        }
    }
    void check_objects(const char* when) override { if (A.data != a->p || A.nRow != n || A.nCol != m || F.data != f->p || F.nRow != n) violation("descriptor", "%s: the caller's matrices changed shape", when); }
};
// ---- family 3: compile-time interpolation, barycentric coordinates
template <class FEM> struct SD {
    static void run(int kind, const Tetra<const double>& T, CB* cb, ArrayView<> u, const DofT::TetGeomSparsity& g, int order) {
        EvalCB fn{cb};
        if (kind == 0) interpolateByDOFs<FEM>(T, fn, u, g, cb->ud, (uint)order);
        else interpolateConstant<FEM>(0.75, u, g);
    }
    static uint n() { return Operator<IDEN, FEM>::Nfa::value; }
};
struct StInterpJob : Job {
    int kind, fem, order; const double* P[4]; Buf *u = nullptr, *x = nullptr, *xl = nullptr; DofT::TetGeomSparsity g; ArrayView<> view; size_t npts = 1;
    typedef FemVecT<3, FemFix<FEM_P2>> V3; typedef FemCom<FemVecT<3, FemFix<FEM_P2>>, FemFix<FEM_P1>> C1;
    typedef FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>> U1; typedef FemUnionT<FemFix<FEM_P2>, FemFix<FEM_B4>> U2; typedef FemCom<FemVecT<3, U1>, FemFix<FEM_P1>> C2;
    void with(const Tetra<const double>& T) {
        switch (fem) {
            case 0: SD<FemFix<FEM_P0>>::run(kind, T, &cb, view, g, order); break;
            case 1: SD<FemFix<FEM_P1>>::run(kind, T, &cb, view, g, order); break;
            case 2: SD<FemFix<FEM_P2>>::run(kind, T, &cb, view, g, order); break;
            case 3: SD<FemFix<FEM_P3>>::run(kind, T, &cb, view, g, order); break;
            case 4: SD<FemFix<FEM_RT0>>::run(kind, T, &cb, view, g, order); break;
            case 5: SD<FemFix<FEM_ND0>>::run(kind, T, &cb, view, g, order); break;
            case 6: SD<FemFix<FEM_CR1>>::run(kind, T, &cb, view, g, order); break;
            case 7: SD<V3>::run(kind, T, &cb, view, g, order); break;
            case 8: SD<C1>::run(kind, T, &cb, view, g, order); break;
            case 9: SD<FemFix<FEM_B4>>::run(kind, T, &cb, view, g, order); break;
            case 10: SD<U1>::run(kind, T, &cb, view, g, order); break;
            case 11: SD<U2>::run(kind, T, &cb, view, g, order); break;
            case 12: SD<FemVec<3, FEM_P1>>::run(kind, T, &cb, view, g, order); break;
            case 13: SD<FemVecT<3, U1>>::run(kind, T, &cb, view, g, order); break;
            default: SD<C2>::run(kind, T, &cb, view, g, order); break;
        }
    }
    StInterpJob(const V& vv, Env&) {
        v = vv; v.resize(15); kind = (int)M(v[1], 3); fem = (int)M(v[3], 15); order = (int)M(v[8], 6); g = sparsity(v[7]);
        static const uint nn[15] = {1, 4, 10, 20, 4, 6, 4, 30, 34, 1, 5, 11, 12, 15, 19};
        tetra(*this, (uint64_t)v[11], P);
        if (kind < 2) u = inout(nn[fem], (uint64_t)v[12]);
        else { npts = 1 + M(v[13], 6); x = in(3 * npts, (uint64_t)v[12]); u = out(4 * npts); }
        cb.seed = (uint64_t)v[12]; cb.ud = this;
        name = std::string(kind == 0 ? "interpolateByDOFs<FEM>" : kind == 1 ? "interpolateConstant<FEM>" : "getBaryCoord") + " " + std::to_string(fem) + " order " + std::to_string(order);
    }
    void reset_descriptors() override { view.Init(u->p, u->n); }
    bool workspace() override { return false; }
    bool can(int way) override { return way == SEP; }
    void exec(Work&) override {
        if (kind < 2) { Tetra<const double> T(P[0], P[1], P[2], P[3]); with(T); }
        else getBaryCoord<double>(P[0], P[1], P[2], P[3], ArrayView<const double>(x->p, x->n), ArrayView<>(u->p, u->n));
    }
};
// ---- family 4: traversal of degree-of-freedom maps and queries of shared objects
struct MapJob : Job {
    int kind, s; FemSpace* sp; ApplyOpBase *op1, *op2; DofT::TetGeomSparsity g; std::vector<int> dims; uint64_t h = 0; FemSpace* other; bool geom;
    std::vector<uint64_t> before;
    MapJob(const V& vv, Env& env) {
        v = vv; v.resize(15); kind = (int)M(v[1], 8); s = (int)M(v[3], nspaces()); sp = &env.space(s); other = &env.space((int)M(v[4], nspaces()));
        op1 = &env.oper(s, (int)M(v[5], 7), (int)M(v[6], 3)); op2 = &env.oper((int)M(v[4], nspaces()), (int)M(v[5], 7), (int)M(v[6] / 3, 3));
        g = sparsity(v[7]); dims = component(s, v[8]); geom = M(v[9], 2);
        name = kind >= 6 ? "traversal of map " + std::to_string(M(v[3], 6)) : "traversal " + std::to_string(kind) + " space " + std::to_string(s);
    }
    bool workspace() override { return false; }
    bool can(int way) override { return way == SEP; }
    void add(uint64_t x) { h = h * 1099511628211ull + x + 1; }
    // The traversal has to give every degree of freedom of the map that lies on the chosen elements, once, with the order the map itself gives
    // for its number; elements one after another if that is asked for.
    template <class Map, class It, class En> void walk(const Map& m, It it, const En& e, const DofT::TetGeomSparsity* sp, bool grouped, bool own = false) { // own: the iterator counts in the nested map, not in the enclosing one
        std::vector<DofT::LocalOrder> seen, all;
        long c = 0;
        for (; it != e; ++it) { DofT::LocalOrder o = *it; { Quiet q; seen.push_back(o); } add(o.gid); add(o.leid); add(o.etype); add(o.nelem); if (++c > 4000) throw std::runtime_error("endless traversal"); }
        add((uint64_t)c);
        for (uint i = 0, n = m.NumDofOnTet(); i < n; ++i) { DofT::LocalOrder o = m[DofT::TetOrder(i)]; Quiet q; all.push_back(o); }
        Quiet q;
        auto on = [&](const DofT::LocalOrder& o) { if (!sp) return true; DofT::TetGeomSparsity one; one.set(DofT::GeomTypeDim(o.etype), o.nelem); return !(one & *sp).empty(); };
        std::map<long, const DofT::LocalOrder*> want;
        for (size_t i = 0; i < all.size(); ++i) if (on(all[i])) want[own ? (long)i : (long)all[i].gid] = &all[i];
        std::set<long> got; int last = -1;
        for (size_t k = 0; k < seen.size(); ++k) {
            auto& o = seen[k];
            auto w = want.find(o.gid);
            if (w == want.end()) violation("traversal", "%s%s: gives degree of freedom %ld, which is not on the chosen elements", name.c_str(), grouped ? " by elements" : "", (long)o.gid);
            if (!got.insert(o.gid).second) violation("traversal", "%s%s: gives degree of freedom %ld twice", name.c_str(), grouped ? " by elements" : "", (long)o.gid);
            auto& r = *w->second;
            if (o.leid != r.leid || o.etype != r.etype || o.nelem != r.nelem || o.stype != r.stype || o.lsid != r.lsid)
                violation("traversal", "%s%s: degree of freedom %ld comes as (type %d element %d number %d symmetry %d:%d), the map itself gives (%d %d %d %d:%d)", name.c_str(), grouped ? " by elements" : "", (long)o.gid, (int)o.etype, (int)o.nelem, (int)o.leid, (int)o.stype, (int)o.lsid, (int)r.etype, (int)r.nelem, (int)r.leid, (int)r.stype, (int)r.lsid);
            int pos = 8 * (int)DofT::GeomTypeDim(o.etype) + (int)o.nelem;
            if (grouped) { if (pos < last) violation("traversal", "%s by elements: comes back to the element %d of dimension %d", name.c_str(), (int)o.nelem, pos / 8); last = pos; }
        }
        if (got.size() != want.size()) violation("traversal", "%s%s: gives %zu degrees of freedom of %zu on the chosen elements", name.c_str(), grouped ? " by elements" : "", got.size(), want.size());
    }
    // compositions of not oriented and oriented degrees of freedom, compile-time and run-time ones, which have to number them alike
    typedef std::shared_ptr<DofT::BaseDofMap> BM;
    template <class T> static BM leaf() { return BM(new typename std::decay<decltype(Dof<T>::Map())>::type(Dof<T>::Map())); }
    static BM cplx(std::vector<BM> l) { return std::make_shared<DofT::ComplexDofMap>(std::move(l)); }
    static BM vect(int n, BM b) { return std::make_shared<DofT::VectorDofMap>(n, std::move(b)); }
    typedef FemFix<FEM_P0> fP0; typedef FemFix<FEM_P1> fP1; typedef FemFix<FEM_P2> fP2; typedef FemFix<FEM_ND0> fND; typedef FemFix<FEM_RT0> fRT; typedef FemFix<FEM_CR1> fCR;
    void maps(int i, bool comp) {
        BM a, b;
        switch (i) {
            case 0: a = leaf<FemCom<fP2, fND>>(); b = cplx({leaf<fP2>(), leaf<fND>()}); break;
            case 1: a = leaf<FemCom<fCR, fRT, fP1>>(); b = cplx({leaf<fCR>(), leaf<fRT>(), leaf<fP1>()}); break;
            case 2: a = leaf<FemVecT<2, FemCom<fND, fP2>>>(); b = vect(2, cplx({leaf<fND>(), leaf<fP2>()})); break;
            case 3: a = leaf<FemCom<fP1, fP0, fP1>>(); b = cplx({leaf<fP1>(), leaf<fP0>(), leaf<fP1>()}); break;
            case 4: a = leaf<FemCom<FemCom<fND, fP1>, FemVecT<3, fP2>>>(); b = cplx({cplx({leaf<fND>(), leaf<fP1>()}), vect(3, leaf<fP2>())}); break;
            default: a = leaf<FemVecT<3, FemCom<fRT, fCR>>>(); b = vect(3, cplx({leaf<fRT>(), leaf<fCR>()})); break;
        }
        if (a->NumDofOnTet() != b->NumDofOnTet() || a->NumDofs() != b->NumDofs()) violation("traversal", "compile-time and run-time maps %d have different numbers of degrees of freedom", i);
        for (uint k = 0, n = a->NumDofOnTet(); k < n; ++k) {
            auto x = a->LocalOrderOnTet(DofT::TetOrder(k)), y = b->LocalOrderOnTet(DofT::TetOrder(k));
            if (x.gid != y.gid || x.etype != y.etype || x.nelem != y.nelem || x.leid != y.leid || x.stype != y.stype || x.lsid != y.lsid)
                violation("traversal", "compile-time and run-time maps %d: degree of freedom %u is (%d %d %d %d:%d) and (%d %d %d %d:%d)", i, k, (int)x.etype, (int)x.nelem, (int)x.leid, (int)x.stype, (int)x.lsid, (int)y.etype, (int)y.nelem, (int)y.leid, (int)y.stype, (int)y.lsid);
            if (a->TetDofID(x.getGeomOrder()) != k || b->TetDofID(y.getGeomOrder()) != k) violation("traversal", "map %d: degree of freedom %u has the number %u by its place", i, k, (uint)a->TetDofID(x.getGeomOrder()));
        }
        for (auto& q : {a, b}) {
            if (!comp) { walk(DofT::DofMap(q), q->beginBySparsity(g, geom), q->endBySparsity(), &g, geom); continue; }
            int d = (int)M(v[8], i < 2 || i == 3 ? 3 : 2); if (i == 0) d %= 2;
            auto nv = DofT::DofMap(q).GetNestedDofMapView(&d, 1);
            walk(nv, nv.beginBySparsity(g, geom), nv.endBySparsity(), &g, geom);
        }
    }
    void exec(Work&) override {
        h = 0;
        const FemSpace& S = *sp; const auto& m = S.dofMap();
        switch (kind) {
            case 6: case 7: maps((int)M(v[3], 6), kind == 7); break;
            case 0: walk(m, m.begin(), m.end(), nullptr, false); break;
            case 1: walk(m, m.beginBySparsity(g, geom), m.endBySparsity(), &g, geom); break;
            case 2: if (!dims.empty()) { auto nv = m.GetNestedDofMapView(dims.data(), (int)dims.size()); walk(nv, nv.beginBySparsity(g, geom), nv.endBySparsity(), &g, geom); walk(nv, nv.begin(), nv.end(), nullptr, false, true); } else walk(m, m.begin(), m.end(), nullptr, false); break;
            case 3: if (!dims.empty()) { auto nd = m.GetNestedDofMap(dims.data(), (int)dims.size()); walk(nd, nd.beginBySparsity(g, geom), nd.endBySparsity(), &g, geom); auto sm = m.GetSubDofMap(dims.data(), (int)dims.size()); walk(sm, sm.begin(), sm.end(), nullptr, false); walk(sm, sm.beginBySparsity(g, geom), sm.endBySparsity(), &g, geom); add(sm == m); } break;
            case 4: {
                add(S.dim()); add(S.order()); add(S == *other); add(*op1 == *op2); { NoFault nf; for (char c : S.typeName()) add((uint64_t)c); } // std::stringstream swallows std::bad_alloc
                for (int k = 0; k < 7; ++k) { if ((k == 2 || k == 3) && S.dim() != 3) continue; add(S.dimOP(op_of(k))); add(S.orderOP(op_of(k))); auto r = S.memOP(op_of(k), 4, 2); add(r.Usz); add(r.extraRsz); add(r.extraIsz); add(r.mtx_parts); }
                add(op1->Nfa()); add(op1->Dim()); add(op1->Order());
                break;
            }
            default: {
                FemSpace c = S; FemSpace d = S.copy(); add(d == S); add(c == S); auto op = S.getOP_own(GRAD); add(op.Nfa()); auto cp = op1->Copy(); add(*cp == *op1); add(cp->Dim());
                if (!dims.empty()) { FemSpace e = S.subSpace(dims.data(), (int)dims.size()); add(e.dim()); add(e.dofMap().NumDofOnTet()); NoFault nf; for (char c2 : e.typeName()) add((uint64_t)c2); }
                for (uint i = 0, n = m.NumDofOnTet(); i < n; ++i) { auto o = m[i]; add(o.etype); add(m.at(o.getGeomOrder()).gid); }
                break;
            }
        }
    }
    void extra(std::vector<uint64_t>& r) override { r.push_back(h); }
};
// ---- family 5: construction of spaces and operators
struct MakeJob : Job {
    int s, kind; uint64_t h = 0;
    MakeJob(const V& vv, Env&) { v = vv; v.resize(15); s = (int)M(v[3], nspaces() + 3); kind = (int)M(v[1], 3); constructive = true; name = "construction of space " + std::to_string(s); }
    bool workspace() override { return false; }
    bool can(int way) override { return way == SEP; }
    void add(uint64_t x) { h = h * 1099511628211ull + x + 1; }
    void exec(Work&) override {
        h = 0;
        FemSpace S;
        if (s < nspaces()) S = make_space(s);
        else if (s == nspaces()) { // dependent bases are reported, independent ones give a space
            bool reported = false;
            try { S = make_union_raw({make_space(1), make_space(13)}); } catch (const std::runtime_error&) { reported = true; }
            if (!reported) violation("dependent-bases", "a union of linearly dependent spaces is not reported");
            S = make_union_with_simplification({make_space(1), make_space(8)});
        }
        else if (s == nspaces() + 1) S = make_complex_with_simplification({make_space(1), make_space(1), make_space(12)});
        else { FemSpace a = make_space(1), b = make_space(2); S = (a * b) * (a ^ 2); }
        add(S.dim()); add(S.order()); add(S.dofMap().NumDofOnTet());
        { NoFault nf; for (char c : S.typeName()) add((uint64_t)c); } // std::stringstream swallows std::bad_alloc
        for (auto it = S.dofMap().begin(); it != S.dofMap().end(); ++it) { auto o = *it; add(o.gid); add(o.etype); add(o.nelem); }
        if (kind == 1) { auto op = S.getOP_own(IDEN); auto r = op.getMemoryRequirements(3, 1); add(r.Usz); add(r.mtx_parts); auto c = op.Copy(); add(c->Nfa()); }
        if (kind == 2) { FemSpace c = S.copy(); FemSpace d = S; S = FemSpace(); add(d == c); FemSpace e = c ^ 2; add(e.dofMap().NumDofOnTet()); }
    }
    void extra(std::vector<uint64_t>& r) override { r.push_back(h); }
};
// ---- family 6: compile-time operators
struct StJob : Job {
    RtArgs a; const StFns* t; DenseMatrix<> A, D; Buf* o = nullptr; size_t rows, cols; int kind;
    static int q_of(int kind, int order, int npts) { return kind < 3 ? est_q[order] : kind == 3 ? 4 : kind == 4 ? 1 : npts; }
    StJob(const V& vv, Env&) {
        v = vv; v.resize(15); t = st_table()[(size_t)M(v[3], (long)st_table().size())];
        kind = (int)M(v[1], 9); int f = 1 + (int)M(v[9], 3); if (kind == 6 || kind == 8) f = 1;
        int order = 1 + (int)M(v[8], 5), npts = 1 + (int)M(v[13], 6);
        while (q_of(kind, order, npts) * f * t->nfu * (t->nfv + t->dimu) * t->dimv > 60000) { if (f > 1) f--; else if (order > 1) order--; else break; }
        a.kind = kind; a.order = order; a.f = f; a.npts = npts; a.cb = &cb; a.ud = cb.ud = this; a.num = (int)M(v[10], kind == 3 ? 6 : 4);
        cb.seed = (uint64_t)v[12]; cb.f = f; cb.level = 0; cb.ntypes = 0;
        size_t dV = (size_t)t->dimv * (kind == 2 ? 3 : 1), dU = (size_t)t->dimu; bool sc = dU == dV || (t->nfu == 1 && dU == 1);
        if (sc && M(v[12], 2)) cb.types[cb.ntypes++] = TENSOR_NULL;
        if (sc && M(v[12], 3)) cb.types[cb.ntypes++] = TENSOR_SCALAR;
        if (dU == dV && M(v[12], 5) > 1) cb.types[cb.ntypes++] = TENSOR_SYMMETRIC;
        if (!cb.ntypes || M(v[12], 7)) cb.types[cb.ntypes++] = TENSOR_GENERAL;
        double P0[4][9];
        static const double ref[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        for (int p = 0; p < 4; ++p) { std::vector<double> c; for (int r = 0; r < f; ++r) for (int k = 0; k < 3; ++k) c.push_back(ref[p][k] + 0.15 * dval(mix((uint64_t)v[11] + (uint64_t)r, (uint64_t)(p * 3 + k)))); a.P[p] = in_vals(c)->p; }
        (void)P0;
        if (kind == 5 || kind == 7) { std::vector<double> L; for (int i = 0; i < npts; ++i) { double s = 0, w[4]; for (int k = 0; k < 4; ++k) { w[k] = 0.1 + std::fabs(dval(mix((uint64_t)v[11] + 5, (uint64_t)(i * 4 + k)))); s += w[k]; } for (int k = 0; k < 4; ++k) L.push_back(w[k] / s); } Buf* b = in_vals(L); a.XYL.Init(b->p, b->n); }
        if (kind == 6 || kind == 8) { std::vector<double> X; for (int i = 0; i < 3 * npts; ++i) X.push_back(0.25 + 0.2 * dval(mix((uint64_t)v[11] + 9, (uint64_t)i))); Buf* b = in_vals(X); a.X.Init(b->p, b->n); }
        if (kind == 5 || kind == 6) { Buf* b = in((size_t)npts, (uint64_t)v[11] + 77); a.WG.Init(b->p, b->n); }
        if (kind >= 7) { Buf* b = in((size_t)t->nfu * f, (uint64_t)v[12] + 3); D.Init(b->p, (size_t)t->nfu, (size_t)f, b->n); a.dofs = &D; rows = dU * npts; cols = (size_t)f; }
        else { rows = (size_t)t->nfv; cols = (size_t)t->nfu * f; }
        o = out(rows * cols); a.A = &A;
        static const char* const kn[9] = {"tet", "face", "faceN", "edge", "node", "pntL", "pntX", "applyL", "applyX"};
        name = std::string("static ") + kn[kind] + " " + t->name + " order " + std::to_string(order) + " fusion " + std::to_string(f) + " points " + std::to_string(npts);
    }
    bool plain_only() override { return true; }
    bool can(int way) override { return way == STACK ? a.order <= 6 : Job::can(way); }
    void reset_descriptors() override { A.Init(o->p, rows, cols, o->n); }
    PlainMemoryX<> req() override { PlainMemory<> p = t->req(a); PlainMemoryX<> r; r.dSize = p.dSize; r.iSize = p.iSize; return r; }
    void exec(Work& w) override { if (w.way == STACK) t->stack(a); else if (w.way == DYN) t->dyn(a, *w.dyn); else t->plain(a, w.plain()); }
    void extra(std::vector<uint64_t>& r) override { if (kind != 8) { r.push_back(A.nRow); r.push_back(A.nCol); } }
    void check_objects(const char* when) override { if (A.data != o->p || A.size != o->n) violation("descriptor", "%s: the caller's matrix refers to other storage", when); }
};
// ---- family 8: dense linear algebra with caller-provided memory
struct LinJob : Job {
    bool sized() override { return false; }
    int kind, n, m; bool alias, wantU, wantV; Buf *a = nullptr, *b = nullptr, *x = nullptr, *y = nullptr, *z = nullptr; int ret = 0;
    LinJob(const V& vv, Env&) {
        v = vv; v.resize(15); kind = (int)M(v[1], 6); n = 1 + (int)M(v[2], 7); m = 1 + (int)M(v[3], 5); alias = M(v[4], 2); wantU = M(v[5], 3); wantV = M(v[6], 3);
        int shape = (int)M(v[7], 4); uint64_t s = (uint64_t)v[11];
        int rows = n, cols = n;
        if (kind == 4) { cols = m = std::min(m, n); } else if (kind == 5) cols = m;
        std::vector<double> A((size_t)rows * cols);
        for (size_t i = 0; i < A.size(); ++i) A[i] = dval(mix(s, i));
        if (kind < 2) { std::vector<double> S((size_t)n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = i == j ? 0.5 : 0; for (int k = 0; k < n; ++k) t += A[(size_t)(i + k * n)] * A[(size_t)(j + k * n)]; S[(size_t)(i + j * n)] = t; } A = S; }
        else if (shape == 1) for (int i = 0; i < rows; ++i) A[(size_t)(i + (cols - 1) * rows)] = cols > 1 ? A[(size_t)i] : 0; // singular
        else if (shape == 2 && M(v[8], 4) == 0) std::fill(A.begin(), A.end(), 0.0);
        a = in_vals(A);
        if (kind == 0 || kind == 2) { if (alias) x = inout((size_t)n * m, s + 5); else { b = in((size_t)n * m, s + 5); x = out((size_t)n * m); } }
        else if (kind == 1 || kind == 3) x = out((size_t)n * n);
        else if (kind == 4) { x = out((size_t)n * n); y = out((size_t)m * m); }
        else { if (wantU) x = out((size_t)n * n); if (wantV) y = out((size_t)m * m); z = out((size_t)std::min(n, m)); }
        static const char* const nm[6] = {"cholesky_solve", "cholesky_inverse", "fullPivLU_solve", "fullPivLU_inverse", "householderQR", "jacobiSVD"};
        name = std::string(nm[kind]) + " " + std::to_string(n) + "x" + std::to_string(m) + (shape == 1 ? " singular" : "");
    }
    bool can(int way) override { return way != STACK; }
    PlainMemoryX<> req() override { // documented sizes
        PlainMemoryX<> r; size_t N = (size_t)n, Mm = (size_t)m, K = std::min(N, Mm);
        if (kind < 2) r.dSize = N * (N + 1) / 2; else if (kind == 2) r.dSize = N * (N + Mm), r.iSize = 2 * N; else if (kind == 3) r.dSize = 2 * N * N, r.iSize = 2 * N; else if (kind == 4) r.dSize = N * Mm + N + Mm; else r.dSize = 2 * K * K + K;
        return r;
    }
    void go(double* d, int* i) {
        const double* B = b ? b->p : x ? x->p : nullptr;
        switch (kind) {
            case 0: cholesky_solve(a->p, B, n, m, x->p, d); break;
            case 1: cholesky_inverse(a->p, x->p, n, d); break;
            case 2: fullPivLU_solve(a->p, B, n, m, x->p, d, i); break;
            case 3: fullPivLU_inverse(a->p, x->p, n, d, i); break;
            case 4: householderQR(a->p, n, m, x->p, y->p, d); break;
            default: {
#ifdef WITH_EIGEN
                NoFault nf; // DenseStorage::resize of Eigen 3.4.0 releases its block twice when the new allocation fails
#endif
                ret = jacobiSVD(a->p, n, m, x ? x->p : nullptr, z->p, y ? y->p : nullptr, d);
                if (ret) for (Buf* o : {x, y, z}) if (o) std::fill(o->p, o->p + o->n, 0.0); // reported failure: the results are unspecified
                break;
            }
        }
    }
    void exec(Work& w) override {
        ret = 0;
        if (w.way == DYN) { auto r = req(); auto p = w.dyn->alloc(r.dSize, r.iSize, 0); auto q = p.getPlainMemory(); go(q.ddata, q.idata); }
        else go(w.x.ddata, w.x.idata);
    }
    void extra(std::vector<uint64_t>& r) override { r.push_back((uint64_t)ret); }
};
Job* make_job_more(const V& v, Env& env) {
    switch (M(v[0], 9)) {
        case 1: return new InterpJob(v, env);
        case 2: return new DirJob(v, env);
        case 3: return new StInterpJob(v, env);
        case 4: return new MapJob(v, env);
        case 5: return new MakeJob(v, env);
        case 6: return new StJob(v, env);
        case 8: return new LinJob(v, env);
        default: return new InterpJob(v, env);
    }
}
}
