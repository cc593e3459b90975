#include "fem_jobs.h"
using namespace sim;
namespace fj {
const int est_q[10] = {1, 1, 4, 6, 11, 14, 23, 31, 44, 57};
static double dval(uint64_t h) { return (double)((h >> 20) & 0xffff) / 65536.0 * 2 - 1; }

// ------------------------------------------------------------------ buffers
Buf::Buf(size_t n_, Kind k, const std::vector<double>& v) : n(n_), kind(k), init(v) {
    p = (double*)raw_alloc(n * sizeof(double), 8, 8 * (n % 8));
    if (kind != OUT) for (size_t i = 0; i < n; ++i) p[i] = init[i];
    if (kind == IN && n) protect(p, n * sizeof(double), false);
}
Buf::~Buf() { if (kind == IN && n) protect(p, 0, true); raw_free(p); }
static void fill_mem(void* p, size_t bytes, int mode, uint64_t seed) {
    unsigned char* c = (unsigned char*)p; Rng r(seed);
    double* d = (double*)p; size_t nd = bytes / 8;
    uint64_t snan = 0x7ff4000000000001ull, one = r.next();
    for (size_t i = 0; i < bytes; ++i) c[i] = 0;
    if (mode == 0) return;
    bool al = ((uintptr_t)p & 7) == 0;
    for (size_t i = 0; i < nd; ++i) {
        uint64_t w;
        double x;
        switch (mode) {
            case 1: w = snan; break;
            case 2: x = dval(r.next()) * 4; memcpy(&w, &x, 8); break;
            case 3: w = r.next(); break;
            case 4: w = 0xCDCDCDCDCDCDCDCDull; break;
            case 5: w = ~0ull; break;
            case 6: x = 1e300 * dval(r.next()); memcpy(&w, &x, 8); break;
            default: w = one; break;
        }
        if (al) memcpy(&d[i], &w, 8); else for (int k = 0; k < 8; ++k) c[i * 8 + k] = (unsigned char)(w >> (8 * k));
    }
    for (size_t i = nd * 8; i < bytes; ++i) c[i] = (unsigned char)(mode * 37);
}
void Buf::reset(int mode, uint64_t seed) {
    if (kind == OUT) fill_mem(p, n * 8, mode, seed);
    else if (kind == INOUT) for (size_t i = 0; i < n; ++i) p[i] = init[i];
}
// ------------------------------------------------------------------ workspace
Work::~Work() { for (void* b : blocks) raw_free(b); }
void Work::build(const PlainMemoryX<>& req, int way_, long off, long less, int which, bool plain_req) {
    way = way_;
    x = PlainMemoryX<>(); x.dSize = req.dSize; x.iSize = req.iSize; x.mSize = req.mSize;
    auto blk = [&](size_t bytes, size_t o) { void* p = raw_alloc(bytes, 8, o); blocks.push_back(p); return p; };
    auto cut = [&](size_t n) { return n > (size_t)less ? n - (size_t)less : 0; };
    if (way == RAW) {
        size_t sz; void* p; void* r;
        PlainMemory<> pm; pm.dSize = req.dSize; pm.iSize = req.iSize;
        LOUD(sz = plain_req ? pm.enoughRawSize() : x.enoughRawSize());
        size_t need = sz; sz = cut(sz);
        p = blk(sz, (size_t)off & 63);
        if (plain_req) { LOUD(r = pm.allocateFromRaw(p, sz)); x.ddata = pm.ddata; x.idata = pm.idata; x.dSize = pm.dSize; x.iSize = pm.iSize; }
        else LOUD(r = x.allocateFromRaw(p, sz));
        if (need && !r) { refused = true; if (!less) violation("exact-raw-buffer-refused", "a raw buffer of the reported %zu bytes starting at offset %ld is refused", need, off); }
    } else if (way == SEP) {
        if (which % 3 == 0) x.dSize = cut(x.dSize);
        if (which % 3 == 1) x.iSize = cut(x.iSize);
        if (which % 3 == 2) x.mSize = cut(x.mSize);
        if (x.dSize) x.ddata = (double*)blk(x.dSize * sizeof(double), 8 * (off & 7));
        if (x.iSize) x.idata = (int*)blk(x.iSize * sizeof(int), 4 * (off & 15));
        if (x.mSize) x.mdata = (DenseMatrix<>*)blk(x.mSize * sizeof(DenseMatrix<>), 8 * ((off >> 4) & 7));
    } else if (way == FROMD || way == FROMI) {
        PlainMemory<> pm; bool ok;
        LOUD(pm = x.enoughPlainMemory(way == FROMD));
        if (which % 2 == 0) pm.dSize = cut(pm.dSize); else pm.iSize = cut(pm.iSize);
        if (pm.dSize) pm.ddata = (double*)blk(pm.dSize * sizeof(double), 8 * (off & 7));
        if (pm.iSize) pm.idata = (int*)blk(pm.iSize * sizeof(int), 4 * (off & 15));
        LOUD(ok = x.allocateFromPlainMemory(pm, way == FROMD));
        if (!ok) { refused = true; if (!less) violation("exact-plain-memory-refused", "plain memory of the reported size (%zu, %zu) is refused", pm.dSize, pm.iSize); }
    }
}
void Work::fill(int mode, uint64_t seed) {
    for (size_t k = 0; k < blocks.size(); ++k) fill_mem(blocks[k], block_size(blocks[k]) ? block_size(blocks[k]) - ((uintptr_t)blocks[k] & 63 ? (size_t)((uintptr_t)blocks[k] & 63) : 0) : 0, mode, mix(seed, k));
}
// ------------------------------------------------------------------ callbacks
void CB::enter(void* got) const {
    Quiet q;
    calls++;
    if (got != ud) wrong_ud ? void() : violation("user-data", "a callback gets user data %p instead of %p", got, ud);
    probe("callback");
    if (scratch) {
        size_t n = (size_t)(seed % 600); Loud l;
        auto t = scratch->alloc(n, n % 7, n % 5); auto m = t.getPlainMemoryX();
        for (size_t k = 0; k < n; ++k) m.ddata[k] = -7.25e11 - (double)calls;
        for (size_t k = 0; k < n % 7; ++k) m.idata[k] = 77777 + (int)k;
        Quiet q2; probe("callback-uses-pool");
    }
}
void CB::note(uint64_t h) const { Quiet q; log = mix(log, h); }
static uint64_t hx(const double* X) { return mix(mix(bits(X[0] + 0.0), bits(X[1] + 0.0)), bits(X[2] + 0.0)); }
int CB::type(const double* X, int iTet) const {
    uint64_t h = seed;
    if (level == 0) h = mix(h, hx(X));
    else if (level == -1) h = mix(h, (uint64_t)iTet + 17);
    return types[h % (uint64_t)ntypes];
}
double CB::val(const double* X, size_t k) const {
    uint64_t h = mix(seed, 100 + k);
    double r = dval(h);
    if (level != 1) r += dval(h << 7) * X[0] + dval(h << 13) * X[1] * X[1] - dval(h >> 5) * X[2];
    return r;
}
static void boom(const CB* cb) { bool b; b = !cb->noboom && fault_point("callback"); if (b) throw Boom{(int)cb->calls}; }
TensorType OneCB::operator()(const std::array<double, 3>& X, double* D, TensorDims dims, void* ud, int iTet) const {
    cb->enter(ud);
    { Quiet q; if (iTet < 0 || iTet >= cb->f) violation("cell-number", "a tensor callback gets cell %d of %d", iTet, cb->f); }
    boom(cb);
    double P[3] = {X[0], X[1], X[2]}; size_t n = dims.first * dims.second;
    int t;
    { Quiet q; t = cb->type(P, iTet); cb->log = mix(mix(cb->log, hx(P)), mix((uint64_t)iTet, dims.first * 1000 + dims.second)); }
    if (t == TENSOR_SCALAR) D[0] = cb->val(P, 0);
    else if (t == TENSOR_GENERAL) for (size_t k = 0; k < n; ++k) D[k] = cb->val(P, k);
    else if (t == TENSOR_SYMMETRIC) for (size_t i = 0; i < dims.first; ++i) for (size_t j = 0; j <= i; ++j) D[i + dims.first * j] = D[j + dims.first * i] = cb->val(P, i * 16 + j);
    return (TensorType)t;
}
TensorType FusCB::operator()(ArrayView<> X, ArrayView<> D, TensorDims dims, void* ud, const AniMemory<double, int>& mem) const {
    cb->enter(ud);
    boom(cb);
    size_t n = dims.first * dims.second, q = mem.q, f = mem.f;
    int t; double Z[3] = {0, 0, 0};
    { Quiet qq; t = cb->type(Z, 0); if (X.size < 3 * q * f) violation("points", "a tensor callback gets %zu coordinates for %zu points", X.size, q * f); cb->log = mix(cb->log, q * 100 + f); if (D.size < n * q * f && t >= 3) violation("callback-storage", "a tensor callback gets %zu slots for %zu values", D.size, n * q * f); }
    for (size_t r = 0; r < f; ++r) for (size_t m = 0; m < q; ++m) {
        double P[3] = {X[3 * (m + q * r)], X[3 * (m + q * r) + 1], X[3 * (m + q * r) + 2]};
        { Quiet qq; cb->log = mix(cb->log, hx(P)); }
        double* d = D.data + n * (m + q * r);
        if (t == TENSOR_SCALAR) d[0] = cb->val(P, 0);
        else if (t == TENSOR_GENERAL) for (size_t k = 0; k < n; ++k) d[k] = cb->val(P, k);
        else if (t == TENSOR_SYMMETRIC) for (size_t i = 0; i < dims.first; ++i) for (size_t j = 0; j <= i; ++j) d[i + dims.first * j] = d[j + dims.first * i] = cb->val(P, i * 16 + j);
    }
    return (TensorType)t;
}
int EvalCB::operator()(const std::array<double, 3>& X, double* res, uint dim, void* ud) const {
    cb->enter(ud);
    boom(cb);
    double P[3] = {X[0], X[1], X[2]};
    { Quiet q; cb->log = mix(mix(cb->log, hx(P)), dim); }
    for (uint k = 0; k < dim; ++k) res[k] = cb->val(P, k);
    return 0;
}
int eval_fn(const std::array<double, 3>& X, double* res, uint dim, void* ud) { CB* cb = (CB*)ud; return EvalCB{cb}(X, res, dim, ud); }
// ------------------------------------------------------------------ spaces
// a space of the user, which leaves all but values and gradients to the defaults of the library
struct OwnSpace: public BaseFemSpace {
    FemSpace s;
    explicit OwnSpace(const FemSpace& s_): s(s_) { m_order = s.base()->m_order; }
    BaseTypes gatherType() const override { return BaseTypes::NoType; }
    std::string typeName() const override { return "Own(" + s.base()->typeName() + ")"; }
    bool operator==(const BaseFemSpace& o) const override { auto q = dynamic_cast<const OwnSpace*>(&o); return q && *q->s.base() == *s.base(); }
    uint dim() const override { return s.base()->dim(); }
    uint order() const override { return s.base()->order(); }
    void evalBasisFunctions(const Expr& l, const Expr& g, Expr* phi) const override { s.base()->evalBasisFunctions(l, g, phi); }
    void interpolateOnDOF(const Tetra<const double>& XYZ, const EvalFunc& f, ArrayView<>* u, int i, int fusion, PlainMemoryX<> mem, void* ud, uint q) const override { s.base()->interpolateOnDOF(XYZ, f, u, i, fusion, mem, ud, q); }
    PlainMemoryX<> interpolateOnDOF_mem_req(int i, int fusion, uint q) const override { return s.base()->interpolateOnDOF_mem_req(i, fusion, q); }
    BandDenseMatrixX<> applyIDEN(AniMemoryX<>& mem, ArrayView<>& U) const override { return s.base()->applyIDEN(mem, U); }
    OpMemoryRequirements memIDEN(uint q, uint f) const override { return s.base()->memIDEN(q, f); }
    BandDenseMatrixX<> applyGRAD(AniMemoryX<>& mem, ArrayView<>& U) const override { return s.base()->applyGRAD(mem, U); }
    OpMemoryRequirements memGRAD(uint q, uint f) const override { return s.base()->memGRAD(q, f); }
    std::shared_ptr<BaseFemSpace> copy() const override { return std::make_shared<OwnSpace>(*this); }
    std::shared_ptr<BaseFemSpace> subSpace(const int* e, int n) const override { return s.base()->subSpace(e, n); }
};
static FemSpace own(const FemSpace& s) { return FemSpace(OwnSpace(s)); }
int nspaces() { return 29; }
FemSpace make_space(int i) {
    FemSpace P0{P0Space()}, P1{P1Space()}, P2{P2Space()}, B4{Bubble4Space()}, RT{RT0Space()};
    switch (i) {
        case 0: return P0;
        case 1: return P1;
        case 2: return P2;
        case 3: return FemSpace{P3Space()};
        case 4: return RT;
        case 5: return FemSpace{ND0Space()};
        case 6: return FemSpace{CR1Space()};
        case 7: return FemSpace{Bubble2Space()};
        case 8: return B4;
        case 9: return P1 ^ 3;
        case 10: return P2 ^ 2;
        case 11: return P1 * P0;
        case 12: return make_complex_raw({P2 ^ 3, P1});
        case 13: return P1 + B4;
        case 14: return (P1 + B4) ^ 3;
        case 15: return make_complex_raw({P1, P1, P2});
        case 16: return make_complex_raw({P1, P2 ^ 2});
        case 17: return make_complex_raw({RT, P0});
        case 18: return P0 ^ 3;
        case 19: return make_complex_raw({P0, FemSpace{CR1Space()} ^ 2});
        case 20: return make_union_raw({FemSpace{Bubble2Space()}, P1 + B4});
        case 21: return (make_complex_raw({P1, P0})) ^ 2;
        case 22: return make_complex_raw({make_complex_raw({P1, P0}), P2});
        case 23: return P0 ^ 2;
        case 24: return own(P1 ^ 3);
        case 25: return own(make_complex_raw({P1, P2 ^ 2}));
        case 26: return own(RT);
        case 27: return own(P2) ^ 3;
        default: return make_complex_raw({own((P1 + B4) ^ 3), P0});
    }
}
OperatorType op_of(int k) { static const OperatorType t[7] = {IDEN, GRAD, DIV, CURL, DUDX, DUDY, DUDZ}; return t[((k % 7) + 7) % 7]; }
FemSpace& Env::space(int i) {
    auto it = sp.find(i);
    if (it == sp.end()) { FemSpace* s; LOUD(s = new FemSpace(make_space(i))); it = sp.insert({i, s}).first; }
    return *it->second;
}
template <int OP> static ApplyOpBase* tmpl_op(int s) {
    switch (s) {
        case 0: return new ApplyOpFromTemplate<OP, FemFix<FEM_P0>>();
        case 1: return new ApplyOpFromTemplate<OP, FemFix<FEM_P1>>();
        case 2: return new ApplyOpFromTemplate<OP, FemFix<FEM_P2>>();
        case 9: return new ApplyOpFromTemplate<OP, FemVec<3, FEM_P1>>();
        case 12: return new ApplyOpFromTemplate<OP, FemCom<FemVec<3, FEM_P2>, FemFix<FEM_P1>>>();
        case 13: return new ApplyOpFromTemplate<OP, FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>();
        default: return nullptr;
    }
}
ApplyOpBase& Env::oper(int s, int k, int kind) {
    FemSpace& f = space(s);
    if ((k == 2 || k == 3) && f.dim() != 3) k = 0;
    std::array<int, 3> key{s, k, kind};
    auto it = op.find(key);
    if (it != op.end()) return *it->second;
    std::shared_ptr<ApplyOpBase> r;
    {
        Loud l;
        if (kind == 2 && k <= 1) { ApplyOpBase* t = k == 0 ? tmpl_op<IDEN>(s) : tmpl_op<GRAD>(s); if (t) r.reset(t); }
        if (!r && kind == 1) r.reset(new ApplyOpFromSpace(f.getOP_own(op_of(k))));
        if (!r) r.reset(new ApplyOpFromSpaceView(f.getOP(op_of(k))));
    }
    op[key] = r;
    return *r;
}
Env::~Env() { Loud l; op.clear(); for (auto& s : sp) delete s.second; }
// ------------------------------------------------------------------ jobs
Buf* Job::in(size_t n, uint64_t seed) { std::vector<double> w(n); for (size_t i = 0; i < n; ++i) w[i] = dval(mix(seed, i)); return in_vals(w); }
Buf* Job::inout(size_t n, uint64_t seed) { std::vector<double> w(n); for (size_t i = 0; i < n; ++i) w[i] = dval(mix(seed, i)); bufs.emplace_back(new Buf(n, Buf::INOUT, w)); return bufs.back().get(); }
void Job::reset(int mode, uint64_t seed) { for (size_t i = 0; i < bufs.size(); ++i) bufs[i]->reset(mode, mix(seed, i)); cb.calls = 0; cb.log = 0; reset_descriptors(); }
Outcome Job::run(Work& w) {
    Outcome o;
    try { Loud l; exec(w); }
    catch (const Boom& b) { o.kind = 1; o.val = b.n; o.what = "callback"; }
    catch (const std::bad_alloc&) { o.kind = 2; o.what = "bad_alloc"; }
    catch (const std::exception& e) { o.kind = 3; o.what = e.what(); }
    if (!o.kind) {
        auto put = [&](double d) { o.bits.push_back(std::isnan(d) ? 0x7ff8dead00000000ull : bits(d)); };
        for (auto& b : bufs) if (b->kind != Buf::IN) for (size_t i = 0; i < b->n; ++i) put(b->p[i]);
        o.bits.push_back(cb.log); o.bits.push_back((uint64_t)cb.calls);
        extra(o.bits);
    }
    return o;
}
PlainMemoryX<> Job::ask() { PlainMemoryX<> r; LOUD(r = req()); return r; }
std::string Outcome::str() const { return kind == 0 ? "success" : "an error (" + what + ")"; }
std::string Outcome::diff(const Outcome& o) const {
    if (kind != o.kind) return str() + " instead of " + o.str();
    char b[200];
    if (bits.size() != o.bits.size()) { snprintf(b, sizeof b, "%zu results instead of %zu", bits.size(), o.bits.size()); return b; }
    size_t n = 0, first = 0;
    for (size_t i = 0; i < bits.size(); ++i) if (bits[i] != o.bits[i]) { if (!n) first = i; n++; }
    double x, y; memcpy(&x, &bits[first], 8); memcpy(&y, &o.bits[first], 8);
    snprintf(b, sizeof b, "%zu of %zu results differ, number %zu is %.17g instead of %.17g", n, bits.size(), first, x, y);
    return b;
}
static std::vector<double> cell(uint64_t seed, int f) { // 4 blocks of 3*f coordinates
    std::vector<double> r(12 * (size_t)f);
    for (int k = 0; k < f; ++k) {
        uint64_t h = mix(seed, 7 + (uint64_t)k);
        double s = 0.5 + (double)(h % 8) * 0.25; bool neg = (h >> 9) & 1;
        static const double ref[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        for (int p = 0; p < 4; ++p) {
            int pp = neg && p >= 2 ? 5 - p : p;
            for (int c = 0; c < 3; ++c) r[(size_t)p * 3 * f + 3 * k + c] = s * ref[pp][c] + 0.15 * s * dval(mix(h, (uint64_t)(pp * 3 + c)));
        }
    }
    return r;
}
struct Geo { Buf* P[4]; };
static Geo geometry(Job& j, uint64_t seed, int f) {
    auto c = cell(seed, f); Geo g;
    for (int p = 0; p < 4; ++p) g.P[p] = j.in_vals(std::vector<double>(c.begin() + p * 3 * f, c.begin() + (p + 1) * 3 * f));
    return g;
}
static long M(long x, long n) { long r = x % n; return r < 0 ? r + n : r; }

// ---- family 0: integrals and evaluation with run-time operators
const char* const kind_names[11] = {"tet", "face", "faceN", "edge", "node", "pntL", "pntX", "applyL", "applyX", "applyLD", "applyXD"};
struct RtJob : Job {
    RtArgs a; int kind, tr; const RtFns* fn = nullptr; DenseMatrix<> A, D; Buf *o = nullptr; size_t rows = 0, cols = 0;
    const ApplyOpBase *u0, *v0; 
    RtJob(const V& vv, Env& env) {
        v = vv; v.resize(15);
        kind = (int)M(v[1], 11); tr = (int)M(v[2], 13);
        int f = 1 + (int)M(v[9], 3); if (kind == 6 || kind == 8 || kind == 10) f = 1;
        int su = (int)M(v[3], nspaces()), sv = (int)M(v[5], nspaces());
        ApplyOpBase* U = &env.oper(su, (int)M(v[4], 7), (int)M(v[7], 3));
        ApplyOpBase* Vv = kind >= 7 ? U : &env.oper(sv, (int)M(v[6], 7), (int)M(v[7] / 3, 3));
        int order = (int)M(v[8], 7); int npts = 1 + (int)M(v[13], 6);
        size_t dimV = kind >= 9 ? 1 + M(v[10], 4) : Vv->Dim(); if (kind == 2) dimV *= 3;
        auto cost = [&] { size_t q = kind < 3 ? est_q[order] : kind == 3 ? 4 : kind == 4 ? 1 : npts; return q * f * ((size_t)U->Nfa() * (kind >= 7 ? 1 : Vv->Nfa()) + (size_t)U->Dim() * U->Nfa()) * (kind >= 7 ? 1 : dimV); };
        while (cost() > 40000) { if (f > 1) f--; else if (order > 1 && kind < 3) order--; else if (npts > 1 && kind > 4) npts--; else if (kind < 7 && Vv != &env.oper(1, 0, 0)) { Vv = &env.oper(1, 0, 0); dimV = kind == 2 ? 3 : 1; } else if (U != &env.oper(1, 1, 0)) { U = &env.oper(1, 1, 0); if (kind >= 7) Vv = U; } else break; }
        a.kind = kind <= 6 ? kind : kind == 9 || kind == 7 ? 7 : 8; a.U = U; a.V = Vv; a.order = order; a.f = f; a.npts = npts; a.d1 = (uint)dimV; a.cb = &cb; a.ud = cb.ud = (void*)this;
        a.num = (int)M(v[10], kind == 3 ? 6 : 4);
        size_t dU = U->Dim(); size_t nfu = U->Nfa(), nfv = kind >= 7 ? 1 : Vv->Nfa();
        // tensor types that are allowed by the dimensions
        bool sc = dU == dimV || ((kind >= 9 || nfu == 1) && dU == 1);
        int lev[13] = {0, 1, -1, 1, -2, 1, 1, 1, 0, 1, 1, 0, -2};
        cb.seed = (uint64_t)v[12] * 2654435761u + 12345; cb.f = f; cb.level = lev[tr];
        cb.ntypes = 0;
        if ((tr == 6 || tr == 7 || tr == 8) && !sc) tr = tr == 8 ? 11 : 10;
        if (tr == 9 && dU != dimV) tr = 10;
        cb.level = lev[tr];
        if (tr == 6) cb.types[cb.ntypes++] = TENSOR_NULL; else if (tr == 7 || tr == 8) cb.types[cb.ntypes++] = TENSOR_SCALAR; else if (tr == 9) cb.types[cb.ntypes++] = TENSOR_SYMMETRIC; else if (tr == 10 || tr == 11) cb.types[cb.ntypes++] = TENSOR_GENERAL;
        else {
            if (sc && M(v[12], 2)) cb.types[cb.ntypes++] = TENSOR_NULL;
            if (sc && M(v[12], 3)) cb.types[cb.ntypes++] = TENSOR_SCALAR;
            if (dU == dimV && M(v[12], 5) > 1) cb.types[cb.ntypes++] = TENSOR_SYMMETRIC;
            if (!cb.ntypes || M(v[12], 7)) cb.types[cb.ntypes++] = TENSOR_GENERAL;
        }
        fn = &rt_fns[tr];
        Geo g = geometry(*this, (uint64_t)v[11], f); for (int p = 0; p < 4; ++p) a.P[p] = g.P[p]->p;
        if (kind == 5 || kind == 7 || kind == 9) {
            std::vector<double> L; for (int i = 0; i < npts; ++i) { double s = 0, w[4]; for (int k = 0; k < 4; ++k) { w[k] = 0.1 + std::fabs(dval(mix((uint64_t)v[11] + 5, (uint64_t)(i * 4 + k)))); s += w[k]; } for (int k = 0; k < 4; ++k) L.push_back(w[k] / s); }
            Buf* b = in_vals(L); a.XYL.Init(b->p, b->n);
        }
        if (kind == 6 || kind == 8 || kind == 10) { std::vector<double> X; for (int i = 0; i < 3 * npts; ++i) X.push_back(0.25 + 0.2 * dval(mix((uint64_t)v[11] + 9, (uint64_t)i))); Buf* b = in_vals(X); a.X.Init(b->p, b->n); }
        if (kind == 5 || kind == 6) { Buf* b = in((size_t)npts, (uint64_t)v[11] + 77); a.WG.Init(b->p, b->n); }
        if (kind >= 7) { Buf* b = in(nfu * f, (uint64_t)v[12] + 3); D.Init(b->p, nfu, (size_t)f, b->n); a.dofs = &D; rows = (kind >= 9 ? dimV : dU) * npts; cols = (size_t)f; }
        else { rows = nfv; cols = nfu * f; }
        o = out(rows * cols); a.A = &A;
        u0 = U; v0 = Vv;
        char b[160]; snprintf(b, sizeof b, "%s(traits %d) U=%d/%d V=%d/%d order %d fusion %d points %d", kind_names[kind], tr, su, (int)M(v[4], 7), sv, (int)M(v[6], 7), order, f, npts); name = b;
    }
    void reset_descriptors() override { A.Init(o->p, M(v[12], 2) ? rows : 0, M(v[12], 2) ? cols : 0, o->n); }
    PlainMemoryX<> req() override {
        if (kind == 7) return fem3DapplyL_memory_requirements(*a.U, (uint)a.npts, (uint)a.f);
        if (kind == 8) return fem3DapplyX_memory_requirements(*a.U, (uint)a.npts, (uint)a.f);
        return fn->req(a);
    }
    void exec(Work& w) override {
        if (kind == 7 || kind == 8) {
            auto T = make_tetras(a.P[0], a.P[1], a.P[2], a.P[3], a.f);
            Tetra<const double> T1(a.P[0], a.P[1], a.P[2], a.P[3]);
            if (kind == 7) { if (w.way == DYN) fem3DapplyL(T, a.XYL, D, *a.U, A, *w.dyn); else fem3DapplyL(T, a.XYL, D, *a.U, A, w.x); }
            else { if (w.way == DYN) fem3DapplyX(T1, a.X, D, *a.U, A, *w.dyn); else fem3DapplyX(T1, a.X, D, *a.U, A, w.x); }
        } else if (w.way == DYN) fn->dyn(a, *w.dyn);
        else fn->plain(a, w.x);
    }
    void extra(std::vector<uint64_t>& r) override { r.push_back(A.nRow); r.push_back(A.nCol); if (A.nRow != rows || A.nCol != cols) violation("dimensions", "%s gives a %zux%zu matrix instead of %zux%zu", name.c_str(), A.nRow, A.nCol, rows, cols); }
    void check_objects(const char* when) override {
        if (A.data != o->p || A.size != o->n) violation("descriptor", "%s: the caller's matrix refers to other storage", when);
        if (a.dofs && (D.nRow * D.nCol != D.size || D.nCol != (size_t)a.f)) violation("descriptor", "%s: the caller's degrees of freedom changed shape", when);
    }
};
extern const RtFns rt_0, rt_1, rt_2, rt_3, rt_4, rt_5, rt_6, rt_7, rt_8, rt_9, rt_10, rt_11, rt_12;
const RtFns rt_fns[13] = {rt_0, rt_1, rt_2, rt_3, rt_4, rt_5, rt_6, rt_7, rt_8, rt_9, rt_10, rt_11, rt_12};

Job* make_job_more(const V& v, Env& env);
Job* make_job(const V& v, Env& env) {
    if (v.empty() || M(v[0], 9) == 0) return new RtJob(v.empty() ? V{0} : v, env);
    return make_job_more(v, env);
}
V gen_job(Rng& r, int family) {
    V v; for (int i = 0; i < 15; ++i) v.push_back(r.below(1 << 20));
    if (family < 0) { static const int w[] = {0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8}; family = w[r.below(15)]; }
    v[0] = family;
    if (r.chance(1, 4)) v[5] = v[3];        // the same space for both variables
    if (r.chance(1, 6)) v[6] = v[4], v[7] = v[7] / 9 * 9 + (long)r.below(3) * 4; // and the same operation
    return v;
}
}
