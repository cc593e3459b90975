// C26: interface between the sparse algebra of INMOST and KINSOL. Vector, matrix and linear solver operations over vectors
// distributed between ranks, and histories of the solver object: configuration in any order, solutions with scripted failures
// of callbacks, linear solver, KINSOL and allocations, moves and destruction. KINSOL and INMOST are stand-ins.
#include "tasks.h"
#include "anifem++/kinsol_interface/SUNNonlinearSolver.h"
#include <thread>
using namespace sim;
using INMOST::Sparse::Vector; using INMOST::Sparse::Matrix; using INMOST::Solver;

namespace {
thread_local double g_clock = 0;
typedef unsigned U;
#if SUNDIALS_VERSION_MAJOR >= 6
#define CTX(c) (SUNContext)(c),
#define CTX1(c) (SUNContext)(c)
#define HAVE_CTX 1
#else
#define CTX(c)
#define CTX1(c)
#define HAVE_CTX 0
#endif
#ifdef USE_MPI
const int MAXRANKS = 4;
#else
const int MAXRANKS = 1;
#endif
#if HAVE_CTX
typedef sundials::Context Ctx;
#else
struct Ctx { explicit Ctx(void* = nullptr) {} };
#endif
// every rank executes f(rank); one runs at a time, as in processes that share nothing
template <class F> void run_ranks(int n, F f) {
    SimComm* c; { Loud l; NoFault nf; c = new SimComm(n); }
    if (n == 1) { SimComm::mine() = c; SimComm::rank() = 0; SimComm::lock() = nullptr; g_clock = 0; f(0); }
    else {
        nontrivial();
        Loud l; NoFault nf; std::vector<std::thread> th;
        for (int q = 0; q < n; ++q) th.emplace_back([&, q] {
            std::unique_lock<std::mutex> lk(c->m); SimComm::mine() = c; SimComm::rank() = q; SimComm::lock() = &lk; g_clock = 0;
            { Quiet qq; f(q); } SimComm::mine() = nullptr; SimComm::lock() = nullptr; });
        for (auto& t : th) t.join();
    }
    { Loud l; delete c; } SimComm::mine() = nullptr;
}
// intervals of the ranks: every rank owns something
std::vector<U> cut_of(const Plan& p, int n, U N) {
    Rng r((uint64_t)p.get("cut")); std::vector<U> c{0}; U left = N;
    for (int q = 0; q < n; ++q) { U k = q + 1 == n ? left : (U)r.in(1, (long)left - (n - 1 - q)); c.push_back(c.back() + k); left -= k; }
    return c;
}
bool near_(double a, double b, double scale) { if (a == b) return true; return std::fabs(a - b) <= 1e-13 * std::max(scale, std::max(std::fabs(a), std::fabs(b))); }

// ------------------------------------------------------------------------------------------ operations
enum { NV = 5, NM = 3 };
struct Algebra {
    const Plan& p; int q, n; U N; std::vector<U> cut; Ctx* ctx = nullptr;
    N_Vector v[NV] = {}; Vector* user[NV] = {}; std::vector<double> g[NV]; bool known[NV] = {};
    SUNMatrix m[NM] = {}; Matrix* muser[NM] = {}; std::vector<std::map<U, double>> a[NM]; bool mknown[NM] = {};
    Solver* sol = nullptr; SUNLinearSolver ls = nullptr;
    Algebra(const Plan& p_, int q_, int n_) : p(p_), q(q_), n(n_), N((U)p_.get("N")), cut(cut_of(p_, n_, (U)p_.get("N"))) {}
    U lo() const { return cut[(size_t)q]; } U hi() const { return cut[(size_t)q + 1]; }
    Vector* data(int k) { N_VectorContent_Inmost c; { Loud l; c = N_VContent_Inmost(v[k]); } return c->data; }
    Matrix* mdata(int k) { SUNMatrixContent_Inmost c; { Loud l; c = SUNMatContent_Inmost(m[k]); } return c->data; }
    void check(int k, const char* what) {
        Vector* d = data(k); if (!d) violation("content", "%s: vector %d has no data", what, k);
        if (d->GetFirstIndex() != lo() || d->GetLastIndex() != hi()) violation("interval", "%s: vector %d has the interval [%u, %u), expected [%u, %u)", what, k, d->GetFirstIndex(), d->GetLastIndex(), lo(), hi());
        if (!known[k]) return;
        for (U i = lo(); i < hi(); ++i) if (!near_((*d)[i], g[k][i], 0)) violation("value", "%s: component %u of vector %d is %.17g, expected %.17g", what, i, k, (*d)[i], g[k][i]);
    }
    void check_all(const char* what) { for (int k = 0; k < NV; ++k) check(k, what); for (int k = 0; k < NM; ++k) mcheck(k, what); }
    void mcheck(int k, const char* what) {
        Matrix* d = mdata(k); if (!mknown[k]) return;
        if (d->GetFirstIndex() != lo() || d->GetLastIndex() != hi()) violation("interval", "%s: matrix %d has the interval [%u, %u)", what, k, d->GetFirstIndex(), d->GetLastIndex());
        for (U i = lo(); i < hi(); ++i) { std::map<U, double> r; for (auto& e : (*d)[i].e) r[e.first] += e.second; if (r != a[k][i]) violation("value", "%s: row %u of matrix %d differs", what, i, k); }
    }
    void fill(int k, int mode, uint64_t seed) {
        Rng r(mix(seed, 77)); g[k].resize(N); known[k] = true;
        for (auto& x : g[k]) { switch (mode) { case 0: x = (double)r.in(-4, 4); break; case 1: x = (double)r.in(1, 8) * (r.chance(1, 2) ? -0.5 : 0.5); break; case 2: x = (double)r.in(1, 8) * 0.25; break; case 3: x = std::ldexp((double)r.in(-9, 9), (int)r.in(-30, 30)); break; case 4: x = (double)r.in(-2, 2); break; default: x = r.unit() - 0.5; } }
        Vector* d = data(k); for (U i = lo(); i < hi(); ++i) (*d)[i] = g[k][i];
    }
    void mfill(int k, uint64_t seed) {
        Rng r(mix(seed, 78)); a[k].assign(N, {}); mknown[k] = true;
        for (U i = 0; i < N; ++i) { a[k][i][i] = (double)r.in(3, 6); for (long t = r.in(0, 3); t > 0; --t) { U j = (U)r.below(N); if (j != i) a[k][i][j] = (double)r.in(-2, 2) * 0.25; } }
        Matrix* d = mdata(k); for (U i = lo(); i < hi(); ++i) { (*d)[i].Clear(); for (auto& e : a[k][i]) (*d)[i][e.first] = e.second; }
    }
    void make(int k, int how, int from) {
        N_Vector nv = nullptr; Vector* nu = nullptr; std::string name = how == 2 && k % 2 ? "v_cln7x" : "v" + std::to_string(k);
        if (how == 0) { Loud l; NoFault nf; nu = new Vector(name, lo(), hi(), SimComm::mine()); }
        uint64_t mark = alloc_mark(); std::string copy = name; bool thrown = false;
        try { Loud l; nv = how == 0 ? N_VNew_Inmost(CTX(*ctx) nu) : how == 1 ? N_VNew_Inmost(CTX(*ctx) std::move(copy)) : how == 2 ? N_VClone(v[from]) : v[from]->ops->nvcloneempty(v[from]); }
        catch (const std::bad_alloc&) { thrown = true; }
        if (thrown) violation("exception", "constructing a vector (%d) ends with an exception instead of NULL", how);
        if (!nv) {
            if (!fired()) violation("spurious-failure", "no vector (%d), although nothing failed", how);
            probe("failed-make"); arm(0); size_t left = live_since(mark); if (left) violation("leak", "%zu blocks left after the failed construction of a vector (%d)", left, how);
            if (nu) { Loud l; delete nu; } return;
        }
        arm(0);
        N_VectorContent_Inmost c; { Loud l; c = N_VContent_Inmost(nv); }
        if (how == 1) c->data->SetInterval(lo(), hi());
        if (how == 3) { if (c->data || c->own_data) violation("content", "an empty clone has data"); Loud l; NoFault nf; nu = new Vector("e", lo(), hi(), SimComm::mine()); c->data = nu; }
        if (how == 0 && c->data != nu) violation("content", "the vector does not have the data it was made from");
        if (how == 1 || how == 2) { for (int j = 0; j < NV; ++j) if (v[j] && data(j) == c->data) violation("content", "the clone shares data with vector %d", j);
            if (c->data->GetCommunicator() != SimComm::mine() && how == 2) violation("content", "the clone has another communicator"); }
        if (nv->ops->nvgetvectorid(nv) != SUNDIALS_NVEC_CUSTOM) violation("content", "wrong kind of vector");
#if HAVE_CTX
        if (nv->sunctx != (SUNContext)*ctx) violation("content", "the vector has another context");
#endif
        drop(k); v[k] = nv; user[k] = nu; known[k] = false;
    }
    void drop(int k) { if (!v[k]) return; { Loud l; N_VDestroy(v[k]); } v[k] = nullptr; if (user[k]) { for (Vector* d = user[k]; d;) { for (double& x : *d) x = 1; break; } Loud l; delete user[k]; user[k] = nullptr; } }
    void mmake(int k, int how, int from) {
        SUNMatrix nv = nullptr; Matrix* nu = nullptr; if (how == 0) { Loud l; NoFault nf; nu = new Matrix("m", lo(), hi(), SimComm::mine()); }
        uint64_t mark = alloc_mark(); std::string copy = "a matrix with a longer name_cln12"; bool thrown = false;
        try { Loud l; nv = how == 0 ? SUNMatInmost(CTX(*ctx) nu, 0) : how == 1 ? SUNMatInmost(CTX(*ctx) std::move(copy)) : m[from]->ops->clone(m[from]); } catch (const std::bad_alloc&) { thrown = true; }
        if (thrown) violation("exception", "constructing a matrix (%d) ends with an exception instead of NULL", how);
        if (!nv) { if (!fired()) violation("spurious-failure", "no matrix (%d), although nothing failed", how); probe("failed-make"); arm(0); size_t left = live_since(mark); if (left) violation("leak", "%zu blocks left after the failed construction of a matrix (%d)", left, how);
            if (nu) { Loud l; delete nu; } return; }
        arm(0); SUNMatrixContent_Inmost c; { Loud l; c = SUNMatContent_Inmost(nv); }
        if (how == 1) c->data->SetInterval(lo(), hi());
        if (how == 0 && c->data != nu) violation("content", "the matrix does not have the data it was made from");
        for (int j = 0; j < NM; ++j) if (m[j] && mdata(j) == c->data) violation("content", "the clone shares data with matrix %d", j);
        if (nv->ops->getid(nv) != SUNMATRIX_CUSTOM) violation("content", "wrong kind of matrix");
        mdrop(k); m[k] = nv; muser[k] = nu; mknown[k] = false; if (how != 2) mfill(k, 1);
        else if (c->data->GetFirstIndex() != lo() || c->data->GetLastIndex() != hi()) violation("interval", "the clone of a matrix has another interval");
    }
    void mdrop(int k) { if (!m[k]) return; { Loud l; if (m[k]->ops->destroy) m[k]->ops->destroy(m[k]); } m[k] = nullptr; if (muser[k]) { muser[k]->Nonzeros(); Loud l; delete muser[k]; muser[k] = nullptr; } }
    void tame(int k) { bool bad = !known[k]; if (known[k]) for (double x : g[k]) if (!(std::fabs(x) < 1e9) || (x != 0 && std::fabs(x) < 1e-9)) bad = true; if (bad) fill(k, 0, 5); }
    void number(double got, double want, double scale, const char* what) { if (!near_(got, want, scale)) violation("reduction", "%s is %.17g, expected %.17g", what, got, want); }
    void vop(const Op& o) {
        int w = (int)o.at(0), x = (int)o.at(1), y = (int)o.at(2), z = (int)o.at(3); double c = (double)o.at(4) * 0.5, d = (double)o.at(5) * 0.5; uint64_t seed = (uint64_t)o.at(6);
        tame(x); tame(y); tame(z);
        N_Vector X = v[x], Y = v[y], Z = v[z]; auto& gx = g[x]; auto& gy = g[y]; auto& gz = g[z]; N_Vector_Ops f = X->ops; std::vector<double> r(N);
        double s = 0, t = 0, got = 0; bool bg; U b = lo(), e = hi();
        auto each = [&](std::function<double(U)> h) { for (U i = 0; i < N; ++i) r[i] = h(i); };
        auto sum = [&](bool local, std::function<double(U)> h) { s = t = 0; for (U i = local ? b : 0; i < (local ? e : N); ++i) { double k = h(i); s += k; t += std::fabs(k); } };
        switch (w) {
            case 0: each([&](U i) { return c * gx[i] + d * gy[i]; }); LOUD(f->nvlinearsum(c, X, d, Y, Z)); gz = r; break;
            case 1: LOUD(f->nvconst(c, Z)); gz.assign(N, c); break;
            case 2: each([&](U i) { return gx[i] * gy[i]; }); LOUD(f->nvprod(X, Y, Z)); gz = r; break;
            case 3: fill(y, 1, seed); each([&](U i) { return gx[i] / gy[i]; }); LOUD(f->nvdiv(X, Y, Z)); gz = r; break;
            case 4: each([&](U i) { return c * gx[i]; }); LOUD(f->nvscale(c, X, Z)); gz = r; break;
            case 5: each([&](U i) { return std::fabs(gx[i]); }); LOUD(f->nvabs(X, Z)); gz = r; break;
            case 6: fill(x, 1, seed); each([&](U i) { return 1 / gx[i]; }); LOUD(f->nvinv(X, Z)); gz = r; break;
            case 7: each([&](U i) { return gx[i] + c; }); LOUD(f->nvaddconst(X, c, Z)); gz = r; break;
            case 8: sum(false, [&](U i) { return gx[i] * gy[i]; }); LOUD(got = f->nvdotprod(X, Y)); number(got, s, t, "dot product"); break;
            case 9: for (double k : gx) s = std::max(s, std::fabs(k)); LOUD(got = f->nvmaxnorm(X)); number(got, s, 0, "maximum norm"); break;
            case 10: sum(false, [&](U i) { return gx[i] * gy[i] * gx[i] * gy[i]; }); LOUD(got = f->nvwrmsnorm(X, Y)); number(got, std::sqrt(s / N), 0, "weighted root mean square norm"); break;
            case 11: sum(false, [&](U i) { return gz[i] > 0 ? gx[i] * gy[i] * gx[i] * gy[i] : 0; }); LOUD(got = f->nvwrmsnormmask(X, Y, Z)); number(got, std::sqrt(s / N), 0, "masked weighted root mean square norm"); break;
            case 12: s = gx[0]; for (double k : gx) s = std::min(s, k); LOUD(got = f->nvmin(X)); number(got, s, 0, "minimum"); break;
            case 13: sum(false, [&](U i) { return gx[i] * gy[i] * gx[i] * gy[i]; }); LOUD(got = f->nvwl2norm(X, Y)); number(got, std::sqrt(s), 0, "weighted euclidean norm"); break;
            case 14: sum(false, [&](U i) { return std::fabs(gx[i]); }); LOUD(got = f->nvl1norm(X)); number(got, s, t, "sum of absolute values"); break;
            case 15: each([&](U i) { return std::fabs(gx[i]) >= c ? 1. : 0.; }); LOUD(f->nvcompare(c, X, Z)); gz = r; break;
            case 16: case 17: { // inverse with test
                if (z == x) { z = (x + 1) % NV; Z = v[z]; tame(z); } bool local = w == 17; if (seed % 2) fill(x, 1, seed); auto& h = g[z]; bool all = true, mine = true;
                for (U i = 0; i < N; ++i) { if (gx[i] == 0) { all = false; if (i >= b && i < e) mine = false; } else h[i] = 1 / gx[i]; }
                LOUD(bg = local ? f->nvinvtestlocal(X, Z) : f->nvinvtest(X, Z)); if (bg != (local ? mine : all)) violation("reduction", "inverse test%s says %d, expected %d", local ? " of this rank" : "", bg, local ? mine : all);
                Vector* zd = data(z); for (U i = b; i < e; ++i) if (gx[i] == 0) (*zd)[i] = h[i]; // unspecified
                break; }
            case 18: case 19: { // constraints
                if (z == x) { z = (x + 1) % NV; Z = v[z]; } if (y == x || y == z) { for (y = 0; y == x || y == z;) ++y; Y = v[y]; } bool local = w == 19; fill(y, 4, seed); bool all = true, mine = true; known[z] = true; auto& h = g[z]; h.resize(N); auto& cc = g[y];
                for (U i = 0; i < N; ++i) { double k = cc[i]; bool ok = k == 0 || (std::fabs(k) == 1 ? gx[i] * k >= 0 : gx[i] * k > 0); h[i] = ok ? 0 : 1; if (!ok) { all = false; if (i >= b && i < e) mine = false; } }
                LOUD(bg = local ? f->nvconstrmasklocal(Y, X, Z) : f->nvconstrmask(Y, X, Z)); if (bg != (local ? mine : all)) violation("reduction", "test of the constraints%s says %d, expected %d", local ? " of this rank" : "", bg, local ? mine : all);
                break; }
            case 20: case 21: { bool local = w == 21; s = BIG_REAL; for (U i = local ? b : 0; i < (local ? e : N); ++i) if (gy[i] != 0) s = std::min(s, gx[i] / gy[i]); LOUD(got = local ? f->nvminquotientlocal(X, Y) : f->nvminquotient(X, Y)); number(got, s, 0, "minimum of the quotients"); break; }
            case 22: { // linear combination; the result may be the first vector
                Rng q_(seed); int nv = (int)q_.in(1, 4); std::vector<N_Vector> xs; std::vector<double> cs; std::vector<int> id; bool inplace = q_.chance(1, 3);
                for (int k = 0; k < nv; ++k) { int i = k == 0 && inplace ? z : (int)q_.below(NV); if (k > 0 || !inplace) while (i == z) i = (int)q_.below(NV); tame(i); id.push_back(i); xs.push_back(v[i]); cs.push_back((double)q_.in(-4, 4) * 0.5); }
                std::vector<double> m_(N); for (U i = 0; i < N; ++i) for (int k = 0; k < nv; ++k) { double pr = cs[(size_t)k] * g[id[(size_t)k]][i]; r[i] = k ? r[i] + pr : pr; m_[i] += std::fabs(pr); }
                int rc; LOUD(rc = f->nvlinearcombination(nv, cs.data(), xs.data(), Z)); if (rc) violation("status", "linear combination of %d vectors returns %d", nv, rc);
                Vector* zd = data(z); for (U i = b; i < e; ++i) if (std::fabs((*zd)[i] - r[i]) > 1e-13 * m_[i]) violation("value", "linear combination of %d vectors%s: component %u is %.17g, expected %.17g", nv, inplace ? " in place" : "", i, (*zd)[i], r[i]);
                g[z] = r; for (U i = b; i < e; ++i) (*zd)[i] = r[i];
                break; }
            case 23: { Rng q_(seed); int nv = (int)q_.in(1, 4); std::vector<N_Vector> ys; std::vector<int> id; std::vector<double> out((size_t)nv, 99.); for (int k = 0; k < nv; ++k) { int i = (int)q_.below(NV); tame(i); id.push_back(i); ys.push_back(v[i]); }
                int rc; LOUD(rc = f->nvdotprodmulti(nv, X, ys.data(), out.data())); if (rc) violation("status", "%d dot products return %d", nv, rc);
                for (int k = 0; k < nv; ++k) { auto& h = g[id[(size_t)k]]; sum(false, [&](U i) { return gx[i] * h[i]; }); number(out[(size_t)k], s, t, "one of several dot products"); } break; }
            case 24: sum(true, [&](U i) { return gx[i] * gy[i]; }); LOUD(got = f->nvdotprodlocal(X, Y)); number(got, s, t, "dot product of this rank"); break;
            case 25: for (U i = b; i < e; ++i) s = std::max(s, std::fabs(gx[i])); LOUD(got = f->nvmaxnormlocal(X)); number(got, s, 0, "maximum norm of this rank"); break;
            case 26: s = gx[b]; for (U i = b; i < e; ++i) s = std::min(s, gx[i]); LOUD(got = f->nvminlocal(X)); number(got, s, 0, "minimum of this rank"); break;
            case 27: sum(true, [&](U i) { return std::fabs(gx[i]); }); LOUD(got = f->nvl1normlocal(X)); number(got, s, t, "sum of absolute values of this rank"); break;
            case 28: sum(true, [&](U i) { return gx[i] * gy[i] * gx[i] * gy[i]; }); LOUD(got = f->nvwsqrsumlocal(X, Y)); number(got, s, t, "weighted square sum of this rank"); break;
            case 29: sum(true, [&](U i) { return gz[i] > 0 ? gx[i] * gy[i] * gx[i] * gy[i] : 0; }); LOUD(got = f->nvwsqrsummasklocal(X, Y, Z)); number(got, s, t, "masked weighted square sum of this rank"); break;
            case 30: { long len; LOUD(len = f->nvgetlength(X)); if (len != (long)N) violation("reduction", "length is %ld, expected %u", len, N); break; }
            default: { void* cm; LOUD(cm = f->nvgetcommunicator(X)); (void)cm;
#ifdef USE_MPI
                if (!cm || *static_cast<MPI_Comm*>(cm) != SimComm::mine()) violation("content", "wrong communicator");
#endif
                break; }
        }
        mixhash(bits(got)); check_all("vector operation");
    }
    void mop(const Op& o) {
        int w = (int)o.at(0), x = (int)o.at(1), y = (int)o.at(2);
        int i0 = x % NM, i1 = y % NM, rc;
        if (w == 0) { LOUD(rc = m[i0]->ops->zero(m[i0])); if (rc) violation("status", "zeroing a matrix returns %d", rc); a[i0].assign(N, {}); mknown[i0] = true; }
        else if (w == 1) { if (!mknown[i0]) mfill(i0, 3); LOUD(rc = m[i0]->ops->copy(m[i0], m[i1])); if (rc) violation("status", "copying a matrix returns %d", rc); a[i1] = a[i0]; mknown[i1] = true; if (i0 != i1 && mdata(i0) == mdata(i1)) violation("content", "the copy of a matrix shares its data"); }
        else if (w == 2) { mfill(i0, (uint64_t)o.at(3)); }
        else { // matrix times vector
            if (!mknown[i0]) mfill(i0, 4); tame(x); if (y == x) y = (x + 1) % NV; std::vector<double> r(N), s(N); known[y] = true; g[y].resize(N);
            for (U i = 0; i < N; ++i) for (auto& e : a[i0][i]) { double k = e.second * g[x][e.first]; r[i] += k; s[i] += std::fabs(k); }
            LOUD(rc = m[i0]->ops->matvec(m[i0], v[x], v[y])); if (rc) violation("status", "matrix times vector returns %d", rc);
            if (mdata(i0)->sim_prepared) violation("left-prepared", "matrix times vector leaves rows of other ranks in the matrix");
            Vector* d = data(y); if (d->GetFirstIndex() != lo() || d->GetLastIndex() != hi()) violation("interval", "the product has another interval");
            for (U i = lo(); i < hi(); ++i) if (std::fabs((*d)[i] - r[i]) > 1e-13 * s[i]) violation("value", "matrix times vector: component %u is %.17g, expected %.17g", i, (*d)[i], r[i]);
            g[y] = r; for (U i = lo(); i < hi(); ++i) (*d)[i] = r[i]; probe("matvec");
        }
        check_all("matrix operation");
    }
    void lin(const Op& o) {
        int i0 = (int)o.at(1) % NM, x = (int)o.at(2), b = (int)o.at(3); if (x == b) b = (x + 1) % NV; mfill(i0, (uint64_t)o.at(4)); fill(b, 1, (uint64_t)o.at(4) + 1); fill(x, 0, 9); double tol = 1e-3; int rc, out = (int)o.at(5);
        sol->script.assign(1, out); sol->used = 0; sol->codes.clear(); long sets = sol->nset;
        LOUD(rc = ls->ops->initialize(ls)); if (rc) violation("status", "initialisation of the linear solver returns %d", rc);
        if (o.at(0)) { LOUD(rc = ls->ops->setup(ls, m[i0])); if (rc) violation("status", "setup of the linear solver returns %d", rc); }
        else { SUNLinearSolverContent_Inmost c; LOUD(c = SUNLinSolContent_Inmost(ls)); if (c->updated_mat == 1) { LOUD(rc = ls->ops->setup(ls, m[i0])); if (rc) violation("status", "setup of the linear solver returns %d", rc); } }
        LOUD(rc = ls->ops->solve(ls, m[i0], v[x], v[b], tol));
        if (sol->nset == sets || sol->matrix != mdata(i0)) violation("linear-solver", "the solver has not got the matrix");
        judge(sol, rc, tol);
        int it; double res; LOUD(it = ls->ops->numiters(ls)); LOUD(res = ls->ops->resnorm(ls)); if (it != sol->Iterations() || res != sol->Residual()) violation("linear-solver", "%d iterations, residual %g; expected %ld, %g", it, res, sol->Iterations(), sol->Residual());
        if (sol->codes.back() == 0) { Vector* d = data(x); std::vector<double> all; { Loud l; NoFault nf; all = INMOST::sim_gather(*d); }
            for (U i = 0; i < N; ++i) { double s = 0; for (auto& e : a[i0][i]) s += e.second * all[e.first]; if (std::fabs(s - g[b][i]) > 1e-10) violation("linear-solver", "equation %u is not satisfied: %g instead of %g", i, s, g[b][i]); } }
        known[x] = false; fill(x, 0, 3); check_all("linear solver"); probe("linear-solver");
    }
    static void judge(Solver* s, int rc, double tol) {
        if (s->tol != tol) violation("linear-solver", "tolerance %g instead of %g", s->tol, tol);
        static const int want[] = {SUNLS_SUCCESS, SUNLS_RES_REDUCED, SUNLS_CONV_FAIL, SUNLS_RES_REDUCED, SUNLS_CONV_FAIL, SUNLS_PACKAGE_FAIL_UNREC};
        int o = s->codes.back(); if (rc != want[o]) violation("linear-solver", "outcome %d of the linear solver (residual %g, tolerance %g) is reported as %d, expected %d", o, s->Residual(), tol, rc, want[o]);
    }
    void run() {
        { Loud l; NoFault nf; ctx = new Ctx((void*)nullptr); sol = new Solver(); }
        for (int k = 0; k < NV; ++k) { make(k, k % 3 == 2 ? 0 : k % 3, 0); fill(k, 0, (uint64_t)k); }
        for (int k = 0; k < NM; ++k) { mmake(k, k % 2, 0); mfill(k, (uint64_t)k); }
        LOUD(ls = SUNLinSolInmost(CTX(*ctx) sol)); if (!ls) violation("spurious-failure", "no linear solver");
        if (ls->ops->gettype(ls) != SUNLINEARSOLVER_MATRIX_ITERATIVE || ls->ops->getid(ls) != SUNLINEARSOLVER_CUSTOM) violation("content", "wrong kind of linear solver");
        for (auto& o : p.ops) {
            op_begin(o);
            if (o.kind == "make") { make((int)o.at(0), (int)o.at(1), (int)o.at(2)); if (!known[o.at(0)]) fill((int)o.at(0), (int)o.at(3), (uint64_t)o.id); check_all("construction"); }
            else if (o.kind == "mmake") { mmake((int)o.at(0), (int)o.at(1), (int)o.at(2)); check_all("construction"); }
            else if (o.kind == "fill") fill((int)o.at(0), (int)o.at(1), (uint64_t)o.at(2));
            else if (o.kind == "vec") vop(o);
            else if (o.kind == "mat") mop(o);
            else if (o.kind == "lin") lin(o);
            op_end();
        }
        for (int k = 0; k < NV; ++k) drop(k);
        for (int k = 0; k < NM; ++k) mdrop(k);
        { Loud l; SUNLinSolFree_Inmost(ls); delete sol; delete ctx; }
    }
};
void run_algebra(const Plan& p) {
    Quiet qq; set_poison((int)p.get("poison"), p.seed); int n = (int)p.get("ranks"); if (p.ops.size() > 3) nontrivial();
    { Loud l; NoFault nf; Ctx c((void*)nullptr); Vector* w; { w = new Vector("w", 0, 1, nullptr); N_Vector a = N_VNew_Inmost(CTX(c) w), b = N_VClone(a); N_VDestroy(b); N_VDestroy(a); delete w; } } // tables of the library
    uint64_t mark = alloc_mark();
    run_ranks(n, [&](int q) { Algebra al(p, q, n); al.run(); });
    size_t bytes = 0, left = live_since(mark, &bytes); if (left) violation("leak", "%zu blocks (%zu bytes) are left at the end", left, bytes);
}
void gen_algebra(Plan& p, Rng& r) {
    p.par["poison"] = r.below(8); long n = p.par["ranks"] = MAXRANKS == 1 ? 1 : r.chance(1, 3) ? 1 : r.in(2, MAXRANKS); p.par["N"] = n + r.below(7); p.par["cut"] = r.below(100000); bool faults = n == 1;
    for (long k = r.in(4, 24); k > 0; --k) {
        long w = r.below(12);
        if (w < 7) p.add(0, "vec", {r.below(32), r.below(NV), r.below(NV), r.below(NV), r.in(-4, 4), r.in(-4, 4), r.below(1000)});
        else if (w == 7) p.add(0, "fill", {r.below(NV), r.below(6), r.below(1000)});
        else if (w == 8) { Op& o = p.add(0, "make", {r.below(NV), r.below(4), r.below(NV), r.below(6)}); if (faults && r.chance(1, 2)) o.fail = (int)r.in(1, r.chance(1, 2) ? 6 : 60); }
        else if (w == 9) { Op& o = p.add(0, "mmake", {r.below(NM), r.below(3), r.below(NM)}); if (faults && r.chance(1, 2)) o.fail = (int)r.in(1, r.chance(1, 2) ? 6 : 60); }
        else if (w == 10) p.add(0, "mat", {r.below(6), r.below(NV), r.below(NV), r.below(1000)});
        else p.add(0, "lin", {r.below(2), r.below(NM), r.below(NV), r.below(NV), r.below(1000), r.below(6)});
    }
    gen_schedule(p, r, 2000);
}
Register reg_algebra(Scenario{"C26", "distributed-algebra", 1, gen_algebra, run_algebra});
} // namespace
double Timer() { return g_clock; }
#include "kinsol_solver.h"
