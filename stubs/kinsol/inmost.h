// Stand-in for the part of INMOST that anifem++/kinsol_interface uses: distributed vectors and matrices, a direct linear
// solver whose outcome the scenario can script, and MPI reductions between ranks that are simulated tasks.
#ifndef VERIF_STUB_INMOST_KIN_H
#define VERIF_STUB_INMOST_KIN_H
#include <algorithm>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>
typedef unsigned INMOST_DATA_ENUM_TYPE;
typedef double INMOST_DATA_REAL_TYPE;
double Timer(); // defined by the scenario: simulated clock of the rank
// Ranks take turns: each one holds the lock of the communicator while it runs and gives it away in collective operations only
struct SimComm {
    std::mutex m; std::condition_variable cv; int n = 1, arrived = 0; long gen = 0; std::string kind; long calls = 0;
    std::vector<void*> slot;
    explicit SimComm(int n_) : n(n_), slot((size_t)n_) {}
    static SimComm*& mine() { static thread_local SimComm* c = nullptr; return c; }
    static int& rank() { static thread_local int r = 0; return r; }
    static std::unique_lock<std::mutex>*& lock() { static thread_local std::unique_lock<std::mutex>* l = nullptr; return l; }
    template <class F> void collective(const char* k, void* data, F op) {
        if (n == 1) { slot[0] = data; op(slot); return; }
        assert((!arrived || kind == k) && "ranks are in different collective operations");
        kind = k; slot[(size_t)rank()] = data;
        if (++arrived == n) { op(slot); arrived = 0; ++gen; ++calls; cv.notify_all(); return; }
        long g = gen; while (gen == g) cv.wait(*lock());
    }
};
typedef SimComm* INMOST_MPI_Comm;
#define INMOST_MPI_COMM_WORLD (SimComm::mine())
#ifdef USE_MPI
typedef SimComm* MPI_Comm;
#define MPI_COMM_WORLD (SimComm::mine())
enum { MPI_SUCCESS = 0 };
enum MPI_Op { MPI_SUM, MPI_MIN, MPI_MAX };
enum MPI_Datatype { MPI_DOUBLE, MPI_INT, MPI_CHAR, MPI_LONG };
#define MPI_IN_PLACE ((void*)1)
inline int MPI_Comm_size(MPI_Comm c, int* n) { *n = c->n; return MPI_SUCCESS; }
inline int MPI_Comm_rank(MPI_Comm c, int* r) { (void)c; *r = SimComm::rank(); return MPI_SUCCESS; }
struct SimReduce { const void* in; void* out; };
template <class T> void sim_reduce(std::vector<void*>& s, int n, MPI_Op op) {
    T r[16] = {}; assert(n <= 16); // (MPI does not run out of memory here)
    for (int k = 0; k < n; ++k) for (size_t q = 0; q < s.size(); ++q) {
        T v = static_cast<const T*>(static_cast<SimReduce*>(s[q])->in)[k];
        T& t = r[k]; if (!q) t = v; else t = op == MPI_SUM ? (T)(t + v) : op == MPI_MIN ? std::min(t, v) : std::max(t, v);
    }
    for (auto p : s) for (int k = 0; k < n; ++k) static_cast<T*>(static_cast<SimReduce*>(p)->out)[k] = r[k];
}
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    char k[64]; snprintf(k, sizeof k, "reduce %d %d %d", n, (int)t, (int)op);
    SimReduce r{in == MPI_IN_PLACE ? out : in, out};
    assert(c && c == SimComm::mine() && "not the communicator of the data");
    c->collective(k, &r, [&](std::vector<void*>& s) {
        switch (t) { case MPI_DOUBLE: sim_reduce<double>(s, n, op); break; case MPI_INT: sim_reduce<int>(s, n, op); break; case MPI_LONG: sim_reduce<long>(s, n, op); break; case MPI_CHAR: sim_reduce<signed char>(s, n, op); break; } });
    return MPI_SUCCESS;
}
#endif
namespace INMOST {
namespace Sparse {
class Row {
public:
    struct entry { INMOST_DATA_ENUM_TYPE first; INMOST_DATA_REAL_TYPE second; };
    std::vector<entry> e;
    typedef std::vector<entry>::iterator iterator; typedef std::vector<entry>::const_iterator const_iterator;
    iterator Begin() { return e.begin(); } iterator End() { return e.end(); }
    const_iterator Begin() const { return e.begin(); } const_iterator End() const { return e.end(); }
    INMOST_DATA_ENUM_TYPE Size() const { return (INMOST_DATA_ENUM_TYPE)e.size(); }
    INMOST_DATA_ENUM_TYPE GetIndex(INMOST_DATA_ENUM_TYPE k) const { assert(k < e.size()); return e[k].first; }
    INMOST_DATA_REAL_TYPE& GetValue(INMOST_DATA_ENUM_TYPE k) { assert(k < e.size()); return e[k].second; }
    INMOST_DATA_REAL_TYPE& operator[](INMOST_DATA_ENUM_TYPE i) { for (auto& x : e) if (x.first == i) return x.second; e.push_back(entry{i, 0}); return e.back().second; }
    INMOST_DATA_REAL_TYPE get_safe(INMOST_DATA_ENUM_TYPE i) const { for (auto& x : e) if (x.first == i) return x.second; return 0; }
    void Clear() { e.clear(); }
};
template <class T> class Interval {
protected: std::string name; INMOST_MPI_Comm comm; INMOST_DATA_ENUM_TYPE b = 0; std::vector<T> d;
public:
    typedef typename std::vector<T>::iterator iterator; typedef typename std::vector<T>::const_iterator const_iterator;
    Interval(std::string n = "", INMOST_DATA_ENUM_TYPE beg = 0, INMOST_DATA_ENUM_TYPE end = 0, INMOST_MPI_Comm c = INMOST_MPI_COMM_WORLD) : name(n), comm(c), b(beg), d(end - beg) { assert(end >= beg); }
    void SetInterval(INMOST_DATA_ENUM_TYPE beg, INMOST_DATA_ENUM_TYPE end) {
        assert(beg <= end); std::vector<T> n(end - beg);
        for (INMOST_DATA_ENUM_TYPE i = std::max(beg, b); i < std::min(end, b + (INMOST_DATA_ENUM_TYPE)d.size()); ++i) std::swap(n[i - beg], d[i - b]);
        d.swap(n); b = beg;
    }
    void GetInterval(INMOST_DATA_ENUM_TYPE& beg, INMOST_DATA_ENUM_TYPE& end) const { beg = GetFirstIndex(); end = GetLastIndex(); }
    INMOST_DATA_ENUM_TYPE GetFirstIndex() const { return b; }
    INMOST_DATA_ENUM_TYPE GetLastIndex() const { return b + (INMOST_DATA_ENUM_TYPE)d.size(); }
    INMOST_DATA_ENUM_TYPE Size() const { return (INMOST_DATA_ENUM_TYPE)d.size(); }
    bool Empty() const { return d.empty(); }
    T& operator[](INMOST_DATA_ENUM_TYPE i) { assert(i >= b && i - b < d.size() && "index outside of the interval"); return d[i - b]; }
    const T& operator[](INMOST_DATA_ENUM_TYPE i) const { assert(i >= b && i - b < d.size() && "index outside of the interval"); return d[i - b]; }
    iterator Begin() { return d.begin(); } iterator End() { return d.end(); }
    const_iterator Begin() const { return d.begin(); } const_iterator End() const { return d.end(); }
    std::string GetName() const { return name; }
    INMOST_MPI_Comm GetCommunicator() const { return comm; }
};
class Vector : public Interval<INMOST_DATA_REAL_TYPE> { public: using Interval::Interval; };
class Matrix : public Interval<Row> {
public:
    bool sim_prepared = false; // rows of other ranks are attached (OrderInfo)
    using Interval::Interval;
    int Nonzeros() const { size_t n = 0; for (auto& r : d) n += r.e.size(); return (int)n; }
    void MatVec(INMOST_DATA_REAL_TYPE alpha, const Vector& x, INMOST_DATA_REAL_TYPE beta, Vector& y) const {
        for (INMOST_DATA_ENUM_TYPE i = GetFirstIndex(); i < GetLastIndex(); ++i) { double s = 0; for (auto& e : (*this)[i].e) s += e.second * x[e.first]; y[i] = beta == 0 ? alpha * s : beta * y[i] + alpha * s; }
    }
};
inline std::vector<double>::iterator begin(Vector& v) { return v.Begin(); }
inline std::vector<double>::iterator end(Vector& v) { return v.End(); }
inline std::vector<Row>::iterator begin(Matrix& v) { return v.Begin(); }
inline std::vector<Row>::iterator end(Matrix& v) { return v.End(); }
}
// gathers the vector or matrix of all ranks
inline std::vector<double> sim_gather(Sparse::Vector& v, INMOST_DATA_ENUM_TYPE* first = nullptr) {
    struct Arg { Sparse::Vector* v; std::vector<double>* out; }; std::vector<double> r; Arg a{&v, &r}; (void)first;
    v.GetCommunicator()->collective("gather vector", &a, [](std::vector<void*>& s) {
        std::vector<double> all; for (auto p : s) for (double x : *static_cast<Arg*>(p)->v) all.push_back(x);
        for (auto p : s) *static_cast<Arg*>(p)->out = all; });
    return r;
}
class Solver {
    typedef std::vector<std::map<INMOST_DATA_ENUM_TYPE, double>> Rows;
    Rows a; long it = 0; double res = 0; bool have = false;
public:
    // filled by the scenario: outcome of the next solutions, 0 when the list is used up
    std::vector<int> script; size_t used = 0; double tol = -1; long nset = 0, nsolve = 0; const void* matrix = nullptr; bool modified = false, old_prec = false;
    std::vector<int> codes; // expected by the scenario: outcome of each solution (see Solve)
    void SetMatrix(Sparse::Matrix& A, bool ModifiedPattern = true, bool OldPreconditioner = false) {
        struct Arg { Sparse::Matrix* m; Rows* out; }; Rows r; Arg g{&A, &r}; matrix = &A; modified = ModifiedPattern; old_prec = OldPreconditioner; ++nset; have = true;
        A.GetCommunicator()->collective("gather matrix", &g, [](std::vector<void*>& s) {
            Rows all; for (auto p : s) for (auto& row : *static_cast<Arg*>(p)->m) { all.emplace_back(); for (auto& e : row.e) all.back()[e.first] += e.second; }
            for (auto p : s) *static_cast<Arg*>(p)->out = all; });
        a = r;
    }
    bool SetParameterReal(std::string n, double v) { if (n == "absolute_tolerance") { tol = v; return true; } return false; }
    // outcome: 0 solved; 1 fails, the residual is smaller; 2 fails, the residual is larger; 3 "solved", but above the tolerance; 4 "solved", but the residual is larger;
    // 5 fails, although the tolerance is achieved
    bool Solve(Sparse::Vector& rhs, Sparse::Vector& sol) {
        assert(have && "no matrix is set"); ++nsolve;
        int o = used < script.size() ? script[used++] : 0;
        std::vector<double> b = sim_gather(rhs); size_t n = b.size(); assert(a.size() == n); double nb = 0; for (double x : b) nb += x * x; nb = std::sqrt(nb);
        std::vector<std::vector<double>> m(n, std::vector<double>(n)); for (size_t i = 0; i < n; ++i) for (auto& e : a[i]) { assert(e.first < n); m[i][e.first] = e.second; }
        for (size_t k = 0; k < n; ++k) {
            size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i;
            if (m[p][k] == 0) { o = 2; break; }
            std::swap(m[p], m[k]); std::swap(b[p], b[k]);
            for (size_t i = k + 1; i < n; ++i) { double f = m[i][k] / m[k][k]; if (f != 0) { for (size_t j = k; j < n; ++j) m[i][j] -= f * m[k][j]; b[i] -= f * b[k]; } }
        }
        if (o != 2 && o != 4) for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= m[k][j] * b[j]; b[k] /= m[k][k]; }
        double part = o == 1 || o == 3 ? 0.5 : o == 2 || o == 4 ? 0 : 1;
        for (INMOST_DATA_ENUM_TYPE i = sol.GetFirstIndex(); i < sol.GetLastIndex(); ++i) sol[i] = part ? part * b[i] : 0;
        it = 3 + (long)nsolve; res = o == 0 || o == 5 ? 0 : o == 1 || o == 3 ? std::max(0.5 * nb, 2 * tol) : 2 * nb + 2 * tol;
        if ((o == 1 || o == 3) && res > nb) o = o == 1 ? 2 : 4;
        codes.push_back(o);
        return o == 0 || o == 3 || o == 4;
    }
    double Residual() const { return res; }
    long Iterations() const { return it; }
    double IterationsTime() const { return 0; }
    double PreconditionerTime() const { return 0; }
    std::string GetReason() const { return "scripted"; }
    struct OrderInfo {
        INMOST_DATA_ENUM_TYPE b = 0, e = 0; bool pm = false, pv = false; int overlap = -1;
        void PrepareMatrix(Sparse::Matrix& m, int ov) { assert(!m.sim_prepared && "the matrix is prepared already"); m.sim_prepared = true; pm = true; overlap = ov; }
        void PrepareVector(Sparse::Vector& v) {
            assert(pm); v.GetInterval(b, e); pv = true; std::vector<double> all = sim_gather(v); v.SetInterval(0, (INMOST_DATA_ENUM_TYPE)all.size());
            for (INMOST_DATA_ENUM_TYPE i = 0; i < all.size(); ++i) if (i < b || i >= e) v[i] = std::nan("");
        }
        void Update(Sparse::Vector& v) {
            assert(pv); Sparse::Vector own("own", b, e, v.GetCommunicator()); for (INMOST_DATA_ENUM_TYPE i = b; i < e; ++i) own[i] = v[i];
            std::vector<double> all = sim_gather(own); for (INMOST_DATA_ENUM_TYPE i = 0; i < all.size(); ++i) v[i] = all[i];
        }
        void RestoreVector(Sparse::Vector& v) { assert(pv); v.SetInterval(b, e); }
        void RestoreMatrix(Sparse::Matrix& m) { assert(pm && m.sim_prepared); pm = m.sim_prepared = false; }
    };
};
}
#endif
