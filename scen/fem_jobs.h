// Catalogue of elemental computations (C06-C09): a job is one computation with its own inputs, outputs and callbacks,
// decoded from a vector of numbers; every vector of numbers is a valid job.
#ifndef VERIF_FEM_JOBS_H
#define VERIF_FEM_JOBS_H
#include "common.h"
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/operations/operations.h"
#include <array>
#include <map>
#include <set>
#include <string>

namespace fj {
using namespace Ani;
typedef unsigned int uint;
typedef unsigned char uchar;
struct Boom { int n; };
typedef std::vector<long> V;

// exact block with red zones
struct Buf {
    enum Kind { IN, OUT, INOUT };
    double* p = nullptr; size_t n = 0; Kind kind = IN; std::vector<double> init;
    Buf(size_t n, Kind k, const std::vector<double>& v = {});
    ~Buf();
    void reset(int mode, uint64_t seed);
    Buf(const Buf&) = delete;
};

enum Way { RAW = 0, SEP = 1, FROMD = 2, FROMI = 3, DYN = 4, STACK = 5, NWAYS = 6 };
// the workspace a computation works in
struct Work {
    int way = SEP;
    PlainMemoryX<> x;
    DynMem<>* dyn = nullptr;
    std::vector<void*> blocks;  // exact blocks owned by this workspace
    bool refused = false;       // the library said that the blocks are too small
    PlainMemory<> plain() const { PlainMemory<> p; p.ddata = x.ddata; p.idata = x.idata; p.dSize = x.dSize; p.iSize = x.iSize; return p; }
    Work() {}
    ~Work();
    Work(const Work&) = delete;
    // blocks of exactly the size the library reports for this way; `less`: short of so many units; `off`: start of the raw buffer
    void build(const PlainMemoryX<>& req, int way, long off = 0, long less = 0, int which = 0, bool plain_req = false);
    void fill(int mode, uint64_t seed);
};

// user callbacks
struct CB {
    uint64_t seed = 0; int f = 1; int level = 0; // 1: constant, 0: per point, -1: per cell, -2: per selection
    int types[4] = {4, 4, 4, 4}; int ntypes = 1; // tensor types to choose from
    void* ud = nullptr; bool wrong_ud = false;
    mutable long calls = 0; mutable uint64_t log = 0; bool noboom = false;
    mutable bool in_first = true; DynMem<>* scratch = nullptr; // pool the callback takes temporary memory from
    CB() {} CB(const CB&) = delete;
    void enter(void* got_ud) const;
    void note(uint64_t h) const;
    int type(const double* X, int iTet) const;
    double val(const double* X, size_t k) const;
};
struct OneCB { CB* cb; TensorType operator()(const std::array<double, 3>& X, double* D, TensorDims dims, void* ud, int iTet) const; };
struct FusCB { CB* cb; TensorType operator()(ArrayView<> X, ArrayView<> D, TensorDims dims, void* ud, const AniMemory<double, int>& mem) const; };
struct EvalCB { CB* cb; int operator()(const std::array<double, 3>& X, double* res, uint dim, void* ud) const; };
int eval_fn(const std::array<double, 3>& X, double* res, uint dim, void* ud); // ud is the CB

// shared read-only objects
struct Env {
    std::map<int, FemSpace*> sp;
    std::map<std::array<int, 3>, std::shared_ptr<ApplyOpBase>> op;
    FemSpace& space(int i);                       // created on demand
    ApplyOpBase& oper(int sp, int op, int kind);  // op 0..6 (IDEN GRAD DIV CURL DUDX DUDY DUDZ), kind 0 view, 1 own, 2 template
    ~Env();
};
FemSpace make_space(int i);
int nspaces();
OperatorType op_of(int k);
extern const int est_q[10];

struct Outcome {
    int kind = 0; // 0 ok, 1 Boom, 2 bad_alloc, 3 other exception
    std::string what; int val = 0;
    std::vector<uint64_t> bits;
    bool same(const Outcome& o) const { return kind == o.kind && (kind || bits == o.bits); }
    std::string str() const;
    std::string diff(const Outcome& o) const;
};

struct Job {
    V v; std::vector<std::unique_ptr<Buf>> bufs; CB cb; std::string name;
    bool constructive = false;       // creates its own objects (no workspace)
    virtual ~Job() {}
    virtual bool workspace() { return true; }
    virtual bool sized() { return true; }           // knows the size of the workspace it was given
    virtual bool plain_only() { return false; }     // takes PlainMemory
    virtual bool can(int way) { return way == STACK ? false : plain_only() ? way == SEP || way == RAW || way == DYN : true; }
    virtual PlainMemoryX<> req() { return PlainMemoryX<>(); }  // code under test
    virtual void exec(Work& w) = 0;                            // code under test
    virtual void extra(std::vector<uint64_t>&) {}              // further results
    virtual void check_objects(const char*) {}                 // shared and caller-owned objects are unchanged
    virtual void reset_descriptors() {}
    Buf* in(size_t n, uint64_t seed);
    Buf* out(size_t n) { bufs.emplace_back(new Buf(n, Buf::OUT)); return bufs.back().get(); }
    Buf* inout(size_t n, uint64_t seed);
    Buf* in_vals(const std::vector<double>& v) { bufs.emplace_back(new Buf(v.size(), Buf::IN, v)); return bufs.back().get(); }
    void reset(int mode, uint64_t seed);
    Outcome run(Work& w);            // Quiet context; executes exec under Loud
    PlainMemoryX<> ask();            // Quiet context
};
// the families
Job* make_job(const V& v, Env& env);
V gen_job(sim::Rng& r, int family = -1);
struct Desc { DenseMatrix<> m, m0; };

// run-time operators
struct RtArgs {
    int kind = 0; ApplyOpBase* U = nullptr; ApplyOpBase* V = nullptr; int order = 1, f = 1, num = 0; uint d1 = 1; void* ud = nullptr; CB* cb = nullptr;
    DenseMatrix<>* A = nullptr; const double* P[4] = {nullptr, nullptr, nullptr, nullptr}; ArrayView<> XYL, WG; ArrayView<const double> X; DenseMatrix<>* dofs = nullptr; int npts = 0;
};
struct RtFns { PlainMemoryX<> (*req)(const RtArgs&); void (*plain)(RtArgs&, PlainMemoryX<>); void (*dyn)(RtArgs&, DynMem<>&); };
extern const RtFns rt_fns[13];
// compile-time operators
struct StFns { const char* name; int nfu, nfv, dimu, dimv; PlainMemory<> (*req)(const RtArgs&); void (*plain)(RtArgs&, PlainMemory<>); void (*dyn)(RtArgs&, DynMem<>&); void (*stack)(RtArgs&); };
const std::vector<const StFns*>& st_table();
}
#endif
