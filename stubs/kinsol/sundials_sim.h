// Stand-in for SUNDIALS (KINSOL), which is not installed: generic vectors, matrices and linear solvers with their tables of
// operations, and a small globalised Newton and Picard solver behind the interface of KINSOL. It reports like KINSOL does
// (codes, messages), works only through the tables of operations and keeps what it was given, as KINSOL does.
#ifndef VERIF_STUB_SUNDIALS_H
#define VERIF_STUB_SUNDIALS_H
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
typedef double realtype; typedef long sunindextype; typedef int booleantype;
#define SUNTRUE 1
#define SUNFALSE 0
#define RCONST(x) x
#define BIG_REAL DBL_MAX
#define UNIT_ROUNDOFF DBL_EPSILON
#if SUNDIALS_VERSION_MAJOR >= 6
struct _SUNContext { void* comm; };
typedef _SUNContext* SUNContext;
namespace sundials {
class Context {
    std::unique_ptr<SUNContext> c;
public:
    explicit Context(void* comm = nullptr) : c(new SUNContext) { *c = (SUNContext)malloc(sizeof(_SUNContext)); if (!*c) throw std::bad_alloc(); (*c)->comm = comm; }
    Context(const Context&) = delete; Context(Context&&) = default; Context& operator=(const Context&) = delete;
    Context& operator=(Context&& o) { if (this != &o) { if (c) free(*c); c = std::move(o.c); } return *this; }
    operator SUNContext() { return *c; }
    ~Context() { if (c) free(*c); }
};
}
#define SIM_CTX SUNContext ctx
#define SIM_CTX_ , SUNContext ctx
#else
#define SIM_CTX
#define SIM_CTX_
#endif
// ---- vectors
enum N_Vector_ID { SUNDIALS_NVEC_SERIAL, SUNDIALS_NVEC_CUSTOM };
struct _generic_N_Vector_Ops; typedef _generic_N_Vector_Ops* N_Vector_Ops;
struct _generic_N_Vector { void* content; N_Vector_Ops ops;
#if SUNDIALS_VERSION_MAJOR >= 6
    SUNContext sunctx;
#endif
};
typedef _generic_N_Vector* N_Vector;
struct _generic_N_Vector_Ops {
    N_Vector_ID (*nvgetvectorid)(N_Vector); N_Vector (*nvclone)(N_Vector); N_Vector (*nvcloneempty)(N_Vector); void (*nvdestroy)(N_Vector);
    void (*nvspace)(N_Vector, sunindextype*, sunindextype*); realtype* (*nvgetarraypointer)(N_Vector); void (*nvsetarraypointer)(realtype*, N_Vector);
    void* (*nvgetcommunicator)(N_Vector); sunindextype (*nvgetlength)(N_Vector);
    void (*nvlinearsum)(realtype, N_Vector, realtype, N_Vector, N_Vector); void (*nvconst)(realtype, N_Vector); void (*nvprod)(N_Vector, N_Vector, N_Vector); void (*nvdiv)(N_Vector, N_Vector, N_Vector);
    void (*nvscale)(realtype, N_Vector, N_Vector); void (*nvabs)(N_Vector, N_Vector); void (*nvinv)(N_Vector, N_Vector); void (*nvaddconst)(N_Vector, realtype, N_Vector);
    realtype (*nvdotprod)(N_Vector, N_Vector); realtype (*nvmaxnorm)(N_Vector); realtype (*nvwrmsnorm)(N_Vector, N_Vector); realtype (*nvwrmsnormmask)(N_Vector, N_Vector, N_Vector); realtype (*nvmin)(N_Vector);
    realtype (*nvwl2norm)(N_Vector, N_Vector); realtype (*nvl1norm)(N_Vector); void (*nvcompare)(realtype, N_Vector, N_Vector); booleantype (*nvinvtest)(N_Vector, N_Vector);
    booleantype (*nvconstrmask)(N_Vector, N_Vector, N_Vector); realtype (*nvminquotient)(N_Vector, N_Vector);
    int (*nvlinearcombination)(int, realtype*, N_Vector*, N_Vector); int (*nvscaleaddmulti)(int, realtype*, N_Vector, N_Vector*, N_Vector*); int (*nvdotprodmulti)(int, N_Vector, N_Vector*, realtype*);
    realtype (*nvdotprodlocal)(N_Vector, N_Vector); realtype (*nvmaxnormlocal)(N_Vector); realtype (*nvminlocal)(N_Vector); realtype (*nvl1normlocal)(N_Vector); booleantype (*nvinvtestlocal)(N_Vector, N_Vector);
    booleantype (*nvconstrmasklocal)(N_Vector, N_Vector, N_Vector); realtype (*nvminquotientlocal)(N_Vector, N_Vector); realtype (*nvwsqrsumlocal)(N_Vector, N_Vector); realtype (*nvwsqrsummasklocal)(N_Vector, N_Vector, N_Vector);
    void (*nvprint)(N_Vector); void (*nvprintfile)(N_Vector, void*);
};
inline void N_VFreeEmpty(N_Vector v) { if (!v) return; if (v->ops) free(v->ops); v->ops = NULL; free(v); }
inline N_Vector N_VNewEmpty(SIM_CTX) {
#if SUNDIALS_VERSION_MAJOR >= 6
    if (!ctx) return NULL;
#endif
    N_Vector v = (N_Vector)malloc(sizeof *v); if (!v) return NULL;
    N_Vector_Ops ops = (N_Vector_Ops)malloc(sizeof *ops); if (!ops) { free(v); return NULL; }
    memset(ops, 0, sizeof *ops); v->ops = ops; v->content = NULL;
#if SUNDIALS_VERSION_MAJOR >= 6
    v->sunctx = ctx;
#endif
    return v;
}
inline int N_VCopyOps(N_Vector w, N_Vector v) { if (!w || !v || !w->ops || !v->ops) return -1; *v->ops = *w->ops; return 0; }
inline N_Vector N_VClone(N_Vector w) { return w->ops->nvclone(w); }
inline void N_VDestroy(N_Vector v) { if (!v) return; if (v->ops && v->ops->nvdestroy) { v->ops->nvdestroy(v); return; } if (v->content) free(v->content); N_VFreeEmpty(v); }
// ---- matrices
enum SUNMatrix_ID { SUNMATRIX_DENSE, SUNMATRIX_CUSTOM };
struct _generic_SUNMatrix_Ops; typedef _generic_SUNMatrix_Ops* SUNMatrix_Ops;
struct _generic_SUNMatrix { void* content; SUNMatrix_Ops ops;
#if SUNDIALS_VERSION_MAJOR >= 6
    SUNContext sunctx;
#endif
};
typedef _generic_SUNMatrix* SUNMatrix;
struct _generic_SUNMatrix_Ops { SUNMatrix_ID (*getid)(SUNMatrix); SUNMatrix (*clone)(SUNMatrix); void (*destroy)(SUNMatrix); int (*zero)(SUNMatrix); int (*copy)(SUNMatrix, SUNMatrix); int (*scaleadd)(realtype, SUNMatrix, SUNMatrix);
    int (*scaleaddi)(realtype, SUNMatrix); int (*matvec)(SUNMatrix, N_Vector, N_Vector); int (*space)(SUNMatrix, long*, long*); };
enum { SUNMAT_SUCCESS = 0, SUNMAT_ILL_INPUT = -701, SUNMAT_MEM_FAIL = -702, SUNMAT_OPERATION_FAIL = -703 };
inline void SUNMatFreeEmpty(SUNMatrix A) { if (!A) return; if (A->ops) free(A->ops); A->ops = NULL; free(A); }
inline SUNMatrix SUNMatNewEmpty(SIM_CTX) {
#if SUNDIALS_VERSION_MAJOR >= 6
    if (!ctx) return NULL;
#endif
    SUNMatrix v = (SUNMatrix)malloc(sizeof *v); if (!v) return NULL;
    SUNMatrix_Ops ops = (SUNMatrix_Ops)malloc(sizeof *ops); if (!ops) { free(v); return NULL; }
    memset(ops, 0, sizeof *ops); v->ops = ops; v->content = NULL;
#if SUNDIALS_VERSION_MAJOR >= 6
    v->sunctx = ctx;
#endif
    return v;
}
inline int SUNMatCopyOps(SUNMatrix w, SUNMatrix v) { if (!w || !v || !w->ops || !v->ops) return -1; *v->ops = *w->ops; return 0; }
// ---- linear solvers
enum SUNLinearSolver_Type { SUNLINEARSOLVER_DIRECT, SUNLINEARSOLVER_ITERATIVE, SUNLINEARSOLVER_MATRIX_ITERATIVE, SUNLINEARSOLVER_MATRIX_EMBEDDED };
enum SUNLinearSolver_ID { SUNLINEARSOLVER_BAND, SUNLINEARSOLVER_CUSTOM };
struct _generic_SUNLinearSolver_Ops; typedef _generic_SUNLinearSolver_Ops* SUNLinearSolver_Ops;
struct _generic_SUNLinearSolver { void* content; SUNLinearSolver_Ops ops;
#if SUNDIALS_VERSION_MAJOR >= 6
    SUNContext sunctx;
#endif
};
typedef _generic_SUNLinearSolver* SUNLinearSolver;
struct _generic_SUNLinearSolver_Ops { SUNLinearSolver_Type (*gettype)(SUNLinearSolver); SUNLinearSolver_ID (*getid)(SUNLinearSolver); int (*initialize)(SUNLinearSolver); int (*setup)(SUNLinearSolver, SUNMatrix);
    int (*solve)(SUNLinearSolver, SUNMatrix, N_Vector, N_Vector, realtype); int (*numiters)(SUNLinearSolver); realtype (*resnorm)(SUNLinearSolver); int (*free)(SUNLinearSolver); };
enum { SUNLS_SUCCESS = 0, SUNLS_MEM_NULL = -801, SUNLS_ILL_INPUT = -802, SUNLS_MEM_FAIL = -803, SUNLS_PACKAGE_FAIL_UNREC = -806, SUNLS_RES_REDUCED = 801, SUNLS_CONV_FAIL = 802 };
inline void SUNLinSolFreeEmpty(SUNLinearSolver A) { if (!A) return; if (A->ops) free(A->ops); A->ops = NULL; free(A); }
inline SUNLinearSolver SUNLinSolNewEmpty(SIM_CTX) {
#if SUNDIALS_VERSION_MAJOR >= 6
    if (!ctx) return NULL;
#endif
    SUNLinearSolver v = (SUNLinearSolver)malloc(sizeof *v); if (!v) return NULL;
    SUNLinearSolver_Ops ops = (SUNLinearSolver_Ops)malloc(sizeof *ops); if (!ops) { free(v); return NULL; }
    memset(ops, 0, sizeof *ops); v->ops = ops; v->content = NULL;
#if SUNDIALS_VERSION_MAJOR >= 6
    v->sunctx = ctx;
#endif
    return v;
}
// ---- KINSOL
enum { KIN_SUCCESS = 0, KIN_INITIAL_GUESS_OK = 1, KIN_STEP_LT_STPTOL = 2, KIN_WARNING = 99, KIN_MEM_NULL = -1, KIN_ILL_INPUT = -2, KIN_NO_MALLOC = -3, KIN_MEM_FAIL = -4, KIN_LINESEARCH_NONCONV = -5, KIN_MAXITER_REACHED = -6,
    KIN_MXNEWT_5X_EXCEEDED = -7, KIN_LINESEARCH_BCFAIL = -8, KIN_LINSOLV_NO_RECOVERY = -9, KIN_LINIT_FAIL = -10, KIN_LSETUP_FAIL = -11, KIN_LSOLVE_FAIL = -12, KIN_SYSFUNC_FAIL = -13, KIN_FIRST_SYSFUNC_ERR = -14,
    KIN_REPTD_SYSFUNC_ERR = -15, KIN_VECTOROP_ERR = -16, KIN_CONTEXT_ERR = -17 };
enum { KIN_ETACHOICE1 = 1, KIN_ETACHOICE2 = 2, KIN_ETACONSTANT = 3 };
enum { KIN_NONE = 0, KIN_LINESEARCH = 1, KIN_PICARD = 2, KIN_FP = 3 };
enum { KINLS_SUCCESS = 0, KINLS_MEM_NULL = -1, KINLS_LMEM_NULL = -2, KINLS_ILL_INPUT = -3, KINLS_MEM_FAIL = -4 };
typedef int (*KINSysFn)(N_Vector, N_Vector, void*);
typedef int (*KINLsJacFn)(N_Vector, N_Vector, SUNMatrix, void*, N_Vector, N_Vector);
typedef void (*KINErrHandlerFn)(int, const char*, const char*, char*, void*);
typedef void (*KINInfoHandlerFn)(const char*, const char*, char*, void*);
struct SimKin; // what the scenario observes and decides
struct KinWatch { // one per rank, set by the scenario
    int force = 0; const char* force_fn = nullptr;       // the next call of that function returns this code
    int flag = 0; long solved = 0; // what KINSol returned, how often it was called
    void (*before_f)(SimKin*, N_Vector u, N_Vector f) = nullptr; void (*after_f)(SimKin*, N_Vector u, N_Vector f, int ret) = nullptr;
    void (*before_j)(SimKin*, N_Vector u, SUNMatrix J) = nullptr; void (*after_j)(SimKin*, N_Vector u, SUNMatrix J, int ret) = nullptr;
    void (*after_ls)(SimKin*, SUNLinearSolver, int ret, double tol) = nullptr;
    void (*message)(SimKin*, bool error, int code, const char* fn, const char* msg) = nullptr; // before the handler is called
    static KinWatch*& mine() { static thread_local KinWatch* w = nullptr; return w; }
};
struct SimKin {
    KINSysFn func; void* user; N_Vector unew, fval, pp, vt1, vt2, constraints; bool malloc_done, ls_set; SUNLinearSolver LS; SUNMatrix J; KINLsJacFn jac;
    KINErrHandlerFn eh; void* eh_data; KINInfoHandlerFn ih; void* ih_data; int print;
    long mxiter, msbset, msbset_sub; bool no_init_setup, no_res_mon, no_min_eps; int eta_choice; double eta, egamma, ealpha, omega, wmin, wmax, mxnewt, fnormtol, scsteptol, beta; long mxnbcf, maa;
    long nfe, nni, nje, nli, ncfl, nbktrk; double fnorm, stepl; long last_flag;
};
inline bool sim_forced(const char* fn, int* code) { KinWatch* w = KinWatch::mine(); if (w && w->force_fn && !strcmp(w->force_fn, fn)) { *code = w->force; w->force_fn = nullptr; return true; } return false; }
inline int sim_error(SimKin* k, int code, const char* fn, const char* m) {
    if (k && k->eh) { char msg[128]; snprintf(msg, sizeof msg, "%s", m); if (KinWatch::mine() && KinWatch::mine()->message) KinWatch::mine()->message(k, true, code, fn, msg); k->eh(code, "KINSOL", fn, msg, k->eh_data); }
    return code;
}
inline void sim_info(SimKin* k, const char* fn, const char* m) {
    if (k->ih && k->print > 0) { char msg[128]; snprintf(msg, sizeof msg, "%s", m); if (KinWatch::mine() && KinWatch::mine()->message) KinWatch::mine()->message(k, false, 0, fn, msg); k->ih("KINSOL", fn, msg, k->ih_data); }
}
#define SIM_K(FN) SimKin* k = static_cast<SimKin*>(mem); if (!k) return KIN_MEM_NULL; { int c__; if (sim_forced(FN, &c__)) return sim_error(k, c__, FN, "forced failure"); }
inline void* KINCreate(SIM_CTX) {
#if SUNDIALS_VERSION_MAJOR >= 6
    if (!ctx) return NULL;
#endif
    int c; if (sim_forced("KINCreate", &c)) return NULL;
    SimKin* k = (SimKin*)malloc(sizeof *k); if (!k) return NULL;
    memset(k, 0, sizeof *k); k->mxiter = 200; k->msbset = 10; k->msbset_sub = 5; k->eta_choice = 1; k->eta = 0.1; k->egamma = 0.9; k->ealpha = 2; k->omega = 0.9; k->wmin = 1e-5; k->wmax = 0.9; k->mxnbcf = 10; k->beta = 1;
    k->fnormtol = std::cbrt(UNIT_ROUNDOFF); k->scsteptol = std::pow(UNIT_ROUNDOFF, 2. / 3); return k;
}
inline void sim_free_vectors(SimKin* k) { N_Vector* v[] = {&k->unew, &k->fval, &k->pp, &k->vt1, &k->vt2, &k->constraints}; for (auto p : v) if (*p) { N_VDestroy(*p); *p = NULL; } }
inline void KINFree(void** mem) { if (!*mem) return; SimKin* k = static_cast<SimKin*>(*mem); sim_free_vectors(k); free(k); *mem = NULL; }
inline int KINInit(void* mem, KINSysFn f, N_Vector tmpl) {
    SIM_K("KINInit");
    if (!f || !tmpl || !tmpl->ops->nvclone || !tmpl->ops->nvdestroy || !tmpl->ops->nvlinearsum || !tmpl->ops->nvprod || !tmpl->ops->nvdiv || !tmpl->ops->nvscale || !tmpl->ops->nvabs || !tmpl->ops->nvinv || !tmpl->ops->nvmaxnorm || !tmpl->ops->nvmin || !tmpl->ops->nvwl2norm)
        return sim_error(k, KIN_ILL_INPUT, "KINInit", "a required argument or operation is missing");
    N_Vector* v[] = {&k->unew, &k->fval, &k->pp, &k->vt1, &k->vt2};
    for (auto p : v) if (!*p && !(*p = N_VClone(tmpl))) { for (auto q : v) if (*q) { N_VDestroy(*q); *q = NULL; } k->malloc_done = false; return sim_error(k, KIN_MEM_FAIL, "KINInit", "A memory request failed."); }
    k->func = f; k->malloc_done = true; return KIN_SUCCESS;
}
inline int KINSetLinearSolver(void* mem, SUNLinearSolver LS, SUNMatrix A) {
    SimKin* k = static_cast<SimKin*>(mem); if (!k) return KINLS_MEM_NULL; int c; if (sim_forced("KINSetLinearSolver", &c)) return sim_error(k, c, "KINSetLinearSolver", "forced failure");
    if (!LS || !LS->ops->gettype || !LS->ops->solve || !k->vt1) return sim_error(k, KINLS_ILL_INPUT, "KINSetLinearSolver", "a required argument or operation is missing");
    if (LS->ops->gettype(LS) != SUNLINEARSOLVER_ITERATIVE && !A) return sim_error(k, KINLS_ILL_INPUT, "KINSetLinearSolver", "the linear solver requires a matrix");
    k->LS = LS; k->J = A; k->ls_set = true; k->jac = NULL; return KINLS_SUCCESS;
}
inline int KINSetJacFn(void* mem, KINLsJacFn j) { SimKin* k = static_cast<SimKin*>(mem); if (!k) return KINLS_MEM_NULL; int c; if (sim_forced("KINSetJacFn", &c)) return sim_error(k, c, "KINSetJacFn", "forced failure"); if (!k->ls_set) return sim_error(k, KINLS_LMEM_NULL, "KINSetJacFn", "Linear solver memory is NULL."); k->jac = j; return KINLS_SUCCESS; }
inline int KINSetUserData(void* mem, void* u) { SIM_K("KINSetUserData"); k->user = u; return 0; }
inline int KINSetErrHandlerFn(void* mem, KINErrHandlerFn f, void* d) { SIM_K("KINSetErrHandlerFn"); k->eh = f; k->eh_data = d; return 0; }
inline int KINSetInfoHandlerFn(void* mem, KINInfoHandlerFn f, void* d) { SIM_K("KINSetInfoHandlerFn"); k->ih = f; k->ih_data = d; return 0; }
inline int KINSetPrintLevel(void* mem, int l) { SIM_K("KINSetPrintLevel"); if (l < 0 || l > 3) return sim_error(k, KIN_ILL_INPUT, "KINSetPrintLevel", "Illegal value for printfl."); k->print = l; return 0; }
#define SIM_SET(NAME, T, FIELD, BAD, VALUE) inline int NAME(void* mem, T v) { SIM_K(#NAME); if (BAD) return sim_error(k, KIN_ILL_INPUT, #NAME, "illegal value"); k->FIELD = VALUE; return 0; }
SIM_SET(KINSetNumMaxIters, long, mxiter, v < 0, v ? v : 200)
SIM_SET(KINSetNoInitSetup, booleantype, no_init_setup, false, v != 0)
SIM_SET(KINSetNoResMon, booleantype, no_res_mon, false, v != 0)
SIM_SET(KINSetMaxSetupCalls, long, msbset, v < 0, v ? v : 10)
SIM_SET(KINSetMaxSubSetupCalls, long, msbset_sub, v < 0, v ? v : 5)
SIM_SET(KINSetEtaForm, int, eta_choice, v < 1 || v > 3, v)
SIM_SET(KINSetEtaConstValue, realtype, eta, v < 0 || v > 1, v ? v : 0.1)
SIM_SET(KINSetResMonConstValue, realtype, omega, v < 0, v)
SIM_SET(KINSetNoMinEps, booleantype, no_min_eps, false, v != 0)
SIM_SET(KINSetMaxNewtonStep, realtype, mxnewt, v < 0, v)
SIM_SET(KINSetMaxBetaFails, long, mxnbcf, v < 0, v ? v : 10)
SIM_SET(KINSetFuncNormTol, realtype, fnormtol, v < 0, v ? v : std::cbrt(UNIT_ROUNDOFF))
SIM_SET(KINSetScaledStepTol, realtype, scsteptol, v < 0, v ? v : std::pow(UNIT_ROUNDOFF, 2. / 3))
SIM_SET(KINSetMAA, long, maa, v < 0, v)
SIM_SET(KINSetDampingAA, realtype, beta, v <= 0 || v > 1, v)
inline int KINSetEtaParams(void* mem, realtype g, realtype a) { SIM_K("KINSetEtaParams"); if (g < 0 || g > 1 || (a != 0 && (a <= 1 || a > 2))) return sim_error(k, KIN_ILL_INPUT, "KINSetEtaParams", "illegal value"); k->egamma = g ? g : 0.9; k->ealpha = a ? a : 2; return 0; }
inline int KINSetResMonParams(void* mem, realtype lo, realtype hi) { SIM_K("KINSetResMonParams"); if (lo < 0 || hi < 0 || (lo > 0 && hi > 0 && lo > hi)) return sim_error(k, KIN_ILL_INPUT, "KINSetResMonParams", "illegal value"); k->wmin = lo ? lo : 1e-5; k->wmax = hi ? hi : 0.9; return 0; }
inline int KINSetConstraints(void* mem, N_Vector c) {
    SIM_K("KINSetConstraints");
    if (!c) { if (k->constraints) N_VDestroy(k->constraints); k->constraints = NULL; return 0; }
    realtype m = c->ops->nvmaxnorm(c); if (m > 2.5 || m < 0) return sim_error(k, KIN_ILL_INPUT, "KINSetConstraints", "Illegal values in constraints vector.");
    if (!k->constraints && !(k->constraints = N_VClone(c))) return sim_error(k, KIN_MEM_FAIL, "KINSetConstraints", "A memory request failed.");
    c->ops->nvscale(1.0, c, k->constraints); return 0;
}
#define SIM_GET(NAME, T, FIELD) inline int NAME(void* mem, T* v) { SimKin* k = static_cast<SimKin*>(mem); if (!k) return KIN_MEM_NULL; *v = k->FIELD; return 0; }
SIM_GET(KINGetNumFuncEvals, long, nfe) SIM_GET(KINGetNumNonlinSolvIters, long, nni) SIM_GET(KINGetNumBetaCondFails, long, ncfl) SIM_GET(KINGetNumBacktrackOps, long, nbktrk)
SIM_GET(KINGetFuncNorm, realtype, fnorm) SIM_GET(KINGetStepLength, realtype, stepl) SIM_GET(KINGetNumJacEvals, long, nje) SIM_GET(KINGetNumLinIters, long, nli) SIM_GET(KINGetNumLinConvFails, long, ncfl) SIM_GET(KINGetLastLinFlag, long, last_flag)
inline int KINGetNumLinFuncEvals(void* mem, long* v) { if (!mem) return KIN_MEM_NULL; *v = 0; return 0; }
inline const char* KINGetLinReturnFlagName(long f) { static const char* n[] = {"KINLS_SUCCESS", "KINLS_MEM_NULL", "KINLS_LMEM_NULL", "KINLS_ILL_INPUT", "KINLS_MEM_FAIL"}; return f <= 0 && f >= -4 ? n[-f] : "NONE"; }
inline int sim_f(SimKin* k, N_Vector u, N_Vector f) {
    KinWatch* w = KinWatch::mine(); ++k->nfe; if (w && w->before_f) w->before_f(k, u, f);
    int r = k->func(u, f, k->user); if (w && w->after_f) w->after_f(k, u, f, r); return r;
}
// J and its factorisation at u
inline int sim_setup(SimKin* k, N_Vector u) {
    KinWatch* w = KinWatch::mine(); ++k->nje; if (w && w->before_j) w->before_j(k, u, k->J);
    if (k->J->ops->zero && k->J->ops->zero(k->J)) return KIN_LSETUP_FAIL;
    int r = k->jac(u, k->fval, k->J, k->user, k->vt1, k->vt2); if (w && w->after_j) w->after_j(k, u, k->J, r);
    k->last_flag = r; if (r) return KIN_LSETUP_FAIL;
    if (k->LS->ops->setup) { k->last_flag = k->LS->ops->setup(k->LS, k->J); if (k->last_flag) return KIN_LSETUP_FAIL; }
    return 0;
}
// x = J^{-1} b; 0, or a code of KINSOL
inline int sim_solve(SimKin* k, N_Vector x, N_Vector b, double tol) {
    KinWatch* w = KinWatch::mine(); x->ops->nvconst(0, x);
    int r = k->LS->ops->solve(k->LS, k->J, x, b, tol); if (w && w->after_ls) w->after_ls(k, k->LS, r, tol);
    if (k->LS->ops->numiters) k->nli += k->LS->ops->numiters(k->LS);
    if (r) ++k->ncfl;
    k->last_flag = r; if (r == SUNLS_RES_REDUCED) return 0;
    return r == 0 ? 0 : r > 0 ? KIN_LINSOLV_NO_RECOVERY : KIN_LSOLVE_FAIL;
}
inline int sim_kinsol(void* mem, N_Vector u, int strategy, N_Vector us, N_Vector fs) {
    SIM_K("KINSol");
    if (!k->malloc_done) return sim_error(k, KIN_NO_MALLOC, "KINSol", "Attempt to call before KINInit.");
    if (!u || !us || !fs) return sim_error(k, KIN_ILL_INPUT, "KINSol", "uu = NULL or a scaling is missing.");
    if (strategy != KIN_NONE && strategy != KIN_LINESEARCH && strategy != KIN_PICARD) return sim_error(k, KIN_ILL_INPUT, "KINSol", "Illegal value for strategy.");
    if (us->ops->nvmin(us) <= 0 || fs->ops->nvmin(fs) <= 0) return sim_error(k, KIN_ILL_INPUT, "KINSol", "scaling has nonpositive elements.");
    if (!k->ls_set || !k->jac) return sim_error(k, KIN_ILL_INPUT, "KINSol", "The linear solver or its jacobian is missing.");
    k->nfe = k->nni = k->nje = k->nli = k->ncfl = k->nbktrk = 0; k->fnorm = k->stepl = 0; k->last_flag = 0;
    if (k->constraints && !k->constraints->ops->nvconstrmask(k->constraints, u, k->vt1)) return sim_error(k, KIN_ILL_INPUT, "KINSol", "Initial guess does NOT meet constraints.");
    if (k->LS->ops->initialize && k->LS->ops->initialize(k->LS)) return sim_error(k, KIN_LINIT_FAIL, "KINSol", "The linear solver's init routine failed.");
    N_Vector_Ops o = u->ops;
    int r = sim_f(k, u, k->fval); if (r < 0) return sim_error(k, KIN_SYSFUNC_FAIL, "KINSol", "The system function failed in an unrecoverable manner."); if (r > 0) return sim_error(k, KIN_FIRST_SYSFUNC_ERR, "KINSol", "The system function failed at the first call.");
    auto fmax = [&] { o->nvprod(fs, k->fval, k->vt1); return o->nvmaxnorm(k->vt1); };
    k->fnorm = o->nvwl2norm(k->fval, fs);
    if (fmax() <= 0.01 * k->fnormtol) { sim_info(k, "KINSol", "the guess is a solution"); return KIN_INITIAL_GUESS_OK; }
    sunindextype len = o->nvgetlength ? o->nvgetlength(u) : 0; (void)len;
    // tolerance of the linear solver: as the default of KINSOL, which scales with the length of the vector
    o->nvconst(1, k->vt1); double fac = std::sqrt((double)len) / o->nvwl2norm(us, k->vt1);
    bool poor = false, fresh = false;
    for (long since = 0;;) {
        ++k->nni; char msg[64]; snprintf(msg, sizeof msg, "nni = %ld nfe = %ld", k->nni, k->nfe); sim_info(k, "KINSol", msg);
        double tol = fac * 0.001 * k->fnorm;
        fresh = k->nni == 1 || ++since >= k->msbset || poor || strategy == KIN_PICARD;
        if (fresh) { since = 0; if ((r = sim_setup(k, u))) return sim_error(k, r, "KINSol", "The linear solver's setup routine failed."); }
        if (strategy == KIN_PICARD) { // L unew = L u - F(u)
            if (k->J->ops->matvec(k->J, u, k->vt2)) return sim_error(k, KIN_LSOLVE_FAIL, "KINSol", "matvec failed");
            o->nvlinearsum(1, k->vt2, -1, k->fval, k->vt2); if ((r = sim_solve(k, k->unew, k->vt2, 0.01 * tol))) return sim_error(k, r, "KINSol", "The linear solver failed.");
            o->nvlinearsum(1, k->unew, -1, u, k->pp);
        } else {
            o->nvscale(-1, k->fval, k->vt2); if ((r = sim_solve(k, k->pp, k->vt2, tol))) return sim_error(k, r, "KINSol", "The linear solver failed.");
        }
        double step = 1; if (k->mxnewt > 0) { double l = o->nvwl2norm(k->pp, us); if (l > k->mxnewt) step = k->mxnewt / l; }
        if (step != 1) o->nvscale(step, k->pp, k->pp);
        o->nvlinearsum(1, u, 1, k->pp, k->unew);
        for (int tries = 0; k->constraints && !k->constraints->ops->nvconstrmask(k->constraints, k->unew, k->vt1); ++tries) { // shortens the step until the constraints are met
            if (tries == 10) return sim_error(k, KIN_LINESEARCH_NONCONV, "KINSol", "constraints cannot be satisfied");
            o->nvprod(k->pp, k->vt1, k->vt1); o->nvabs(k->vt1, k->vt1); double s = std::min(0.9 * o->nvminquotient(u, k->vt1), 0.9); if (!(s > 0)) s = 0.01; if (o->nvmin(u) < 0) s = 0.3; // (a negative variable)
            o->nvscale(s, k->pp, k->pp); o->nvlinearsum(1, u, 1, k->pp, k->unew);
        }
        double f0 = k->fnorm, lam = 1; int fails = 0; poor = false;
        for (;;) {
            r = sim_f(k, k->unew, k->fval); if (r < 0) return sim_error(k, KIN_SYSFUNC_FAIL, "KINSol", "The system function failed in an unrecoverable manner.");
            if (r > 0) { if (++fails > 5) return sim_error(k, KIN_REPTD_SYSFUNC_ERR, "KINSol", "Unable to correct repeated recoverable system function errors."); }
            else { k->fnorm = o->nvwl2norm(k->fval, fs); if (strategy != KIN_LINESEARCH || k->fnorm <= f0 * (1 - 1e-4 * lam)) break; }
            lam *= 0.5; ++k->nbktrk;
            if (lam < 1e-3 && !fresh && !fails) { poor = true; break; } // again with the jacobian of this point
            if (lam < 1e-9) return sim_error(k, KIN_LINESEARCH_NONCONV, "KINSol", "The line search failed.");
            o->nvlinearsum(1, u, lam, k->pp, k->unew);
        }
        if (poor) { if (sim_f(k, u, k->fval)) return sim_error(k, KIN_SYSFUNC_FAIL, "KINSol", "The system function failed."); k->fnorm = o->nvwl2norm(k->fval, fs); continue; }
        if (strategy != KIN_LINESEARCH && k->fnorm > 0.5 * f0) poor = true;
        o->nvscale(1, k->unew, u); k->stepl = lam * o->nvwl2norm(k->pp, us);
        if (fmax() <= k->fnormtol) { sim_info(k, "KINSol", "solved"); return KIN_SUCCESS; }
        if (k->stepl < k->scsteptol) return KIN_STEP_LT_STPTOL;
        if (k->nni >= k->mxiter) return sim_error(k, KIN_MAXITER_REACHED, "KINSol", "The maximum number of iterations was reached before convergence.");
    }
}
inline int KINSol(void* mem, N_Vector u, int strategy, N_Vector us, N_Vector fs) {
    KinWatch* w = KinWatch::mine(); int r = sim_kinsol(mem, u, strategy, us, fs); if (w) w->flag = r, ++w->solved; return r;
}
#endif
