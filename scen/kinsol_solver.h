// C26: histories of SUNNonlinearSolver objects. Included at the end of kinsol.cpp.
namespace {
enum { NSLOT = 3, NX = 3, NMAT = 3, NSOL = 2 };
struct System { // the user's equations: F_i = a_i d_i + d_i^3 + a_i d_{i-1} / 4, d = u - t; coupled within a rank
    std::vector<double> a, t; int id = 0; long rhs = 0, mat = 0, comb = 0; bool alive = true;
    double F(const Vector& u, U i, U lo) const { double d = u[i] - t[i]; double r = a[i] * d + d * d * d; if (i > lo) r += 0.25 * a[i] * (u[i - 1] - t[i - 1]); return r; }
};
struct Message { bool error; int code; std::string fn, text; };
struct Slot {
    SUNNonlinearSolver* s = nullptr; int x = -1, m = -1, ls = -1; bool inited = false, tried = false; // m: -2 is a matrix of the solver
    bool rhs = false, mat = false, comb = false; System* sys = nullptr; std::map<std::string, double> par; int print = 0; int eh = 0, ih = 0; bool cons = false; std::vector<double> c; int flag = KIN_MEM_NULL;
    std::shared_ptr<std::ostringstream> eout, iout; int tag = 0;
};
struct Solvers;
thread_local Solvers* me = nullptr;
struct Solvers {
    const Plan& p; int q, n; U N; std::vector<U> cut; Slot slot[NSLOT]; Vector* X[NX]; Matrix* M[NMAT]; Solver* S[NSOL]; KinWatch w; std::vector<System*> systems; std::vector<SUNNonlinearSolver*> husks;
    Slot* cur = nullptr; int tags = 0;
    // the running solution
    long fcalls = 0, jcalls = 0, called = 0; std::vector<double> uval, fval; double lrhs = 0, lmat = 0; int fkind = 0, frank = 0; long fcall = 0; int fcode = 0; int status = 0, worst = 0; Vector* fdata = nullptr; SUNMatrix jmat = nullptr; bool jok = false; std::vector<Message> pending; bool delivered = false; size_t lsdone = 0;
    bool lost = false; std::vector<std::map<U, double>> jval;
    Solvers(const Plan& p_, int q_, int n_) : p(p_), q(q_), n(n_), N((U)p_.get("N")), cut(cut_of(p_, n_, (U)p_.get("N"))) {}
    U lo() const { return cut[(size_t)q]; } U hi() const { return cut[(size_t)q + 1]; }
    double gmax(double v) { double r = v; if (n > 1) { struct A { double v, *r; } a{v, &r}; Loud l; NoFault nf; SimComm::mine()->collective("scenario max", &a, [](std::vector<void*>& s) { double b = static_cast<A*>(s[0])->v; for (auto t : s) b = std::max(b, static_cast<A*>(t)->v); for (auto t : s) *static_cast<A*>(t)->r = b; }); } return r; }
    double gmin(double v) { return -gmax(-v); }
    static Vector* dat(N_Vector v) { return static_cast<N_VectorContent_Inmost>(v->content)->data; }
    static Matrix* dat(SUNMatrix v) { return static_cast<SUNMatrixContent_Inmost>(v->content)->data; }
    // what the callbacks of rank r return at call number k
    int status_of(bool jac, int r, long k) const { if (fkind == (jac ? 2 : 1) && k >= fcall && (k == fcall || fcode % 2) && r == frank) return fcode; return (r + k) % 3 == 0 ? 0 : (r + (int)k) % 3 == 1 ? 1 : 7; }
    int worst_of(bool jac, long k) const { int s = 1000; for (int r = 0; r < n; ++r) s = std::min(s, status_of(jac, r, k)); return s; }
    // --- called by the user's functions
    void user_rhs(System* y, int tag, Vector& x, Vector& b) {
        if (!cur || tag != cur->tag || y != cur->sys) violation("callback", "the residual of another solver is called");
        ++called; if (!fdata) violation("callback", "the residual is called, although none is due");
        same(x, "the residual is asked for"); if (&b != fdata || b.GetFirstIndex() != lo() || b.GetLastIndex() != hi()) violation("callback", "the residual does not get the vector that is to be filled");
        fval.assign(N, 0); for (U i = lo(); i < hi(); ++i) b[i] = fval[i] = y->F(x, i, lo());
        double dt = (1 + q + (double)(fcalls % 3)) * 0.25; g_clock += dt; lrhs += dt; status = status_of(false, q, fcalls);
    }
    void same(Vector& x, const char* what) { if (x.GetFirstIndex() != lo() || x.GetLastIndex() != hi()) violation("callback", "%s at a vector with another interval", what); for (U i = lo(); i < hi(); ++i) if (!(x[i] == uval[i])) violation("callback", "%s at another point", what); }
    void user_mat(System* y, int tag, Vector& x, Matrix& A) {
        if (!cur || tag != cur->tag || y != cur->sys) violation("callback", "the jacobian of another solver is called");
        ++called; if (!jmat) violation("callback", "the jacobian is called, although none is due");
        same(x, "the jacobian is asked for"); if (cur->m >= 0 && &A != M[cur->m]) violation("callback", "the jacobian does not get the user's matrix");
        if (&A != dat(jmat)) violation("callback", "the jacobian does not get the matrix of the solver");
        if (A.GetFirstIndex() != lo() || A.GetLastIndex() != hi()) { if (A.Size() && cur->m >= 0) violation("callback", "the user's matrix has another interval"); A.SetInterval(lo(), hi()); }
        for (U i = lo(); i < hi(); ++i) if (A[i].Size()) violation("callback", "row %u of the matrix is not empty", i);
        jval.assign(N, {}); for (U i = lo(); i < hi(); ++i) { double d = x[i] - y->t[i]; A[i][i] = jval[i][i] = y->a[i] + 3 * d * d; if (i > lo()) A[i][i - 1] = jval[i][i - 1] = 0.25 * y->a[i]; }
        double dt = (2 + (n - q) + (double)(jcalls % 2)) * 0.25; g_clock += dt; lmat += dt; status = status_of(true, q, jcalls);
    }
    // --- called by the stand-in of KINSOL
    void before_f(N_Vector u, N_Vector f) { ++fcalls; called = 0; g_clock += 0.5; uval.assign(N, 0); Vector& v = *dat(u); for (U i = lo(); i < hi(); ++i) uval[i] = v[i]; fdata = dat(f); }
    void after_f(N_Vector u, N_Vector f, int ret) {
        if (!cur->rhs) { if (called) violation("callback", "a residual is called, although none is set"); if (ret >= 0) violation("status", "the missing residual is reported as %d", ret); probe("missing-callback"); fdata = nullptr; return; }
        if (called != 1) violation("callback", "the user's residual was called %ld times", called);
        int wst = worst_of(false, fcalls); if (wst < 0 ? ret <= 0 : ret != 0) violation("status", "the worst status of the residual on the ranks is %d, KINSOL gets %d", wst, ret);
        if (wst < 0) { probe("residual-failed"); note_fault("callback"); }
        same(*dat(u), "after the call of the residual"); Vector& b = *dat(f); for (U i = lo(); i < hi(); ++i) if (!(b[i] == fval[i])) violation("callback", "component %u of the residual was changed", i);
        fdata = nullptr;
    }
    void before_j(N_Vector u, SUNMatrix J) { ++jcalls; called = 0; g_clock += 0.5; uval.assign(N, 0); Vector& v = *dat(u); for (U i = lo(); i < hi(); ++i) uval[i] = v[i]; jmat = J; }
    void after_j(N_Vector u, SUNMatrix J, int ret) {
        jmat = nullptr;
        if (!cur->mat && !cur->comb) { if (called) violation("callback", "a jacobian is called, although none is set"); if (ret == 0) violation("status", "the missing jacobian is reported as success"); probe("missing-callback"); return; }
        if (called != 1) violation("callback", "the user's jacobian was called %ld times", called);
        int wst = worst_of(true, jcalls); if (wst < 0 ? ret == 0 : ret != 0) violation("status", "the worst status of the jacobian on the ranks is %d, KINSOL gets %d", wst, ret);
        if (wst < 0) { probe("jacobian-failed"); note_fault("callback"); }
        same(*dat(u), "after the call of the jacobian");
        Matrix& A = *dat(J); for (U i = lo(); i < hi(); ++i) { std::map<U, double> r; for (auto& e : A[i].e) r[e.first] += e.second; if (r != jval[i]) violation("callback", "row %u of the jacobian was changed", i); }
        lsdone = (size_t)S[cur->ls]->nset;
    }
    void after_ls(int ret, double tol) {
        Solver* s = S[cur->ls]; g_clock += 1; if ((size_t)s->nset <= lsdone) violation("linear-solver", "the jacobian was not given to the user's linear solver");
        if (s->codes.empty()) violation("linear-solver", "the user's linear solver was not called"); Algebra::judge(s, ret, tol); if (s->codes.back()) { probe("linear-failed"); note_fault("linear-solver"); } s->codes.clear();
    }
    void message(bool error, int code, const char* fn, const char* text) { arrived(); if (error ? cur && cur->eh : cur && cur->ih) pending.push_back(Message{error, code, fn, text}); }
    void arrived() { // the messages of KINSOL up to now have reached the handlers
        for (auto& m : pending) {
            int k = m.error ? cur->eh : cur->ih; if (k != 2) { violation("message", "the message \"%s\" of %s has not reached the handler", m.text.c_str(), m.fn.c_str()); }
            std::string all = (m.error ? cur->eout : cur->iout)->str(); if (!lost) if (all.find(m.text) == std::string::npos || all.find(m.fn) == std::string::npos) violation("message", "the message \"%s\" of %s is not written", m.text.c_str(), m.fn.c_str());
            (m.error ? cur->eout : cur->iout)->str("");
        }
        pending.clear(); lost = false;
    }
    void handled(int tag, bool error, int code, const char* fn, const char* text) {
        if (!cur || tag != cur->tag) violation("message", "the handler of another solver is called");
        if (pending.empty() || pending[0].error != error || pending[0].code != code || pending[0].fn != fn || pending[0].text != text) violation("message", "a handler gets \"%s\" of %s (%d), which was not sent", text, fn, code);
        pending.clear(); probe("message");
    }
    // ---
    void attach(Slot& t, int which) {
        System* y; { y = new System; systems.push_back(y); } Rng r(mix((uint64_t)p.get("cut"), 1000 + systems.size())); y->id = (int)systems.size(); y->a.resize(N); y->t.resize(N);
        for (U i = 0; i < N; ++i) { y->a[i] = (double)r.in(1, 4); y->t[i] = (double)r.in(-4, 4) * 0.5; }
        t.sys = y; t.tag = ++tags; t.rhs = t.mat = t.comb = false;
        int tag = t.tag; Loud l; NoFault nf;
        auto f = [y, tag](Vector& x, Vector& b) { Quiet qq; ++y->rhs; me->user_rhs(y, tag, x, b); return me->status; };
        auto j = [y, tag](Vector& x, Matrix& A) { Quiet qq; ++y->mat; me->user_mat(y, tag, x, A); return me->status; };
        auto c = [y, tag](Vector& x, Matrix& A, Vector& b) { Quiet qq; ++y->comb; if (me->cur->mat) violation("callback", "the combined function is called, although there is one for the jacobian"); me->user_mat(y, tag, x, A); for (double& v : b) v = 77; return me->status; };
        t.s->SetAssemblerRHS(nullptr); t.s->SetAssemblerMAT(nullptr); t.s->SetAssembler(nullptr);
        if (which != 4) { t.s->SetAssemblerRHS(f); t.rhs = true; }
        if (which == 0 || which == 2 || which == 4) { t.s->SetAssemblerMAT(j); t.mat = true; }
        if (which == 1 || which == 2) { t.s->SetAssembler(c); t.comb = true; }
        if (t.eh == 1) err_handler(t); if (t.ih == 1) info_handler(t);
    }
    void err_handler(Slot& t) { int tag = t.tag; t.s->SetErrHandlerFn([tag](int code, const char* mod, const char* fn, char* msg) { Quiet qq; if (std::string(mod) != "KINSOL") violation("message", "the module of a message is \"%s\"", mod); me->handled(tag, true, code, fn, msg); }); t.eh = 1; }
    void info_handler(Slot& t) { int tag = t.tag; t.s->SetInfoHandlerFn([tag](const char* mod, const char* fn, char* msg) { Quiet qq; if (std::string(mod) != "KINSOL") violation("message", "the module of a message is \"%s\"", mod); me->handled(tag, false, 0, fn, msg); }); t.ih = 1; }
    void kill(Slot& t) { if (!t.s) return; cur = &t; { Loud l; delete t.s; } arrived(); cur = nullptr; t = Slot(); }
    static const std::map<std::string, double>& defaults() {
        static const std::map<std::string, double> d = {{"MaxIters", 200}, {"UseInitSetup", 1}, {"UseResMon", 1}, {"MaxSetupCalls", 10}, {"MaxSubSetupCalls", 5}, {"EtaForm", 1}, {"EtaConstValue", 0.1}, {"EtaGamma", 0.9}, {"EtaAlpha", 2}, {"ResMonWmin", 1e-5}, {"ResMonWmax", 0.9},
            {"ResMonConst", 0.9}, {"UseMinEps", 1}, {"MaxNewtonStep", 0}, {"MaxBetaFails", 10}, {"FuncNormTol", std::cbrt(UNIT_ROUNDOFF)}, {"ScaledSteptol", std::pow(UNIT_ROUNDOFF, 2. / 3)}, {"MAA", 0}, {"DampingAA", 1}};
        return d;
    }
    static bool integral(const std::string& n) { return n == "MaxIters" || n == "MaxSetupCalls" || n == "MaxSubSetupCalls" || n == "EtaForm" || n == "MaxBetaFails" || n == "MAA" || n.compare(0, 3, "Use") == 0; }
    static double field(SimKin* k, const std::string& n) {
        if (n == "MaxIters") return (double)k->mxiter; if (n == "UseInitSetup") return !k->no_init_setup; if (n == "UseResMon") return !k->no_res_mon; if (n == "MaxSetupCalls") return (double)k->msbset; if (n == "MaxSubSetupCalls") return (double)k->msbset_sub;
        if (n == "EtaForm") return k->eta_choice; if (n == "EtaConstValue") return k->eta; if (n == "EtaGamma") return k->egamma; if (n == "EtaAlpha") return k->ealpha; if (n == "ResMonWmin") return k->wmin; if (n == "ResMonWmax") return k->wmax; if (n == "ResMonConst") return k->omega;
        if (n == "UseMinEps") return !k->no_min_eps; if (n == "MaxNewtonStep") return k->mxnewt; if (n == "MaxBetaFails") return (double)k->mxnbcf; if (n == "FuncNormTol") return k->fnormtol; if (n == "ScaledSteptol") return k->scsteptol; if (n == "MAA") return (double)k->maa; return k->beta;
    }
    // the solver reports and has what the history gave it
    void check(Slot& t, const char* what) {
        SUNNonlinearSolver* s = t.s; if (!s) return; SimKin* k = static_cast<SimKin*>(s->kin); Matrix* gm; Vector* gx; Solver* gs;
        { Loud l; gm = s->GetMatrix(); gx = s->GetVectorX(); gs = s->GetLinearSolver(); }
        if (gx != (t.x < 0 ? nullptr : X[t.x])) violation("component", "%s: the solver has another vector", what);
        if (t.m == -2 ? !gm : gm != (t.m < 0 ? nullptr : M[t.m])) violation("component", "%s: the solver has another matrix", what);
        if (gs != (t.ls < 0 ? nullptr : S[t.ls])) violation("component", "%s: the solver has another linear solver", what);
        for (auto& d : defaults()) { double want = t.par.count(d.first) ? t.par[d.first] : d.second, got = field(k, d.first); if (std::fabs(got - want) > 1e-14 * std::fabs(want)) violation("parameter", "%s: %s of KINSOL is %.17g, expected %.17g", what, d.first.c_str(), got, want); }
        if (k->print != t.print) violation("parameter", "%s: the level of messages is %d, expected %d", what, k->print, t.print);
        if ((k->constraints != nullptr) != t.cons) violation("constraints", "%s: KINSOL has %s constraints", what, t.cons ? "no" : "unexpected");
        if (t.cons) for (U i = lo(); i < hi(); ++i) if ((*dat(k->constraints))[i] != t.c[i]) violation("constraints", "%s: the constraint of component %u is %g, expected %g", what, i, (*dat(k->constraints))[i], t.c[i]);
        int f; { Loud l; f = s->GetReasonFlag(); } if (f != t.flag) violation("status", "%s: the reason is %d, expected %d", what, f, t.flag);
    }
    static const char* keyword(int f) {
        switch (f) { case KIN_SUCCESS: return "success"; case KIN_INITIAL_GUESS_OK: return "guess"; case KIN_STEP_LT_STPTOL: return "step"; case KIN_MEM_NULL: return "pointer"; case KIN_ILL_INPUT: return "initialization"; case KIN_NO_MALLOC: return "not allocated"; case KIN_MEM_FAIL: return "allocation failed";
            case KIN_LINESEARCH_NONCONV: return "sufficient decrease"; case KIN_MAXITER_REACHED: return "maximum number"; case KIN_MXNEWT_5X_EXCEEDED: return "five"; case KIN_LINESEARCH_BCFAIL: return "beta-condition"; case KIN_LINSOLV_NO_RECOVERY: return "already current"; case KIN_LINIT_FAIL: return "linit";
            case KIN_LSETUP_FAIL: return "lsetup"; case KIN_LSOLVE_FAIL: return "lsolve"; case KIN_SYSFUNC_FAIL: return "unrecoverable"; case KIN_FIRST_SYSFUNC_ERR: return "first"; case KIN_REPTD_SYSFUNC_ERR: return "repeated"; }
        return "";
    }
    // runs f, which may end with an exception if a fault was injected; true if it did
    template <class F> bool guarded(const char* what, bool must, F f) {
        bool thrown = false; { Loud l; try { f(); } catch (const std::exception&) { Quiet qq; thrown = true; } }
        bool hit = fired(); arm(0); if (hit) for (auto o : {cur ? cur->eout : nullptr, cur ? cur->iout : nullptr}) if (o) { o->clear(); o->str(""); lost = true; } // (the stream of the handler ran out of memory)
        bool forced = w.force_fn == nullptr && must; w.force_fn = nullptr;
        if (thrown && !hit && !must) violation("spurious-failure", "%s ends with an exception, although nothing failed", what);
        if (!thrown && must && forced) violation("swallowed-failure", "%s ends normally, although it failed", what);
        if (thrown) probe("failed-call"); return thrown;
    }
    void create(const Op& o) {
        Slot& t = slot[o.at(0)]; kill(t); int how = (int)o.at(1), si = (int)o.at(2), mi = (int)o.at(3), xi = (int)o.at(4); uint64_t mark = alloc_mark();
        bool force = o.at(5) == 1; if (force) { w.force = -4; w.force_fn = "KINCreate"; }
        SUNNonlinearSolver* s = nullptr; bool th;
#if HAVE_CTX
        if (how == 2) { Ctx* c; { Loud l; NoFault nf; c = new Ctx((void*)nullptr); } th = guarded("the constructor", force, [&] { s = new SUNNonlinearSolver(std::move(*c)); }); Loud l; delete c; }
        else
#endif
        if (how == 1) th = guarded("the constructor", force, [&] { s = new SUNNonlinearSolver(*S[si], *M[mi], *X[xi]); });
        else th = guarded("the constructor", force, [&] { s = new SUNNonlinearSolver(); });
        if (th) { size_t left = live_since(mark); if (left && n == 1) violation("leak", "%zu blocks left by the failed constructor", left); probe("failed-create"); return; }
        t = Slot(); t.s = s; if (how == 1) t.ls = si, t.m = mi, t.x = xi;
    }
    // a setter failed: the component is the old one or none
    void after_failure(Slot& t, int what) {
        SUNNonlinearSolver* s = t.s; t.inited = false;
        Loud l; if (what == 0 && !s->GetMatrix()) t.m = -1; if (what == 1 && !s->GetVectorX()) t.x = -1, t.inited = t.inited; if (what == 2 && !s->GetLinearSolver()) t.ls = -1;
    }
    void parameter(Slot& t, const Op& o) {
        auto it = defaults().begin(); std::advance(it, o.at(1) % (long)defaults().size()); std::string nm = it->first; bool in = integral(nm); double v; int k = (int)o.at(3) % 4; char text[64]; bool ok = false;
        if (nm == "EtaForm") v = 1 + k % 3; else if (nm.compare(0, 3, "Use") == 0) v = k % 2; else if (in) { static const double c[] = {3, 12, 40, 7}; v = c[k]; }
        else if (nm == "EtaAlpha") { static const double c[] = {1.5, 2, 1.25, 1.75}; v = c[k]; } else if (nm == "ResMonWmin") { static const double c[] = {1e-5, 1e-4, 0.01, 0.125}; v = c[k]; } else if (nm == "FuncNormTol") { static const double c[] = {1e-6, 1e-9, 1e-4, 0.5}; v = c[k]; }
        else if (nm == "ScaledSteptol") { static const double c[] = {1e-11, 1e-12, 1e-10, 1e-13}; v = c[k]; } else if (nm == "MaxNewtonStep") { static const double c[] = {1000, 64, 0.5, 8}; v = c[k]; } else { static const double c[] = {0.5, 0.75, 0.625, 1}; v = c[k]; }
        if (nm.compare(0, 3, "Use") == 0 && o.at(4) % 2) snprintf(text, sizeof text, "%s", v ? (k < 2 ? "true" : "TRUE") : k < 2 ? "false" : "False"); else if (in) snprintf(text, sizeof text, "%d", (int)v); else snprintf(text, sizeof text, "%.17g", v);
        cur = &t; bool th;
        if (o.at(2)) th = guarded("SetParameter", false, [&] { ok = t.s->SetParameter(nm, text); });
        else th = guarded("SetParameter", false, [&] { ok = in ? t.s->SetParameterIntegral(nm, (int)v) : t.s->SetParameterReal(nm, v); });
        if (!th && !ok) violation("parameter", "%s is not accepted with the value %s", nm.c_str(), text);
        if (!th) t.par[nm] = v; else { double now = field(static_cast<SimKin*>(t.s->kin), nm); (void)now; }
        probe("parameter");
    }
    void bad_parameter(Slot& t, const Op& o) {
        bool ok = true; int k = (int)o.at(1) % 7; cur = &t; Loud l; NoFault nf;
        switch (k) { case 0: ok = t.s->SetParameter("MaxIter", "3"); break; case 1: ok = t.s->SetParameterReal("MaxIters", 3); break; case 2: ok = t.s->SetParameterIntegral("FuncNormTol", 3); break; case 3: ok = t.s->SetParameter("EtaForm", o.at(2) % 2 ? "4" : "0"); break;
            case 4: ok = t.s->SetParameterReal("DampingAA", o.at(2) % 2 ? 1.5 : -0.5); break; case 5: ok = t.s->SetParameterIntegral("EtaForm", 17); break; case 6: ok = t.s->SetParameterReal("", 0); break; }
        Quiet qq; if (ok) violation("parameter", "an unknown parameter or an illegal value (%d) is accepted", k);
    }
    void constraints(Slot& t, const Op& o) {
        Vector* v; { Loud l; NoFault nf; v = new Vector("c", lo(), hi(), SimComm::mine()); } std::vector<double> c(N); Rng r(mix((uint64_t)o.at(2), 5)); bool bad = o.at(1) == 1, force = o.at(1) == 2; bool follow = t.sys && r.chance(3, 4);
        for (U i = 0; i < N; ++i) { c[i] = (double)r.in(-2, 2); if (follow) { double s = t.sys->t[i]; c[i] = s == 0 ? 0 : std::fabs(c[i]) * (s > 0 ? 1 : -1); } }
        if (bad) c[r.below(N)] = 3;
        for (U i = lo(); i < hi(); ++i) (*v)[i] = c[i];
        if (force) { w.force = KIN_MEM_FAIL; w.force_fn = "KINSetConstraints"; }
        cur = &t; bool th = guarded("SetConstraints", bad || force, [&] { t.s->SetConstraints(*v); });
        { Loud l; delete v; } if (!th) { t.cons = true; t.c = c; probe("constraints"); }
    }
    void init(Slot& t, const Op& o) {
        if (t.x < 0) return; bool force = o.at(1) > 0, missing = t.m == -1 || t.ls < 0; static const char* fn[] = {"", "KINInit", "KINSetLinearSolver", "KINSetJacFn", "KINSetUserData"};
        if (force) { w.force = -4; w.force_fn = fn[o.at(1)]; }
        cur = &t; bool th = guarded("Init", force || missing, [&] { t.s->Init(); }); t.tried = true; t.inited = !th; if (!th) probe("init");
        if (!th) { SimKin* k = static_cast<SimKin*>(t.s->kin); if (dat(k->J) != t.s->GetMatrix()) violation("component", "KINSOL has another matrix after Init"); }
    }
    void solve(Slot& t, const Op& o) {
        if (t.tried && !t.inited) return; SUNNonlinearSolver* s = t.s; cur = &t; bool first = !t.inited;
        int strat = (int)o.at(1); auto st = strat == 0 ? SUNNonlinearSolver::NONE : strat == 1 ? SUNNonlinearSolver::PICARD : SUNNonlinearSolver::LINESEARCH; long solved = w.solved; int fk = first ? 0 : (int)o.at(2);
        fkind = fk; frank = (int)o.at(3) % n; fcall = o.at(4); fcode = -(int)o.at(5); fcalls = jcalls = 0; lrhs = lmat = 0; bool exact = o.at(7) == 1;
        if (!first) {
            Rng r(mix((uint64_t)o.at(6), 6)); Vector& v = *X[t.x]; double f = (double)r.in(1, 12) * 0.25;
            for (U i = 0; i < N; ++i) { double g = (double)r.in(-8, 8) * 0.5; if (exact && t.sys) g = t.sys->t[i]; else if (t.cons && t.sys) g = t.sys->t[i] * f; if (i >= lo() && i < hi()) v[i] = g; }
            Solver* l = S[t.ls]; l->codes.clear(); l->script.clear(); l->used = 0; if (fk == 3) { for (long k = 1; k < fcall; ++k) l->script.push_back(0); l->script.push_back((int)o.at(5) % 5 + 1); }
        }
        if (fk == 4) { static const int c[] = {2, -5, -6, -7, -8, -9, -10, -11, -12, -13, -14, -15, -4, -2}; w.force = c[o.at(5) % 14]; w.force_fn = "KINSol"; note_fault("solver-code"); }
        bool ret; { Loud l; NoFault nf; ret = s->Solve(st); }
        arrived(); w.force_fn = nullptr; int flag, rf; { Loud l; NoFault nf; rf = s->GetReasonFlag(); } flag = w.flag; t.flag = flag;
        if (w.solved != solved + 1) violation("status", "KINSOL was called %ld times by one solution", w.solved - solved);
        if (ret != (flag >= 0)) violation("status", "the solution is reported as %s, although KINSOL returned %d", ret ? "successful" : "failed", flag);
        if (rf != flag) violation("status", "the reason is %d, although KINSOL returned %d", rf, flag);
        if (first && ret) violation("status", "an uninitialised solver reports success");
        std::string why; { Loud l; NoFault nf; std::string z = s->GetReason(); Quiet q2; for (char c : z) why += (char)tolower((unsigned char)c); } if (why.empty() || why.find(keyword(flag)) == std::string::npos) violation("status", "the explanation of %d is \"%s\"", flag, why.c_str());
        if (gmax(flag) != flag || gmin(flag) != flag) violation("status", "the ranks have different results, %d here", flag);
        getters(t);
        if (first) { probe("uninitialised"); return; }
        double tr, tm; { Loud l; NoFault nf; tr = s->GetRHSAssembleTime(); tm = s->GetMatAssembleTime(); }
        double wr = gmax(lrhs), wm = gmax(lmat); if (tr != wr || tm != wm) violation("time", "the assembly took %g and %g, reported are %g and %g", wr, wm, tr, tm);
        bool forced = fk == 4;
        if (flag == KIN_SUCCESS || flag == KIN_INITIAL_GUESS_OK) {
            double tol = t.par.count("FuncNormTol") ? t.par["FuncNormTol"] : defaults().at("FuncNormTol"), big = 0; Vector& v = *X[t.x]; for (U i = lo(); i < hi(); ++i) { double z = std::fabs(t.sys->F(v, i, lo())); if (!(z <= big)) big = z; }
            if (!forced && !(big <= tol * (1 + 1e-12))) violation("solution", "the residual in the user's vector is %g, the tolerance is %g", big, tol);
            if (!forced && t.cons) for (U i = lo(); i < hi(); ++i) { double c = t.c[i], z = v[i]; if (c != 0 && (std::fabs(c) == 1 ? c * z < 0 : c * z <= 0)) violation("solution", "component %u of the solution is %g, its constraint is %g", i, z, c); }
            probe(flag == KIN_SUCCESS ? "solved" : "guess-ok");
        } else probe("not-solved");
        bool benign = t.rhs && (t.mat || t.comb) && fk == 0 && st == SUNNonlinearSolver::LINESEARCH && !t.cons && t.par.empty();
        if (benign && flag < 0) violation("solution", "a well-posed problem is not solved: %d", flag);
        if (benign && flag != KIN_INITIAL_GUESS_OK && !fcalls) violation("solution", "solved without the equations");
        mixhash((uint64_t)(flag + 100)); mixhash((uint64_t)fcalls);
    }
    void getters(Slot& t) {
        SimKin* k = static_cast<SimKin*>(t.s->kin); SUNNonlinearSolver* s = t.s; Loud l; NoFault nf;
        long a[] = {s->GetNumFuncEvals(), s->GetNumNolinSolvIters(), s->GetNumBacktrackOps(), s->GetNumJacEvals(), s->GetNumLinIters(), s->GetNumLinConvFails(), s->GetLastLinFlag(), s->GetNumLinFuncEvals(), s->GetNumBetaCondFails()}; double r = s->GetResidualNorm(), st = s->GetStepLength();
        Quiet qq; long b[] = {k->nfe, k->nni, k->nbktrk, k->nje, k->nli, k->ncfl, k->last_flag, 0, k->ncfl};
        for (int i = 0; i < 9; ++i) if (a[i] != b[i]) violation("statistics", "number %d of the statistics is %ld, KINSOL has %ld", i, a[i], b[i]);
        if (r != k->fnorm || st != k->stepl) violation("statistics", "norm and step are %g, %g; KINSOL has %g, %g", r, st, k->fnorm, k->stepl);
    }
    void run() {
        me = this; KinWatch::mine() = &w;
        w.before_f = [](SimKin*, N_Vector u, N_Vector f) { Quiet qq; me->before_f(u, f); }; w.after_f = [](SimKin*, N_Vector u, N_Vector f, int r) { Quiet qq; me->after_f(u, f, r); };
        w.before_j = [](SimKin*, N_Vector u, SUNMatrix J) { Quiet qq; me->before_j(u, J); }; w.after_j = [](SimKin*, N_Vector u, SUNMatrix J, int r) { Quiet qq; me->after_j(u, J, r); };
        w.after_ls = [](SimKin*, SUNLinearSolver, int r, double tol) { Quiet qq; me->after_ls(r, tol); }; w.message = [](SimKin*, bool e, int c, const char* fn, const char* m) { Quiet qq; me->message(e, c, fn, m); };
        { Loud l; NoFault nf; for (auto& v : X) v = new Vector("x", lo(), hi(), SimComm::mine()); for (auto& m : M) m = new Matrix("m", lo(), hi(), SimComm::mine()); for (auto& s : S) s = new Solver(); }
        for (auto& o : p.ops) {
            op_begin(o); Slot& t = slot[o.at(0)]; auto& k = o.kind;
            if (k == "create") create(o);
            else if (t.s) {
                SUNNonlinearSolver* s = t.s; cur = &t;
                if (k == "setm") { int m = (int)o.at(1); bool th = guarded("SetMatrix", false, [&] { if (m >= 0) s->SetMatrix(*M[m]); else s->SetMatrix(std::string("matrix of the solver with a long name")); }); t.inited = false; if (!th) t.m = m < 0 ? -2 : m; else after_failure(t, 0); }
                else if (k == "setx") { int x = (int)o.at(1); bool was = t.inited; bool th = guarded("SetInitialGuess", false, [&] { s->SetInitialGuess(*X[x]); }); if (!th) t.x = x; else { after_failure(t, 1); t.inited = was && t.x >= 0; } }
                else if (k == "setls") { int x = (int)o.at(1); bool th = guarded("SetLinearSolver", false, [&] { s->SetLinearSolver(*S[x]); }); t.inited = false; if (!th) t.ls = x; else after_failure(t, 2); }
                else if (k == "setf") attach(t, (int)o.at(1));
                else if (k == "par") parameter(t, o);
                else if (k == "badpar") bad_parameter(t, o);
                else if (k == "verb") { int l = (int)o.at(1); { Loud q_; s->SetVerbosityLevel(l); } t.print = l < 0 ? 0 : l > 3 ? 3 : l; }
                else if (k == "hand") {
                    if (!t.tag) t.tag = ++tags; bool e = o.at(1) != 0, file = o.at(2) != 0; Loud l; NoFault nf;
                    if (!file) { if (e) err_handler(t); else info_handler(t); }
                    else { auto q_ = std::make_shared<std::ostringstream>(); if (e) { t.s->SetErrHandlerFile(*q_); t.eout = q_; t.eh = 2; } else { t.s->SetInfoHandlerFile(*q_); t.iout = q_; t.ih = 2; } }
                }
                else if (k == "cons") constraints(t, o);
                else if (k == "init") init(t, o);
                else if (k == "solve") solve(t, o);
                else if (k == "kill") kill(t);
                else if (k == "move" && o.at(1) != o.at(0)) {
                    Slot& d = slot[o.at(1)]; kill(d); SUNNonlinearSolver* from = t.s; cur = &t; SUNNonlinearSolver* to; { Loud l; NoFault nf; to = new SUNNonlinearSolver(std::move(*from)); } d = t; d.s = to; t = Slot(); probe("moved");
                    if (o.at(2)) husks.push_back(from); else { Loud l; delete from; }
                }
                arrived(); cur = nullptr;
            }
            arm(0); w.force_fn = nullptr; for (auto& z : slot) check(z, k.c_str());
            op_end();
        }
        for (auto h : husks) { Loud l; delete h; } for (auto& z : slot) check(z, "end"); for (auto& z : slot) kill(z);
        { Loud l; for (auto v : X) delete v; for (auto m : M) delete m; for (auto s : S) delete s; } for (auto y : systems) delete y;
        KinWatch::mine() = nullptr; me = nullptr;
    }
};
void run_solvers(const Plan& p) {
    Quiet qq; set_poison((int)p.get("poison"), p.seed); int n = (int)p.get("ranks"); if (p.ops.size() > 6) nontrivial();
    { // tables of the library
        Loud l; NoFault nf; Ctx c((void*)nullptr); Vector* w = new Vector("w", 0, 1, nullptr); N_Vector a = N_VNew_Inmost(CTX(c) w), b = N_VClone(a); N_VDestroy(b); N_VDestroy(a); delete w;
        SUNNonlinearSolver s; s.SetParameter("MaxIters", "200"); auto list = SUNNonlinearSolver::GetAvaliableParametrs(); std::ostringstream q; q << list.size();
        Quiet q2; auto& d = Solvers::defaults(); if (list.size() != d.size()) violation("parameter", "%zu parameters are listed, expected %zu", list.size(), d.size());
        for (auto& e : list) {
            auto it = d.find(e.name); if (it == d.end()) violation("parameter", "the unknown parameter %s is listed", e.name.c_str());
            bool in = Solvers::integral(e.name); auto want = !in ? SUNNonlinearSolver::REAL : e.name == "EtaForm" ? SUNNonlinearSolver::ETACHOISEENUM : e.name.compare(0, 3, "Use") == 0 ? SUNNonlinearSolver::BOOLEAN : SUNNonlinearSolver::INTEGER; if (e.type != want) violation("parameter", "the type of %s is listed as %d", e.name.c_str(), (int)e.type);
            if (e.name == "MaxNewtonStep" || e.default_val[0] == '(') continue; // given by a formula
            bool ok; { Loud l2; ok = s.SetParameter(e.name, e.default_val); } double v = Solvers::field(static_cast<SimKin*>(s.kin), e.name); if (!ok || std::fabs(v - it->second) > 1e-14) violation("parameter", "%s: the default value %s is not that of KINSOL", e.name.c_str(), e.default_val.c_str());
        }
    }
    uint64_t mark = alloc_mark();
    run_ranks(n, [&](int q) { Solvers* s = new Solvers(p, q, n); s->run(); delete s; });
    size_t bytes = 0, left = live_since(mark, &bytes); if (left) violation("leak", "%zu blocks (%zu bytes) are left at the end", left, bytes);
}
void gen_solvers(Plan& p, Rng& r) {
    p.par["poison"] = r.below(8); long n = p.par["ranks"] = MAXRANKS == 1 ? 1 : r.chance(2, 5) ? 1 : r.in(2, MAXRANKS); p.par["N"] = n + r.below(6); p.par["cut"] = r.below(100000); bool faults = n == 1 && r.chance(2, 3);
    auto fail = [&](Op& o) { if (faults && r.chance(1, 3)) o.fail = (int)r.in(1, r.chance(1, 2) ? 6 : 40); };
    auto one = [&](long s) {
        switch (r.below(16)) {
            case 0: fail(p.add(0, "setm", {s, r.in(-1, NMAT - 1)})); break;
            case 1: fail(p.add(0, "setx", {s, r.below(NX)})); break;
            case 2: fail(p.add(0, "setls", {s, r.below(NSOL)})); break;
            case 3: p.add(0, "setf", {s, r.below(6)}); break;
            case 4: case 5: fail(p.add(0, "par", {s, r.below(19), r.below(2), r.below(4), r.below(4)})); break;
            case 6: p.add(0, "badpar", {s, r.below(7), r.below(2)}); break;
            case 7: p.add(0, "verb", {s, r.in(-1, 5)}); break;
            case 8: p.add(0, "hand", {s, r.below(2), r.below(3) == 0}); break;
            case 9: case 10: fail(p.add(0, "cons", {s, r.chance(1, 6) ? 1 : r.chance(1, 6) ? 2 : 0, r.below(1000)})); break;
            case 11: case 12: p.add(0, "move", {s, r.below(NSLOT), r.below(2)}); break;
            case 13: if (r.chance(1, 3)) p.add(0, "kill", {s}); break;
            default: { Op& o = p.add(0, "init", {s, r.chance(1, 6) ? r.in(1, 4) : 0}); fail(o); break; }
        }
    };
    auto solve = [&](long s) { p.add(0, "solve", {s, r.chance(2, 3) ? 2 : r.below(2), r.chance(1, 2) ? 0 : r.in(1, 4), r.below(4), r.chance(1, 3) ? 1 : r.in(2, 5), r.in(1, 20), r.below(10000), r.chance(1, 8)}); };
    for (long k = r.in(1, 5); k > 0; --k) {
        long s = r.below(NSLOT); bool full = r.chance(3, 4);
        { Op& o = p.add(0, "create", {s, r.below(3), r.below(NSOL), r.below(NMAT), r.below(NX), r.chance(1, 10)}); fail(o); }
        for (long j = r.below(3); j > 0; --j) one(s);
        if (full) { p.add(0, "setf", {s, r.below(4)}); if (r.chance(3, 4)) { p.add(0, "setm", {s, r.in(-1, NMAT - 1)}); p.add(0, "setx", {s, r.below(NX)}); p.add(0, "setls", {s, r.below(NSOL)}); } if (r.chance(1, 3)) one(s); p.add(0, "init", {s, 0}); }
        for (long j = r.in(1, 5); j > 0; --j) { if (r.chance(1, 2)) solve(s); else one(r.chance(3, 4) ? s : r.below(NSLOT)); }
        if (full && r.chance(1, 2)) { long d = r.below(NSLOT); p.add(0, "move", {s, d, r.below(2)}); solve(d); }
    }
    gen_schedule(p, r, 2000);
}
Register reg_solvers(Scenario{"C26", "nonlinear-solver", 2, gen_solvers, run_solvers});
} // namespace
