import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
K="anifem++/kinsol_interface/SUNNonlinearSolver.cpp"
which=sys.argv[1:]
def seed(id,*a,**k):
    if not which or id in which: mkseed(id,"C26",*a,kin=True,**k)
seed("kin-jacobian-status-early",[(K,"""        int stat = sns.assm(*NV_DATA_P(x), *SM_DATA_P(J), *NV_DATA_P(tmp1));
        sns._lmat_assm_time += Timer();
""","""        int stat = sns.assm(*NV_DATA_P(x), *SM_DATA_P(J), *NV_DATA_P(tmp1));
        sns._lmat_assm_time += Timer();
        if (stat < 0) return 1;
""")],
 "several ranks, the combined function set with SetAssembler, which fails on some of the ranks only",
 "the ranks where the function works wait for ever, or go on while the others have given up",r"""
#include "demo_ranks.h"
int main() {
    int bad = 0;
    run_ranks(2, [&](int q) {
        Vector x("x", q * 2, q * 2 + 2, SimComm::mine()); Matrix m("m", q * 2, q * 2 + 2, SimComm::mine()); Solver s;
        SUNNonlinearSolver n(s, m, x); n.SetErrHandlerFn([](int, const char*, const char*, char*) {});
        n.SetAssemblerRHS(residual); n.SetAssembler([q](Vector& x, Matrix& A, Vector& b) { jacobian(x, A); residual(x, b); return q == 1 ? -1 : 0; });
        n.Init(); if (n.Solve()) ++bad, printf("rank %d: solved, although the jacobian failed\n", q);
        if (n.GetReasonFlag() != KIN_LSETUP_FAIL) ++bad, printf("rank %d: %d\n", q, n.GetReasonFlag());
    });
    return bad != 0;
}
""")
seed("kin-eta-pair",[(K,"""        _ealpha = val;
        return KINSetEtaParams(kin, _egamma, _ealpha), true;""","""        _ealpha = val;
        return KINSetEtaParams(kin, 0.0 /*keep*/, _ealpha), true;""")],
 "EtaGamma set to another value than its default, then EtaAlpha",
 "setting EtaAlpha resets EtaGamma to its default value",r"""
#include "demo_ranks.h"
int main() {
    int bad = 0;
    run_ranks(1, [&](int) {
        SUNNonlinearSolver n; SimKin* k = static_cast<SimKin*>(n.kin);
        n.SetParameterReal("EtaGamma", 0.5); n.SetParameter("EtaAlpha", "1.5");
        if (k->egamma != 0.5 || k->ealpha != 1.5) bad = 1, printf("gamma %g alpha %g\n", k->egamma, k->ealpha);
    });
    return bad;
}
""")
seed("kin-combination-in-place",[(K,"""    if (z == X[0]){
        for (auto it =xd->Begin(); it != xd->End(); ++it) (*it) *= c[0];
    } else
        for (auto itx = xd->Begin(), itz = zd->Begin(); itx != xd->End() && itz != zd->End(); ++itx, ++itz) (*itz) = c[0] * (*itx);
    for (int i = 1; i < nvec; ++i) {""","""    N_VConst_Inmost(RCONST(0), z);
    for (int i = 0; i < nvec; ++i) {""")],
 "a linear combination of three or more vectors whose result is the first of them, as in Anderson acceleration and Krylov solvers",
 "the first vector is lost: the result lacks its part",r"""
#include "demo_ranks.h"
int main() {
    int bad = 0;
    run_ranks(1, [&](int) {
        sundials::Context c; Vector v[3]; N_Vector n[3];
        for (int k = 0; k < 3; ++k) { v[k].SetInterval(0, 4); n[k] = N_VNew_Inmost(c, &v[k]); for (unsigned i = 0; i < 4; ++i) v[k][i] = k + 1; }
        double a[] = {1, 10, 100}; N_VLinearCombination_Inmost(3, a, n, n[0]);
        for (unsigned i = 0; i < 4; ++i) if (v[0][i] != 321) bad = 1, printf("component %u is %g\n", i, v[0][i]);
        for (auto q : n) N_VDestroy(q);
    });
    return bad;
}
""")
seed("kin-time-of-all-solutions",[(K,"    _gmat_assm_time = _grhs_assm_time = _lmat_assm_time = _lrhs_assm_time = 0;","    _gmat_assm_time = _grhs_assm_time = 0;")],
 "a second solution with the same object",
 "the reported assembly times of a solution contain those of the earlier ones",r"""
#include "demo_ranks.h"
int main() {
    int bad = 0;
    run_ranks(1, [&](int) {
        Vector x("x", 0, 2, SimComm::mine()); Matrix m("m", 0, 2, SimComm::mine()); Solver s; SUNNonlinearSolver n(s, m, x); double t[2], r[2];
        n.SetAssemblerRHS(residual); n.SetAssemblerMAT(jacobian); n.Init();
        for (int k = 0; k < 2; ++k) { x[0] = x[1] = 5; if (!n.Solve()) bad = 1, printf("not solved\n"); t[k] = n.GetMatAssembleTime(); r[k] = n.GetRHSAssembleTime(); }
        if (t[0] != t[1] || r[0] != r[1]) bad = 1, printf("jacobian %g, then %g; residual %g, then %g\n", t[0], t[1], r[0], r[1]);
    });
    return bad;
}
""")
