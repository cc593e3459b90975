#include "fem_st.inc"
namespace fj {
const StFns* st_0() { static const StFns s = mk<Operator<GRAD,FemFix<FEM_P1>>, Operator<GRAD,FemFix<FEM_P1>>>("grad P1 . grad P1"); return &s; }
const StFns* st_6() { static const StFns s = mk<Operator<IDEN,FemCom<FemVecT<3,FemFix<FEM_P2>>,FemFix<FEM_P1>>>, Operator<IDEN,FemCom<FemVecT<3,FemFix<FEM_P2>>,FemFix<FEM_P1>>>>("(P2^3,P1) . (P2^3,P1)"); return &s; }
}
