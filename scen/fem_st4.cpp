#include "fem_st.inc"
namespace fj {
const StFns* st_4() { static const StFns s = mk<Operator<IDEN,FemFix<FEM_RT0>>, Operator<IDEN,FemFix<FEM_RT0>>>("RT0 . RT0"); return &s; }
const StFns* st_10() { static const StFns s = mk<Operator<GRAD,FemVecT<3,FemUnionT<FemFix<FEM_P1>,FemFix<FEM_B4>>>>, Operator<GRAD,FemVecT<3,FemFix<FEM_P1>>>>("grad (P1+B4)^3 . grad P1^3"); return &s; }
const StFns* st_14() { static const StFns s = mk<Operator<GRAD,FemCom<FemFix<FEM_P2>,FemVec<2,FEM_P1>>>, Operator<IDEN,FemFix<FEM_P0>>>("grad (P2,P1^2) . P0"); return &s; }
}
