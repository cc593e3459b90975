#include "fem_st.inc"
namespace fj {
const StFns* st_1() { static const StFns s = mk<Operator<IDEN,FemFix<FEM_P2>>, Operator<IDEN,FemFix<FEM_P1>>>("P2 . P1"); return &s; }
const StFns* st_7() { static const StFns s = mk<Operator<GRAD,FemUnionT<FemFix<FEM_P1>,FemFix<FEM_B4>>>, Operator<IDEN,FemVecT<3,FemFix<FEM_P1>>>>("grad (P1+B4) . P1^3"); return &s; }
const StFns* st_12() { static const StFns s = mk<Operator<GRAD,FemVec<3,FEM_P1>>, Operator<GRAD,FemVec<3,FEM_P1>>>("grad P1^3 . grad P1^3"); return &s; }
}
