#include "fem_st.inc"
namespace fj {
const StFns* st_3() { static const StFns s = mk<Operator<DIV,FemVec<3,FEM_P2>>, Operator<IDEN,FemFix<FEM_P1>>>("div P2^3 . P1"); return &s; }
const StFns* st_9() { static const StFns s = mk<Operator<DUDY,FemFix<FEM_P3>>, Operator<IDEN,FemFix<FEM_CR1>>>("dudy P3 . CR1"); return &s; }
const StFns* st_13() { static const StFns s = mk<Operator<IDEN,FemVecT<3,FemFix<FEM_CR1>>>, Operator<IDEN,FemVec<3,FEM_P1>>>("CR1^3 . P1^3"); return &s; }
}
