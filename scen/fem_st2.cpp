#include "fem_st.inc"
namespace fj {
const StFns* st_2() { static const StFns s = mk<Operator<GRAD,FemVec<3,FEM_P2>>, Operator<GRAD,FemVec<3,FEM_P2>>>("grad P2^3 . grad P2^3"); return &s; }
const StFns* st_8() { static const StFns s = mk<Operator<IDEN,FemFix<FEM_P0>>, Operator<IDEN,FemFix<FEM_P1>>>("P0 . P1"); return &s; }
}
