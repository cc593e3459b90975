#include "fem_st.inc"
namespace fj {
const StFns* st_5() { static const StFns s = mk<Operator<CURL,FemFix<FEM_ND0>>, Operator<IDEN,FemFix<FEM_ND0>>>("curl ND0 . ND0"); return &s; }
const StFns* st_11() { static const StFns s = mk<Operator<CURL,FemVec<3,FEM_P1>>, Operator<IDEN,FemFix<FEM_ND0>>>("curl P1^3 . ND0"); return &s; }
}
