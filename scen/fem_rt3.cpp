#include "fem_rt.inc"
namespace fj {
extern const RtFns rt_3 = {Rt<DfuncTraits<PerTetra,true>>::req, Rt<DfuncTraits<PerTetra,true>>::plain, Rt<DfuncTraits<PerTetra,true>>::dyn};
extern const RtFns rt_8 = {Rt<DfuncTraits<TENSOR_SCALAR,false>>::req, Rt<DfuncTraits<TENSOR_SCALAR,false>>::plain, Rt<DfuncTraits<TENSOR_SCALAR,false>>::dyn};
}
