#include "fem_rt.inc"
namespace fj {
extern const RtFns rt_2 = {Rt<DfuncTraits<PerTetra,false>>::req, Rt<DfuncTraits<PerTetra,false>>::plain, Rt<DfuncTraits<PerTetra,false>>::dyn};
extern const RtFns rt_7 = {Rt<DfuncTraits<TENSOR_SCALAR,true>>::req, Rt<DfuncTraits<TENSOR_SCALAR,true>>::plain, Rt<DfuncTraits<TENSOR_SCALAR,true>>::dyn};
extern const RtFns rt_12 = {Rt<DfuncTraitsFusive<>>::req, Rt<DfuncTraitsFusive<>>::plain, Rt<DfuncTraitsFusive<>>::dyn};
}
