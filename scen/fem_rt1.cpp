#include "fem_rt.inc"
namespace fj {
extern const RtFns rt_1 = {Rt<DfuncTraits<PerPoint,true>>::req, Rt<DfuncTraits<PerPoint,true>>::plain, Rt<DfuncTraits<PerPoint,true>>::dyn};
extern const RtFns rt_6 = {Rt<DfuncTraits<TENSOR_NULL,true>>::req, Rt<DfuncTraits<TENSOR_NULL,true>>::plain, Rt<DfuncTraits<TENSOR_NULL,true>>::dyn};
extern const RtFns rt_11 = {Rt<DfuncTraits<TENSOR_GENERAL,false>>::req, Rt<DfuncTraits<TENSOR_GENERAL,false>>::plain, Rt<DfuncTraits<TENSOR_GENERAL,false>>::dyn};
}
