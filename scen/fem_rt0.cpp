#include "fem_rt.inc"
namespace fj {
extern const RtFns rt_0 = {Rt<DfuncTraits<PerPoint,false>>::req, Rt<DfuncTraits<PerPoint,false>>::plain, Rt<DfuncTraits<PerPoint,false>>::dyn};
extern const RtFns rt_5 = {Rt<DfuncTraits<PerSelection,true>>::req, Rt<DfuncTraits<PerSelection,true>>::plain, Rt<DfuncTraits<PerSelection,true>>::dyn};
extern const RtFns rt_10 = {Rt<DfuncTraits<TENSOR_GENERAL,true>>::req, Rt<DfuncTraits<TENSOR_GENERAL,true>>::plain, Rt<DfuncTraits<TENSOR_GENERAL,true>>::dyn};
}
