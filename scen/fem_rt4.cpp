#include "fem_rt.inc"
namespace fj {
extern const RtFns rt_4 = {Rt<DfuncTraits<PerSelection,false>>::req, Rt<DfuncTraits<PerSelection,false>>::plain, Rt<DfuncTraits<PerSelection,false>>::dyn};
extern const RtFns rt_9 = {Rt<DfuncTraits<TENSOR_SYMMETRIC,true>>::req, Rt<DfuncTraits<TENSOR_SYMMETRIC,true>>::plain, Rt<DfuncTraits<TENSOR_SYMMETRIC,true>>::dyn};
}
