// computations with compile-time operators: ST(name, OpU, OpV)
#include "fem_jobs.h"
namespace fj {
namespace {
template <class OU, class OV> struct St {
    typedef DfuncTraits<PerPoint, false> TR;
    static PlainMemory<> req(const RtArgs& a) {
        switch (a.kind) {
            case 0: return fem3Dtet_memory_requirements<OU, OV>(a.order, a.f);
            case 1: return fem3Dface_memory_requirements<OU, OV>(a.order, a.f);
            case 2: return fem3DfaceN_memory_requirements<OU, OV>(a.order, a.f);
            case 3: return fem3Dedge_memory_requirements<OU, OV>(a.order, a.f);
            case 4: return fem3Dnode_memory_requirements<OU, OV>(a.f);
            case 5: return fem3DpntL_memory_requirements<OU, OV>(a.npts, a.f);
            case 6: return fem3DpntX_memory_requirements<OU, OV>(a.npts, a.f);
            case 7: return fem3DapplyL_memory_requirements<OU>(a.npts, a.f);
            default: return fem3DapplyX_memory_requirements<OU>(a.npts, a.f);
        }
    }
    template <class Me> static void call(RtArgs& a, Me&& m) {
        OneCB fn{a.cb}; auto T = make_tetras(a.P[0], a.P[1], a.P[2], a.P[3], a.f); Tetra<const double> T1(a.P[0], a.P[1], a.P[2], a.P[3]);
        switch (a.kind) {
            case 0: fem3Dtet<OU, OV, TR>(T, fn, *a.A, m, a.order, a.ud); break;
            case 1: fem3Dface<OU, OV, TR>(T, a.num, fn, *a.A, m, a.order, a.ud); break;
            case 2: fem3DfaceN<OU, OV, TR>(T, a.num, fn, *a.A, m, a.order, a.ud); break;
            case 3: fem3Dedge<OU, OV, TR>(T, a.num, fn, *a.A, m, a.order, a.ud); break;
            case 4: fem3Dnode<OU, OV, TR>(T, a.num, fn, *a.A, m, a.ud); break;
            case 5: fem3DpntL<OU, OV, TR>(T, a.XYL, a.WG, fn, *a.A, m, a.ud); break;
            case 6: fem3DpntX<OU, OV, TR>(T1, a.X, a.WG, fn, *a.A, m, a.ud); break;
            case 7: fem3DapplyL<OU>(T, a.XYL, *a.dofs, *a.A, m); break;
            default: { ArrayView<> o(a.A->data, a.A->size); fem3DapplyX<OU>(T1, a.X, ArrayView<>(a.dofs->data, a.dofs->size), o, m); break; }
        }
    }
    static void plain(RtArgs& a, PlainMemory<> m) { call(a, m); }
    static void dyn(RtArgs& a, DynMem<>& m) { call(a, m); }
    // more points than the version has memory for: has to be refused
    template <class F> static void few(RtArgs& a, F f) {
        bool refused = false;
        try { f(); } catch (std::runtime_error&) { refused = true; }
        if (!refused) { sim::Quiet q; sim::violation("shortage-accepted", "version for at most 3 points accepted %d points", a.npts); }
    }
    static void stack(RtArgs& a) {
        OneCB fn{a.cb}; auto T = make_tetras(a.P[0], a.P[1], a.P[2], a.P[3], a.f); Tetra<const double> T1(a.P[0], a.P[1], a.P[2], a.P[3]);
        switch (a.kind) {
            case 0: fem3Dtet<OU, OV, TR, 3>(T, fn, *a.A, a.order, a.ud); break;
            case 1: fem3Dface<OU, OV, TR, 3>(T, a.num, fn, *a.A, a.order, a.ud); break;
            case 2: fem3DfaceN<OU, OV, TR, 3>(T, a.num, fn, *a.A, a.order, a.ud); break;
            case 3: fem3Dedge<OU, OV, TR, 3>(T, a.num, fn, *a.A, a.order, a.ud); break;
            case 4: fem3Dnode<OU, OV, TR, 3>(T, a.num, fn, *a.A, a.ud); break;
            case 5: fem3DpntL<OU, OV, TR, 3>(T, a.XYL, a.WG, fn, *a.A, a.ud); break;
            case 6: fem3DpntX<OU, OV, TR>(T1, a.X, a.WG, fn, *a.A, a.ud); break;
            case 7: if (a.npts > 3) few(a, [&] { fem3DapplyL<OU, 3, 3>(T, a.XYL, *a.dofs, *a.A); }); fem3DapplyL<OU, 3, 24>(T, a.XYL, *a.dofs, *a.A); break;
            default: if (a.npts > 3) few(a, [&] { fem3DapplyX<OU, 3>(T1, a.X, ArrayView<>(a.dofs->data, a.dofs->size), ArrayView<>(a.A->data, a.A->size)); }); fem3DapplyX<OU, 24>(T1, a.X, ArrayView<>(a.dofs->data, a.dofs->size), ArrayView<>(a.A->data, a.A->size)); break;
        }
    }
};
}
template <class OU, class OV> StFns mk(const char* n) { return StFns{n, OU::Nfa::value, OV::Nfa::value, OU::Dim::value, OV::Dim::value, St<OU, OV>::req, St<OU, OV>::plain, St<OU, OV>::dyn, St<OU, OV>::stack}; }
}
