// run-time operator computations for one kind of tensor traits: TR and IDX are defined by the including file
#include "fem_jobs.h"
namespace fj {
namespace {
template <class TR> struct FnOf { typedef OneCB type; };
template <long i, long j> struct FnOf<DfuncTraitsFusive<i, j>> { typedef FusCB type; };
template <class TR> struct Rt {
    static PlainMemoryX<> req(const RtArgs& a) {
        switch (a.kind) {
            case 0: return fem3Dtet_memory_requirements<TR>(*a.U, *a.V, a.order, a.f);
            case 1: return fem3Dface_memory_requirements<TR>(*a.U, *a.V, a.order, a.f);
            case 2: return fem3DfaceN_memory_requirements<TR>(*a.U, *a.V, a.order, a.f);
            case 3: return fem3Dedge_memory_requirements<TR>(*a.U, *a.V, a.order, a.f);
            case 4: return fem3Dnode_memory_requirements<TR>(*a.U, *a.V, a.f);
            case 5: return fem3DpntL_memory_requirements<TR>(*a.U, *a.V, a.npts, a.f);
            case 6: return fem3DpntX_memory_requirements<TR>(*a.U, *a.V, a.npts, a.f);
            case 7: return fem3DapplyL_memory_requirements<TR>(a.d1, *a.U, a.npts, a.f);
            default: return fem3DapplyX_memory_requirements<TR>(a.d1, *a.U, a.npts, a.f);
        }
    }
    template <class M> static void call(RtArgs& a, M& m) {
        typedef typename FnOf<TR>::type F;
        F fn{a.cb};
        auto T = make_tetras(a.P[0], a.P[1], a.P[2], a.P[3], a.f);
        Tetra<const double> T1(a.P[0], a.P[1], a.P[2], a.P[3]);
        switch (a.kind) {
            case 0: fem3Dtet<TR>(T, *a.U, *a.V, fn, *a.A, m, a.order, a.ud); break;
            case 1: fem3Dface<TR>(T, a.num, *a.U, *a.V, fn, *a.A, m, a.order, a.ud); break;
            case 2: fem3DfaceN<TR>(T, a.num, *a.U, *a.V, fn, *a.A, m, a.order, a.ud); break;
            case 3: fem3Dedge<TR>(T, a.num, *a.U, *a.V, fn, *a.A, m, a.order, a.ud); break;
            case 4: fem3Dnode<TR>(T, a.num, *a.U, *a.V, fn, *a.A, m, a.ud); break;
            case 5: fem3DpntL<TR>(T, a.XYL, a.WG, *a.U, *a.V, fn, *a.A, m, a.ud); break;
            case 6: fem3DpntX<TR>(T1, a.X, a.WG, *a.U, *a.V, fn, *a.A, m, a.ud); break;
            case 7: fem3DapplyL<TR>(T, a.XYL, *a.dofs, *a.U, a.d1, fn, *a.A, m, a.ud); break;
            default: fem3DapplyX<TR>(T1, a.X, *a.dofs, *a.U, a.d1, fn, *a.A, m, a.ud); break;
        }
    }
    static void plain(RtArgs& a, PlainMemoryX<> m) { call(a, m); }
    static void dyn(RtArgs& a, DynMem<>& m) { call(a, m); }
};
}
}
