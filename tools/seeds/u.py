import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
U="anifem++/utils/utils.cpp"; I="anifem++/utils/utils.inl"
which=sys.argv[1:]
def seed(id,*a,**k):
    if not which or id in which: mkseed(id,"C28",*a,inmost=True,srcs=" anifem++/utils/utils.cpp",**k)
HEAD=r'''
#include "demo_mesh.h"
#include "anifem++/utils/utils.h"
using namespace INMOST; using namespace Ani;
void boundary(Fan& f) { std::vector<int> used(f.ent[2].size(), 0); for (auto& c : f.ent[3]) for (int i = 0; i < 4; ++i) { std::vector<int> t; for (int j = 0; j < 4; ++j) if (j != i) t.push_back(c[j]); used[f.find[2].at(t)]++; }
    for (int q = 0; q < f.nr; ++q) { f.m[q]->outer.assign(f.l2g[2][q].size(), 0); for (size_t k = 0; k < f.l2g[2][q].size(); ++k) f.m[q]->outer[k] = used[f.l2g[2][q][k]] == 1; } }
// the value of the variable at the node
double at(Mesh& m, Tag t, int node) { return m.RealArray(ComposeHandle(0, node), t)[0]; }
// waits until n cells have come here, or for a while
struct Meet { std::mutex m; std::condition_variable c; int n, here = 0; Meet(int n_) : n(n_) {} void operator()() { std::unique_lock<std::mutex> l(m); ++here; c.notify_all(); c.wait_for(l, std::chrono::milliseconds(200), [&] { return here >= n; }); } };
// u = 1 + x - 2 y + 3 z; values given where z < 0 (the lower faces), fluxes elsewhere
double u(std::array<double, 3> x) { return 1 + x[0] - 2 * x[1] + 3 * x[2]; }
'''
seed("diff-flux-of-last-face",[(U,"""            fem3Dface<DfuncTraits<>>( XYZ, k, iden_p0, iden_u, G_0, G, mem, order, &f);
            F += G;
        }
""","""            fem3Dface<DfuncTraits<>>( XYZ, k, iden_p0, iden_u, G_0, G, mem, order, &f);
        }
        if (dat.is_neumann)
            F += G;
""")],
 "a cell with two or more faces on the boundary with a flux",
 "only the flux through the last of the faces of a cell is taken into account",HEAD+r'''
int main() {
    Fan f(3); boundary(f); Mesh& m = *f.m[0]; Solver::mesh() = &m; m.AssignGlobalID(NODE | EDGE | FACE | CELL); FemSpace s = choose_space_from_name("P1"); Tag t = createFemVarTag(&m, *s.dofMap().target<>(), "u");
    // values on one face of the boundary
    HandleType df = 0; for (auto it = m.BeginFace(); it != m.EndFace(); ++it) if (m.outer[it->LocalID()]) { df = it->GetHandle(); break; }
    auto dir = [&](Element e) { if (e.GetElementNum() == 2) return e.GetHandle() == df; if (e.GetElementNum() != 0) return false; for (auto h : m.nodes_of[2][HandleLid(df)]) if (h == e.GetHandle()) return true; return false; };
    solve_stationary_diffusion(&m, s, t, dir, [](Element, std::array<double, 3> X, ArrayView<> o) { o[0] = u(X); },
        [&](Face q, std::array<double, 3>, ArrayView<> o) { // K = 1: the flux is the derivative along the outer normal
            auto n = q.getNodes(); double p[3][3], c[3] = {0, 0, 0}, v[3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) p[i][k] = n[i].Coords()[k];
            for (auto it = m.BeginCell(); it != m.EndCell(); ++it) { auto w = it->getNodes(); int same = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) same += w[i].GetHandle() == n[j].GetHandle(); if (same == 3) for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) c[k] += w[i].Coords()[k] / 4; }
            for (int k = 0; k < 3; ++k) { int a = (k + 1) % 3, b = (k + 2) % 3; v[k] = (p[1][a] - p[0][a]) * (p[2][b] - p[0][b]) - (p[1][b] - p[0][b]) * (p[2][a] - p[0][a]); }
            double d = 0, l = 0; for (int k = 0; k < 3; ++k) d += v[k] * (p[0][k] - c[k]), l += v[k] * v[k]; l = (d > 0 ? 1 : -1) / std::sqrt(l); o[0] = l * (v[0] - 2 * v[1] + 3 * v[2]); },
        [](Cell, std::array<double, 3>, DenseMatrix<> D) { D.SetEye(1); return TENSOR_NULL; });
    int bad = 0; for (int n = 0; n < m.count(0); ++n) { double e = u({{m.xyz[3 * n], m.xyz[3 * n + 1], m.xyz[3 * n + 2]}}); if (std::fabs(at(m, t, n) - e) > 1e-9) bad = 1, printf("node %d: %g instead of %g\n", n, at(m, t, n), e); }
    return bad;
}
''',flags="-DSIM_SOLVER")
seed("integral-without-partial-sums",[(U,"""                for (unsigned d = 0; d < dim; ++d)
                    lres[d] += wvol * F(d, n);""","""                for (unsigned d = 0; d < dim; ++d)
                    out[d] += wvol * F(d, n);"""),
 (U,"""    auto cycle_body = [m, dim, q, &XYL, wg, &func, &pools, &local_res](Storage::integer lid, int nthread){""","""    auto cycle_body = [m, dim, q, &XYL, wg, &func, &pools, out](Storage::integer lid, int nthread){"""),
 (U,"""        auto& lres = local_res[static_cast<std::size_t>(nthread)];
""",""),
 (U,"""    std::vector<std::vector<double>> local_res(static_cast<std::size_t>(nthreads), std::vector<double>(dim, 0.0));
""",""),
 (U,"""    for (int t = 0; t < nthreads; ++t)
        for (unsigned d = 0; d < dim; ++d)
            out[d] += local_res[static_cast<std::size_t>(t)][d];

""","")],
 "two workers add the values of their cells at the same time",
 "contributions of cells to the integral are lost",HEAD+r'''
int main() {
    const int nc = 64, dim = 200; int bad = 0;
    Fan f(nc); Mesh& m = *f.m[0]; Solver::mesh() = &m; double vol = 0; for (auto it = m.BeginCell(); it != m.EndCell(); ++it) vol += it->getAsCell().Volume();
    for (int k = 0; k < 40 && !bad; ++k) {
        std::vector<double> out(dim); Meet meet(4);
        integrate_vector_func(out.data(), dim, &m, [&](Cell, DenseMatrix<const double>, DenseMatrix<const double>, DenseMatrix<> F, DynMem<>&) { for (size_t i = 0; i < F.nRow; ++i) for (size_t j = 0; j < F.nCol; ++j) F(i, j) = (double)i; meet(); }, 15, false);
        for (int i = 0; i < dim; ++i) if (std::fabs(out[i] - i * vol) > 1e-9 * dim) bad = 1;
    }
    if (bad) printf("the integral has lost contributions\n");
    return bad;
}
''',flags="-DSIM_SOLVER -DWITH_OPENMP -fopenmp")
seed("diff-memory-made-once",[(U,"""            [&K_tensor, &F_tensor, &U_0, &G_0, order = quad_order, mem_req, shrt_req, unf, &fem, geom_mask](const double** XY/*[4]*/, double* Adat, double* Fdat, double* w, long* iw, void* user_data) -> void{""",
"""            [&K_tensor, &F_tensor, &U_0, &G_0, order = quad_order, mem = mem_req, shrt_req, unf, &fem, geom_mask](const double** XY/*[4]*/, double* Adat, double* Fdat, double* w, long* iw, void* user_data) mutable -> void{"""),
 (U,"""        PlainMemoryX<> mem = mem_req;
        mem.allocateFromPlainMemory(_mem);""","""        mem.allocateFromPlainMemory(_mem);""")],
 "several workers (OpenMP), of which one enters the local assembler while another is between two uses of the memory in it",
 "the local matrices of different cells are computed in the same memory",HEAD+r'''
int main() {
    const int nc = 24; int bad = 0;
    for (int k = 0; k < 6 && !bad; ++k) {
        Fan f(nc); boundary(f); Mesh& m = *f.m[0]; Solver::mesh() = &m; m.AssignGlobalID(NODE | EDGE | FACE | CELL); FemSpace s = choose_space_from_name("P2"); Tag t = createFemVarTag(&m, *s.dofMap().target<>(), "u"); Meet meet(4);
        auto dir = [&](Element e) { auto n = e.getNodes(); if (e.GetElementNum() == 0) return true; if (e.GetElementNum() == 2) return m.outer[e.LocalID()] != 0; return false; };
        (void)dir; std::atomic<int> seen{0};
        solve_stationary_diffusion(&m, s, t, [&](Element e) { return e.GetElementNum() == 0; }, [](Element, std::array<double, 3> X, ArrayView<> o) { o[0] = u(X); },
            [](Face, std::array<double, 3>, ArrayView<> o) { o[0] = 0; },
            [&](Cell, std::array<double, 3>, DenseMatrix<> D) { if (seen++ < 4 * 3) { static thread_local int q; if (++q % 3 == 0) meet(); } D.SetEye(1); D.data[0] = 1; return TENSOR_SCALAR; });
        // the same with one worker
        Fan f1(nc); boundary(f1); Mesh& m1 = *f1.m[0]; Solver::mesh() = &m1; m1.AssignGlobalID(NODE | EDGE | FACE | CELL); Tag t1 = createFemVarTag(&m1, *s.dofMap().target<>(), "u"); int nt = omp_get_max_threads(); omp_set_num_threads(1);
        solve_stationary_diffusion(&m1, s, t1, [&](Element e) { return e.GetElementNum() == 0; }, [](Element, std::array<double, 3> X, ArrayView<> o) { o[0] = u(X); },
            [](Face, std::array<double, 3>, ArrayView<> o) { o[0] = 0; }, [&](Cell, std::array<double, 3>, DenseMatrix<> D) { D.SetEye(1); D.data[0] = 1; return TENSOR_SCALAR; });
        omp_set_num_threads(nt);
        for (int e = 0; e < m.count(1); ++e) { double a = m.RealArray(ComposeHandle(1, e), t)[0], b = m1.RealArray(ComposeHandle(1, e), t1)[0]; if (!(std::fabs(a - b) < 1e-6)) { bad = 1; printf("edge %d: %g instead of %g\n", e, a, b); break; } }
    }
    return bad;
}
''',flags="-DSIM_SOLVER -DWITH_OPENMP -fopenmp -include omp.h")
