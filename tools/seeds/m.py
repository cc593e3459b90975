import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
A="anifem++/utils/adapt_mesh.cpp"; M="anifem++/utils/mesh_utils.cpp"
which=sys.argv[1:]
open("/tmp/sim.h","w").write("// the stand-in of the mesh library needs nothing else here\nnamespace sim { struct Quiet {}; }\n")
def mesh(id,*a,**k):
    if not which or id in which: mkseed(id,"C27",*a,flags='-I"$H" -DUSE_MPI -DUSE_PARTITIONER',srcs=M,extra=("/verif/stubs/meshgen/inmost.h","/tmp/sim.h"),**k)
def metr(id,*a,**k):
    if not which or id in which: mkseed(id,"C29",*a,inmost=True,srcs=" "+A+" anifem++/utils/utils.cpp",**k)
GEN=r'''
#include <thread>
#include <set>
#include <cstdio>
#include "inmost.h"
#include "anifem++/utils/mesh_utils.h"
using namespace INMOST;
std::mutex mu; std::vector<std::unique_ptr<Group>> own; std::vector<Group*> groups;
void group(std::vector<int> l) { own.emplace_back(new Group); own.back()->member = l; own.back()->m = &mu; groups.push_back(own.back().get()); }
double volume(const std::vector<Tet>& l) { double s = 0; for (auto& t : l) { double d[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) d[i][k] = t.x[i + 1][k] - t.x[0][k];
    s += std::fabs(d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0]) + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0])) / 6; } return s; }
// runs f(process) on n processes that take turns between collective operations
template <class F> void all(int n, F f) { std::vector<std::thread> t; for (int q = 0; q < n; ++q) t.emplace_back([=] { std::unique_lock<std::mutex> lk(mu); Proc p; p.id = q; p.lk = &lk; p.groups = &groups; proc() = &p; f(q); proc() = nullptr; }); for (auto& x : t) x.join(); }
std::set<std::array<P3, 4>> seen; int twice = 0; double total = 0;
void add(Mesh* m) { m->tets(); total += volume(m->own); for (auto& t : m->own) { auto x = t.x; std::sort(x.begin(), x.end()); twice += !seen.insert(x).second; } }
int judge(double vol, size_t cells) { printf("volume %g of %g, %zu cells of %zu, %d twice\n", total, vol, seen.size(), cells, twice); return !(std::fabs(total - vol) < 1e-9 * vol && seen.size() == cells && !twice); }
'''
mesh("parts-lose-second-axis",[(M,"rank / procs_per_axis[0] % procs_per_axis[1]","rank / procs_per_axis[0] % procs_per_axis[0]")],
 "a number of processes for which the first two axes are divided differently",
 "processes generate the same part of the domain and nobody generates some other part",GEN+r'''
int main() {
    const int n = 8; std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(i); group(w);
    all(n, [](int) { auto m = GenerateParallelepiped(0, {16, 64, 4}, {2, 8, 1}, {0, 0, 0}); add(m.get()); });
    return judge(16, 16 * 64 * 4 * 6);
}
''')
mesh("parts-by-rank-of-world",[(M,"    rank = m->GetProcessorRank(); //","""    rank = m->GetProcessorRank();
#if defined(USE_MPI)
    MPI_Comm_rank(INMOST_MPI_COMM_WORLD, &rank);
#endif
    //""")],
 "a mesh generated by some of the processes only",
 "the part of a process is that of its number among all processes: parts lie outside of the domain or are generated twice",GEN+r'''
int main() {
    group({0, 1, 2, 3}); group({1, 3});
    int out = 0; all(4, [&](int q) { if (q % 2) { auto m = GenerateParallelepiped(1, {4, 3, 2}, {4, 3, 2}, {0, 0, 0}); add(m.get()); for (auto& x : m->nodes) out += x[0] > 4.001 || x[1] > 3.001 || x[2] > 2.001; } });
    printf("%d nodes outside of the domain\n", out); return judge(24, 24 * 6) || out;
}
''')
HEAD=r'''
#include <cstring>
#include "demo_mesh.h"
#include "anifem++/utils/adapt_mesh.h"
#include "anifem++/utils/utils.h"
using namespace INMOST; using namespace Ani;
'''
FIELD=r'''
// sets a P2 function on all nodes and edges of a mesh
void fill(Mesh& m, Tag t) {
    auto u = [](double x, double y, double z) { return std::sin(3 * x) * std::cos(2 * y) + x * z + 2 * z * z + std::exp(x * y); };
    for (int k = 0; k < m.count(0); ++k) m.RealArray(ComposeHandle(0, k), t)[0] = u(m.xyz[3 * k], m.xyz[3 * k + 1], m.xyz[3 * k + 2]);
    for (int k = 0; k < m.count(1); ++k) { auto& n = m.nodes_of[1][k]; double c[3]; for (int i = 0; i < 3; ++i) c[i] = (m.xyz[3 * HandleLid(n[0]) + i] + m.xyz[3 * HandleLid(n[1]) + i]) / 2; m.RealArray(ComposeHandle(1, k), t)[0] = u(c[0], c[1], c[2]); }
}
'''
RANKS=r'''
// metrics at the nodes of the fan, by the first or the last rank that sees a node
std::vector<std::array<double, 6>> metrics(int nr, bool last) {
    Fan f(9, nr, [nr](int c) { return c * nr / 9; }); FemSpace s = choose_space_from_name("P2"); std::vector<Tag> M(nr);
    for (int q = 0; q < nr; ++q) { Tag t = createFemVarTag(f.m[q].get(), *s.dofMap().target<>(), "u"); fill(*f.m[q], t); M[q] = f.m[q]->CreateTag("metrics", DATA_REAL, NODE, NONE, 6); }
    f.run([&](int q) { Solver::mesh() = f.m[q].get(); construct_metrics(s, f.m[q]->GetTag("u"), M[q]); });
    std::vector<std::array<double, 6>> r(f.x.size());
    for (size_t n = 0; n < f.x.size(); ++n) for (int i = 0; i < nr; ++i) { int q = last ? nr - 1 - i : i; auto it = f.g2l[0][q].find((int)n); if (it == f.g2l[0][q].end()) continue; if (last && f.owner[0][n] == q) continue; auto a = f.m[q]->RealArray(ComposeHandle(0, it->second), M[q]); for (int k = 0; k < 6; ++k) r[n][k] = a[k]; break; }
    return r;
}
int compare(std::vector<std::array<double, 6>> a, std::vector<std::array<double, 6>> b, bool some) { int bad = 0; for (size_t n = 0; n < a.size(); ++n) { double s = 0, d = 0, v = 0; for (int k = 0; k < 6; ++k) s += std::fabs(a[n][k]), d += std::fabs(a[n][k] - b[n][k]), v += b[n][k] != 0; if ((v || !some) && !(d <= 1e-6 * s)) { bad = 1; printf("node %zu: differs by %g of %g\n", n, d, s); } } return bad; }
'''
metr("metrics-without-neighbours",[(A,"        m->ExchangeData(cell_H, CELL);\n","")],
 "a mesh distributed between processes: a node of the border whose metric comes from a cell of another process",
 "the metric of a node on the border of a process does not see Hessians of cells of other processes: it depends on the number of processes",HEAD+FIELD+RANKS+r'''
int main() { auto one = metrics(1, false); return compare(one, metrics(3, false), false) | compare(one, metrics(2, false), false); }
''',flags="-DSIM_SOLVER -DUSE_MPI")
metr("metrics-of-ghosts-not-sent",[(A,"""        m->ExchangeData(metrics, NODE);
""","")],
 "a mesh distributed between processes, metrics read at ghost nodes",
 "nodes that belong to another process keep the metric they had before",HEAD+FIELD+RANKS+r'''
int main() { auto one = metrics(1, false), two = metrics(3, true); int n = 0; for (size_t k = 0; k < one.size(); ++k) { Fan f(9, 3, [](int c) { return c / 3; }); bool ghost = false; for (int q = 0; q < 3; ++q) ghost |= f.g2l[0][q].count((int)k) && f.owner[0][k] != q; if (!ghost) two[k] = one[k]; else ++n; } printf("%d ghost nodes\n", n); return compare(one, two, false); }
''',flags="-DSIM_SOLVER -DUSE_MPI")
metr("metrics-shared-patch",[(A,"auto& patch = patches[static_cast<std::size_t>(nthread)];","auto& patch = patches[0];")],
 "two workers make metrics of nodes at the same time",
 "cells around two nodes are put into one list: the metric is that of another node, or the program breaks",HEAD+FIELD+r'''
#include <omp.h>
int main() {
    omp_set_num_threads(4); int bad = 0;
    for (int rep = 0; rep < 20 && !bad; ++rep) {
        Fan f(400); Mesh& m = *f.m[0]; FemSpace s = choose_space_from_name("P2"); Tag t = createFemVarTag(&m, *s.dofMap().target<>(), "u"); fill(m, t);
        Tag a = m.CreateTag("a", DATA_REAL, NODE, NONE, 6), b = m.CreateTag("b", DATA_REAL, NODE, NONE, 6);
        omp_set_num_threads(1); construct_metrics(s, t, a); omp_set_num_threads(4); construct_metrics(s, t, b);
        for (int n = 0; n < m.count(0); ++n) { auto x = m.RealArray(ComposeHandle(0, n), a), y = m.RealArray(ComposeHandle(0, n), b); for (int k = 0; k < 6; ++k) bad |= !(std::fabs(x[k] - y[k]) <= 1e-9 * (1 + std::fabs(x[k]))); }
    }
    printf("%s\n", bad ? "metrics depend on the number of workers" : "same metrics"); return bad;
}
''',flags="-DSIM_SOLVER -DWITH_OPENMP -fopenmp")
metr("metrics-boost-kept",[(A,"                        dense_copy(AbsH, AbsH0);\n","")],
 "a cell whose Hessian is degenerate and stays degenerate with the largest degree of freedom increased",
 "the metric is made from the Hessian of the changed degrees of freedom",HEAD+r'''
int main() {
    // u = x^2 has one non-zero second derivative everywhere: the same metric for any boost
    Fan f(1); Mesh& m = *f.m[0]; FemSpace s = choose_space_from_name("P2"); Tag t = createFemVarTag(&m, *s.dofMap().target<>(), "u");
    for (int k = 0; k < m.count(0); ++k) m.RealArray(ComposeHandle(0, k), t)[0] = 0;
    for (int k = 0; k < m.count(1); ++k) m.RealArray(ComposeHandle(1, k), t)[0] = 0;
    m.RealArray(ComposeHandle(1, 0), t)[0] = 1; // one function of an edge only
    Tag M[2]; int bad = 0; for (int i = 0; i < 2; ++i) { M[i] = m.CreateTag(i ? "b" : "a", DATA_REAL, NODE, NONE, 6); MetricsConstructTraits tr; tr.distrib_heuristics = false; tr.H_lambda_max_rel = 1.0 + 1e-9; tr.M_lambda_max_rel = 1e9; tr.alpha_boost = i ? 3.0 : 1.0; construct_metrics(s, t, M[i], tr); }
    for (int n = 0; n < m.count(0); ++n) { auto x = m.RealArray(ComposeHandle(0, n), M[0]), y = m.RealArray(ComposeHandle(0, n), M[1]); for (int k = 0; k < 6; ++k) if (!(std::fabs(x[k] - y[k]) <= 1e-9 * (1 + std::fabs(x[k])))) bad = 1, printf("node %d entry %d: %g and %g\n", n, k, x[k], y[k]); }
    return bad;
}
''',flags="-DSIM_SOLVER")
