import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
A="anifem++/inmost_interface/assembler.inl"; GE="anifem++/inmost_interface/global_enumerator.cpp"; GH="anifem++/inmost_interface/global_enumerator.h"
which=sys.argv[1:]
def seed(id,*a,**k):
    if not which or id in which: mkseed(id,*a,**k)
ASM='''
#include "demo_mesh.h"
using namespace INMOST; using namespace Ani;
const ThreadPar::Type PT = ThreadPar::Type::STD;
typedef AssemblerT<DefaultParallelAssemblerTraits<PT>> As;
typedef MatFuncWrapDynamic<PT, double, long> Func; typedef MatSparsity<long> SP;
// local matrix and right-hand side: value(argument, i, j) and value(argument, i, -1); the argument is the number of the cell
void configure(As& as, Mesh* m, DofT::DofMap map, int n, int threads, std::function<double(double, int, int)> value) {
    as.SetMesh(*m); as.SetProbDescr(describe<As>(map));
    as.m_assm_traits.num_threads = threads;
    as.SetMatRHSFunc(Func([n, value](const double** a, double** r, double*, long*, void*, DynMem<double, long>*) {
        for (int i = 0; i < n; ++i) { r[1][i] = value(a[0][0], i, -1); for (int j = 0; j < n; ++j) r[0][j * n + i] = value(a[0][0], i, j); }
        return 0; }, std::vector<SP>{SP::make_as_dense(1, 1)}, std::vector<SP>{SP::make_as_dense(n, n), SP::make_as_dense(n, 1)}, 0, 0, false, false));
    as.SetDataGatherer([](ElementalAssembler& p) { double c = p.cell->LocalID(); const double* args[] = {&c}; p.compute(args, nullptr); });
}
'''
seed("asm-status-last-worker","C10",[(A,"        status = std::min(status, m_wm[i].status);","        status = m_wm[i].status;")],
 "assembly with several workers, where a worker other than the last one meets an invalid local value",
 "the assembly reports success although a part of the system is missing",ASM+'''
int main() {
    Fan fan(8); int bad = 0;
    for (int c = 0; c < 8; ++c) {
        As as; configure(as, fan.m[0].get(), DofT::DofMap(Dof<FemFix<FEM_P0>>::Map()), 1, 2, [c](double k, int, int j) { return k == c && j < 0 ? NAN : 1.0; });
        as.SetEnumerator(GlobEnumeration(GlobEnumeration::NATURAL)); as.PrepareProblem();
        Sparse::Matrix M; Sparse::Vector V;
        if (as.Assemble(M, V) >= 0) { printf("assembly of cell %d failed, but success is reported\\n", c); ++bad; }
    }
    return bad ? 1 : 0;
}
''',inmost=True)
seed("asm-rhs-before-lock","C10",[(A,"""                if (nthreads > 1) L.Lock(rid.id);
                rhs[rid.id] += rid.sign * m_w.m_F[i];
                for(int j = 0; j < nRows; j++){
                    auto cid = internals::assemble_index_decode(m_w.m_indexesC[j]);
                    if(cid.id < 0 || cid.id >= m_enum.getMatrixSize()){
                        internals::print_assemble_matrix_indeces_incompatible(std::cout, m_mesh,
                                                                    m_w.m_indexesC, m_enum.getNumElem(), m_enum.getBegElemID(),
                                                                    m_enum.getEndElemID(), m_enum.getMatrixSize(), m_enum.getBegInd(), m_enum.getEndInd(), nRows, i);
                        abort();
                    }
                    if(!use_ordered_insert""","""                rhs[rid.id] += rid.sign * m_w.m_F[i];
                if (nthreads > 1) L.Lock(rid.id);
                for(int j = 0; j < nRows; j++){
                    auto cid = internals::assemble_index_decode(m_w.m_indexesC[j]);
                    if(cid.id < 0 || cid.id >= m_enum.getMatrixSize()){
                        internals::print_assemble_matrix_indeces_incompatible(std::cout, m_mesh,
                                                                    m_w.m_indexesC, m_enum.getNumElem(), m_enum.getBegElemID(),
                                                                    m_enum.getEndElemID(), m_enum.getMatrixSize(), m_enum.getBegInd(), m_enum.getEndInd(), nRows, i);
                        abort();
                    }
                    if(!use_ordered_insert""")],
 "two workers add to the right-hand side of one degree of freedom at the same time (between reading and writing of the sum)",
 "contributions to the right-hand side are lost",ASM+'''
int main() {
    const int nc = 20000; Fan fan(nc);
    As as; configure(as, fan.m[0].get(), DofT::DofMap(Dof<FemFix<FEM_P1>>::Map()), 4, 8, [](double, int, int j) { return j < 0 ? 1.0 : 0.0; });
    as.SetEnumerator(GlobEnumeration(GlobEnumeration::NATURAL)); as.PrepareProblem();
    for (int rep = 0; rep < 40; ++rep) {
        Sparse::Matrix M; Sparse::Vector V;
        if (as.Assemble(M, V) < 0) return 3;
        double s = 0; for (unsigned i = V.GetFirstIndex(); i < V.GetLastIndex(); ++i) s += V[i];
        if (s != 4.0 * nc) { printf("sum of the right-hand side is %g instead of %g\\n", s, 4.0 * nc); return 1; }
    }
    return 0;
}
''',inmost=True)
seed("enum-ghost-cells","C11",[(GE,"""    for (unsigned i = 0; i < index_tags.size(); ++i) index_tags[i].Clear();
    for (int i = 0; i < 4; ++i) if (i_nd[i] > 0){
        auto loc_et = INMOST::ElementTypeFromDim(i);
        if (!mesh->HaveTag(prefix + postfix[i])){
            index_tags[i].tag = mesh->CreateTag(prefix + postfix[i], INMOST::DATA_INTEGER, loc_et, INMOST::NONE, i_nd[i]);
        } else
            throw std::runtime_error("Tag with name \\"" + prefix + postfix[i] + "\\" already exists");
        for (auto it = mesh->BeginElement(loc_et); it != mesh->EndElement(); ++it) if (it->GetStatus() != INMOST::Element::Ghost){
            for (unsigned k = 0; k < i_nd[i]; ++k){
                auto id = getFullIndex(it->getAsElement(), k);
                it->IntegerArray(index_tags[i].tag)[k] = operator()(id).id;
            }
        }
        mesh->ExchangeData(index_tags[i].tag, loc_et);""","""    for (unsigned i = 0; i < index_tags.size(); ++i) index_tags[i].Clear();
    for (int i = 0; i < 4; ++i) if (i_nd[i] > 0){
        auto loc_et = INMOST::ElementTypeFromDim(i);
        if (!mesh->HaveTag(prefix + postfix[i])){
            index_tags[i].tag = mesh->CreateTag(prefix + postfix[i], INMOST::DATA_INTEGER, loc_et, INMOST::NONE, i_nd[i]);
        } else
            throw std::runtime_error("Tag with name \\"" + prefix + postfix[i] + "\\" already exists");
        for (auto it = mesh->BeginElement(loc_et); it != mesh->EndElement(); ++it) if (it->GetStatus() != INMOST::Element::Ghost){
            for (unsigned k = 0; k < i_nd[i]; ++k){
                auto id = getFullIndex(it->getAsElement(), k);
                it->IntegerArray(index_tags[i].tag)[k] = operator()(id).id;
            }
        }
        if (loc_et != INMOST::CELL) mesh->ExchangeData(index_tags[i].tag, loc_et);""")],
 "several ranks and a variable with degrees of freedom on cells",
 "the numbers of degrees of freedom of ghost cells are not those of their owners","""
#include "demo_mesh.h"
using namespace INMOST; using namespace Ani;
int main() {
    Fan fan(6, 2, [](int c) { return c < 3 ? 0 : 1; }); int bad = 0; std::map<int, int> num[2];
    fan.run([&](int q) {
        FemExprDescr d = describe<void>(DofT::DofMap(Dof<FemFix<FEM_P0>>::Map())); Mesh* m = fan.m[q].get();
        for (ElementType t : {NODE, EDGE, FACE, CELL}) if (!m->HaveGlobalID(t)) m->AssignGlobalID(t);
        GlobEnumeration e(GlobEnumeration::MINIBLOCKS); e.setMesh(m); e.setVars(d.TrialFuncs()); e.setup();
        for (auto it = m->BeginElement(CELL); it != m->EndElement(); ++it) num[q][it->GlobalID()] = e.OrderC(GlobEnumeration::NaturalIndex(it->getAsElement(), DofT::CELL, 0, 0, 0)).id;
    });
    for (auto& p : num[0]) if (num[1].count(p.first) && num[1][p.first] != p.second) { printf("cell %d has number %d on rank 0, %d on rank 1\\n", p.first, p.second, num[1][p.first]); ++bad; }
    return bad ? 1 : 0;
}
""",inmost=True)
seed("enum-node-local-number","C11",[(GH,"""    std::array<TagOwned, 4>& getIndexTags() { return index_tags; }
    const std::array<TagOwned, 4>& getIndexTags() const { return index_tags; }

    INMOST::Storage::integer GNodeIndex(const INMOST::Node& n) const override { return n.GlobalID(); }
    void Clear() override;
    EnumerateIndex OrderC(const NaturalIndex& physIndex) const override;
    EnumerateIndex operator()(const NaturalIndex& physIndex) const override;
    NaturalIndex operator()(EnumerateIndex vi) const override;""","""    std::array<TagOwned, 4>& getIndexTags() { return index_tags; }
    const std::array<TagOwned, 4>& getIndexTags() const { return index_tags; }

    INMOST::Storage::integer GNodeIndex(const INMOST::Node& n) const override { return n.LocalID(); }
    void Clear() override;
    EnumerateIndex OrderC(const NaturalIndex& physIndex) const override;
    EnumerateIndex operator()(const NaturalIndex& physIndex) const override;
    NaturalIndex operator()(EnumerateIndex vi) const override;""")],
 "several ranks on which the local numbers of the nodes of a shared face are ordered differently than the global ones, and degrees of freedom that depend on the orientation",
 "cells on the two sides of a face that belong to different ranks see different orientations of the face: their contributions are added with the wrong signs",ASM+'''
int main() {
    int bad = 0;
    for (int shape = 0; shape < 6; ++shape) {
        auto rank = [shape](int c) { return shape == 0 ? c / 3 : shape == 1 ? 1 - c / 3 : shape == 2 ? c % 2 : shape == 3 ? 1 - c % 2 : shape == 4 ? (c >= 2 && c < 4) : !(c >= 2 && c < 4); };
        Fan fan(6, 2, rank); std::map<std::pair<unsigned, unsigned>, double> a;
        fan.run([&](int q) {
            As as; configure(as, fan.m[q].get(), DofT::DofMap(Dof<FemFix<FEM_RT0>>::Map()), 4, 1, [](double, int i, int j) { return j < 0 ? 1.0 : i == j ? 4.0 : 1.0; });
            as.SetEnumerator(GlobEnumeration(GlobEnumeration::MINIBLOCKS)); as.PrepareProblem();
            Sparse::Matrix M; Sparse::Vector V;
            if (as.Assemble(M, V) < 0) { ++bad; return; }
            for (unsigned i = V.GetFirstIndex(); i < V.GetLastIndex(); ++i) for (auto& e : M[i].e) a[{i, e.first}] = e.second;
        });
        // symmetric local matrices make a symmetric matrix, whichever ranks own its rows
        int wrong = 0;
        for (auto& e : a) { auto t = a.find({e.first.second, e.first.first}); wrong += t == a.end() || t->second != e.second; }
        if (wrong) { printf("distribution %d: %d entries differ from the transposed ones\\n", shape, wrong); ++bad; }
    }
    return bad ? 1 : 0;
}
''',inmost=True)
OI="anifem++/fem/operators.inl"; FS="anifem++/fem/fem_space.cpp"; CI="anifem++/fem/operations/core.inl"; DI="anifem++/fem/operations/dyn_ops.inl"; IM="anifem++/interval/interval_map.inl"
FEMSRC="anifem++/fem/*.cpp"
FEM='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <atomic>
#include <new>
#include "anifem++/fem/operators.h"
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/operations/operations.h"
using namespace Ani;
static double P[12] = {0, 0, 0, 2, 1, 1, 1, 2, 1, 2, 1, 2};
static Tetra<const double> XYZ(P, P + 3, P + 6, P + 9);
'''
seed("union-shared-scratch","C06",[(FS,"        std::vector<double> acc(static_cast<std::size_t>(fusion), 0.0);","        static std::vector<double> acc;\n        acc.assign(static_cast<std::size_t>(fusion), 0.0);")],
 "two tasks interpolate on a union space at the same time and one of them is interrupted between the parts of its sum (for example in its callback)",
 "a degree of freedom interpolated by one task contains contributions of the other task",FEM+'''
static std::atomic<int> stage{0};
int main() {
    FemSpace s = FemSpace(P1Space()) + FemSpace(BubbleSpace());
    uint nf = s.dofMap().NumDofOnTet();
    auto run = [&](int who, std::vector<double>& r) {
        r.assign(nf, 0.0); std::vector<char> raw;
        auto req = s.base()->interpolateOnDOF_mem_req(nf - 1, 5); raw.resize(req.enoughRawSize()); req.allocateFromRaw(raw.data(), raw.size());
        s.base()->interpolateOnDOF(XYZ, [](const std::array<double, 3>& X, double* res, uint, void* u) { 
            int w = *(int*)u; *res = w ? 7 + X[0] : 1 + X[1] * X[1];
            if (w == 0 && X[0] + X[1] > 2.2) { int e = 0; if (stage.compare_exchange_strong(e, 1)) while (stage.load() != 2) std::this_thread::yield(); }
            return 0; }, ArrayView<>(r.data(), nf), nf - 1, req, &who, 5);
    };
    std::vector<double> alone, both, other;
    stage = 2; run(0, alone);
    stage = 0;
    std::thread a([&] { run(0, both); stage = 2; });
    std::thread b([&] { while (stage.load() == 0) std::this_thread::yield(); run(1, other); stage = 2; });
    a.join(); b.join();
    for (uint i = 0; i < nf; ++i) if (alone[i] != both[i]) { printf("dof %u: %g alone, %g together with another task\\n", i, alone[i], both[i]); return 1; }
    return 0;
}
''',srcs=FEMSRC)
seed("union-coefs-half-made","C09",[(OI,"                static const std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> coefs = compute();\n                return coefs;","                static std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> coefs{};\n                static bool ready = false;\n                if (!ready){\n                    ready = true;\n                    coefs = compute();\n                }\n                return coefs;")],
 "memory runs out during the very first use of a compile-time union of finite element spaces",
 "every later interpolation on that union returns zeros",FEM+'''
static long fail = -1, count = 0;
void* operator new(size_t n) { if (fail >= 0 && count++ == fail) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
    using U = FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>;
    fail = 0; count = 0; try { U::GetOrthBasisShiftMatrix(); } catch (const std::bad_alloc&) {} fail = -1;
    auto M = U::GetOrthBasisShiftMatrix();
    for (int i = 0; i < 5; ++i) if (M(i, i) != 1) { printf("the second use gives %g\\n", M(i, i)); return 1; }
    return 0;
}
''',srcs=FEMSRC)
seed("int-extra-square","C07",[(CI,"extraR = std::max(extraR, static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value*f));","extraR = std::max(extraR, static_cast<std::size_t>(OpA::Nfa::value*OpA::Nfa::value*f));")],
 "integral with different spaces where the test space has many more degrees of freedom than the trial space and few quadrature points",
 "the reported workspace is too small: the computation writes behind it",FEM+'''
template <class A, class B> int check(const char* name, int order) {
    auto d = [](const std::array<double, 3>& x, double* D, std::pair<ulong, ulong> n, void*, int) { for (ulong i = 0; i < n.first * n.second; ++i) D[i] = 1 + i + x[0]; return TENSOR_GENERAL; };
    auto req = fem3Dtet_memory_requirements<A, B>(order);
    const int G = 4096; std::vector<double> buf(req.dSize + G, 12345.0); std::vector<int> ib(req.iSize + G, 777);
    auto mem = req; mem.ddata = buf.data(); mem.idata = ib.data();
    std::vector<double> M(A::Nfa::value * B::Nfa::value); DenseMatrix<> R(M.data(), B::Nfa::value, A::Nfa::value);
    fem3Dtet<A, B, DfuncTraits<TENSOR_GENERAL>>(XYZ, d, R, mem, order);
    for (int i = 0; i < G; ++i) if (buf[req.dSize + i] != 12345.0 || ib[req.iSize + i] != 777) { printf("%s: written behind the workspace\\n", name); return 1; }
    return 0;
}
int main() {
    int bad = 0;
    bad += check<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FemFix<FEM_P3>>>("P0 x P3", 1);
    bad += check<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FemFix<FEM_P2>>>("P0 x P2", 1);
    bad += check<Operator<IDEN, FemFix<FEM_P1>>, Operator<IDEN, FemFix<FEM_P3>>>("P1 x P3", 1);
    bad += check<Operator<GRAD, FemFix<FEM_P1>>, Operator<IDEN, FemVec<3, FEM_P2>>>("GRAD P1 x P2^3", 1);
    bad += check<Operator<IDEN, FemVec<3, FEM_P0>>, Operator<IDEN, FemVec<3, FEM_P3>>>("P0^3 x P3^3", 1);
    bad += check<Operator<IDEN, FemFix<FEM_P0>>, Operator<DIV, FemVec<3, FEM_P3>>>("P0 x DIV P3^3", 1);
    return bad ? 1 : 0;
}
''',srcs=FEMSRC)
seed("curl-keeps-old-entries","C08",[(FS,"            std::fill(U.data, U.data + 3*mem.q*3*lnfa*mem.f, 0);\n            if (Vx.nparts == 1){\n                DenseMatrix<> V = Vx.data[0];\n                for (std::size_t r = 0; r < mem.f; ++r)\n                    for (std::size_t n = 0; n < mem.q; ++n){\n                        auto i = IJL","            std::fill(U.data, U.data + 3*mem.q*3*lnfa, 0);\n            if (Vx.nparts == 1){\n                DenseMatrix<> V = Vx.data[0];\n                for (std::size_t r = 0; r < mem.f; ++r)\n                    for (std::size_t n = 0; n < mem.q; ++n){\n                        auto i = IJL")],
 "rotor of a vector space computed for several tetrahedra at once in a workspace that was used before",
 "entries of the matrix of the operator that have to be zero are left over from earlier computations",FEM+'''
static double Q[24] = {0, 0, 0, 0, 0, 0,  2, 1, 1, 2, 1, 1,  1, 2, 1, 1, 2, 1,  2, 1, 2, 2, 1, 3};
int main() {
    FemSpace s = FemSpace(P2Space()) ^ 3; ApplyOpFromSpaceView op(CURL, s.base().get());
    auto two = make_tetras(Q, Q + 6, Q + 12, Q + 18, 2);
    auto d = [](const std::array<double, 3>& x, double* D, std::pair<uint, uint> n, void*, int) { for (uint i = 0; i < n.first * n.second; ++i) D[i] = 1 + i + x[0]; return TENSOR_GENERAL; };
    auto req = fem3Dtet_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(op, op, 2, 2);
    std::vector<double> first; 
    for (double fill : {0.0, 1e3}) {
        std::vector<char> raw(req.enoughRawSize() + 64); auto mem = req; mem.allocateFromRaw(raw.data(), raw.size());
        std::fill(mem.ddata, mem.ddata + mem.dSize, fill);
        std::vector<double> M(2 * 30 * 30); DenseMatrix<> A(M.data(), 30, 60);
        fem3Dtet<DfuncTraits<TENSOR_GENERAL>>(two, op, op, d, A, mem, 2);
        if (first.empty()) first = M; else if (first != M) { printf("the result depends on the previous contents of the workspace\\n"); return 1; }
    }
    return 0;
}
''',srcs=FEMSRC)
seed("face-block-given-back","C08",[(DI,"""        auto req = fem3Dface_memory_requirements<FuncTraits>(applyOpU, applyOpV, order, XYZ.fusion); 
        auto mem = wmem.alloc(req.dSize, req.iSize, req.mSize);
        req = mem.m_mem;""","""        auto req = fem3Dface_memory_requirements<FuncTraits>(applyOpU, applyOpV, order, XYZ.fusion); 
        req = wmem.alloc(req.dSize, req.iSize, req.mSize).getPlainMemoryX();""")],
 "face integral with memory from a pool, whose coefficient callback takes its own temporary memory from the same pool",
 "the callback is given the workspace of the running computation: the result differs from that with any other source of memory",FEM+'''
static DynMem<> pool;
int main() {
    FemSpace s{P2Space()}; ApplyOpFromSpaceView op(GRAD, s.base().get());
    auto d = [](const std::array<double, 3>& x, double* D, std::pair<uint, uint> n, void*, int) { 
        auto t = pool.alloc(400, 0, 0); auto m = t.getPlainMemoryX(); std::fill(m.ddata, m.ddata + 400, 5.0); // scratch of the callback
        for (uint i = 0; i < n.first * n.second; ++i) D[i] = (i % 4 == 0) + x[0] * m.ddata[i]; return TENSOR_GENERAL; };
    std::vector<double> M1(100), M2(100); DenseMatrix<> A(M1.data(), 10, 10), B(M2.data(), 10, 10);
    fem3Dface<DfuncTraits<TENSOR_GENERAL>>(XYZ, 1, op, op, d, A, pool, 4);
    auto req = fem3Dface_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(op, op, 4);
    std::vector<char> raw(req.enoughRawSize() + 64); req.allocateFromRaw(raw.data(), raw.size());
    fem3Dface<DfuncTraits<TENSOR_GENERAL>>(XYZ, 1, op, op, d, B, req, 4);
    if (M1 != M2) { printf("the result depends on the source of memory\\n"); return 1; }
    return 0;
}
''',srcs=FEMSRC)
seed("interval-refused-insert","C12",[(IM,"        if (r.second) boundary_status |= 1;","        boundary_status |= 1;")],
 "an insertion of a range without lower bound is refused since it overlaps a range with another value, and a later lookup below all ranges",
 "the refused insertion changes the map: keys below the first range are found",'''
#include <cstdio>
#include <algorithm>
#include <stdexcept>
#include <list>
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include "anifem++/interval/interval_map.h"
int main() {
    Ani::interval_map<int, int> m;
    m.insert(5, 10, 1); m.insert(20, 30, 2);
    auto r = m.insert(Ani::infinite_t(), 7, 3);
    if (r.second) return 3;
    if (m.contains(0)) { printf("a refused insertion added keys\\n"); return 1; }
    return 0;
}
''')
