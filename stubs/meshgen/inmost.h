// Stand-in for the part of the INMOST mesh library that anifem++/utils/mesh_utils.cpp uses: a process builds its part of
// a mesh of tetrahedra, collective operations join the parts. Processes are simulated tasks; a running one holds the token.
#ifndef VERIF_STUB_MESHGEN_H
#define VERIF_STUB_MESHGEN_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include "sim.h"
typedef unsigned INMOST_DATA_ENUM_TYPE; typedef double INMOST_DATA_REAL_TYPE; typedef int INMOST_DATA_INTEGER_TYPE;
typedef int INMOST_MPI_Comm;
#define INMOST_MPI_COMM_WORLD 0
namespace INMOST {
typedef unsigned ElementType;
static const ElementType NONE = 0, NODE = 1, EDGE = 2, FACE = 4, CELL = 8;
typedef unsigned HandleType;
class Mesh;
struct Storage { typedef double real; typedef int integer; typedef unsigned enumerator; };
struct Element : Storage { Mesh* m = nullptr; HandleType h = 0; Element() {} Element(Mesh* m_, HandleType h_) : m(m_), h(h_) {} HandleType GetHandle() const { return h; } bool isValid() const { return m && h; } };
struct Node : Element { using Element::Element; }; struct Cell : Element { using Element::Element; };
template <class T> class ElementArray {
    Mesh* m; std::vector<HandleType> h;
public:
    ElementArray() : m(nullptr) {} explicit ElementArray(Mesh* m_) : m(m_) {}
    void reserve(size_t n) { assert(n < (1u << 24) && "the array of elements does not fit into memory"); h.reserve(n); }
    size_t size() const { return h.size(); } bool empty() const { return h.empty(); } void clear() { h.clear(); }
    void push_back(const T& x) { assert(x.m == m && "an element of another mesh"); h.push_back(x.h); }
    T operator[](size_t i) const { assert(i < h.size() && "element outside of the array"); return T(m, h[i]); }
    T at(size_t i) const { return (*this)[i]; } T back() const { return (*this)[h.size() - 1]; }
};
// a communicator: member[k] is the simulated process of rank k
struct Group {
    std::vector<int> member; std::mutex* m; std::condition_variable cv; int arrived = 0; long gen = 0; std::string kind; std::vector<Mesh*> slot; std::vector<void*> data; long calls = 0;
    int rank_of(int proc) const { for (size_t k = 0; k < member.size(); ++k) if (member[k] == proc) return (int)k; return -1; }
};
struct Proc { int id = 0; std::unique_lock<std::mutex>* lk = nullptr; std::vector<Group*>* groups = nullptr; };
inline Proc*& proc() { static thread_local Proc* p = nullptr; return p; }
template <class F> void collective(INMOST_MPI_Comm c, const std::string& kind, Mesh* m, void* data, F op) {
    assert(c >= 0 && (size_t)c < proc()->groups->size() && "unknown communicator"); Group& g = *(*proc()->groups)[(size_t)c]; int r = g.rank_of(proc()->id); assert(r >= 0 && "the process does not belong to the communicator");
    assert((!g.arrived || g.kind == kind) && "processes are in different collective operations");
    g.kind = kind; g.slot.resize(g.member.size()); g.data.resize(g.member.size()); g.slot[(size_t)r] = m; g.data[(size_t)r] = data;
    if (++g.arrived == (int)g.member.size()) { { sim::Quiet q; op(g); } g.arrived = 0; ++g.gen; ++g.calls; g.cv.notify_all(); return; }
    long t = g.gen; while (g.gen == t) g.cv.wait(*proc()->lk);
}
typedef std::array<double, 3> P3;
struct Tet { std::array<P3, 4> x; int part = -1; };
class Mesh : public Storage {
public:
    std::vector<P3> nodes; std::vector<std::array<HandleType, 4>> cells; std::vector<int> part; // part: of the partition
    std::vector<Tet> ghosts; std::vector<Tet> own; bool moved = false, sparse = false, resolved = false, partitioned = false, changed = true; int ghost_layers = 0; ElementType bridge = NONE;
    INMOST_MPI_Comm comm = -1;
    static long& alive() { static long n = 0; return n; }
    Mesh() { ++alive(); } ~Mesh() { --alive(); } Mesh(const Mesh&) = delete;
    void SetCommunicator(INMOST_MPI_Comm c) { assert((nodes.empty() || c == comm || same(c)) && "the communicator changes"); comm = c; }
    bool same(INMOST_MPI_Comm c) const { return comm >= 0 && (*proc()->groups)[(size_t)c]->member == (*proc()->groups)[(size_t)comm]->member; }
    INMOST_MPI_Comm GetCommunicator() const { return comm; }
    int GetProcessorRank() const { return comm < 0 ? 0 : (*proc()->groups)[(size_t)comm]->rank_of(proc()->id); }
    int GetProcessorsNumber() const { return comm < 0 ? 1 : (int)(*proc()->groups)[(size_t)comm]->member.size(); }
    Node CreateNode(const real* x) { assert(!moved); changed = true; resolved = false; nodes.push_back(P3{{x[0], x[1], x[2]}}); return Node(this, (HandleType)nodes.size()); }
    std::pair<Cell, bool> CreateCell(const ElementArray<Node>& v, const INMOST_DATA_INTEGER_TYPE* fn, const INMOST_DATA_INTEGER_TYPE* nn, INMOST_DATA_INTEGER_TYPE nf) {
        assert(nf == 4 && "a cell is not a tetrahedron"); std::map<std::pair<HandleType, HandleType>, int> edges; std::set<HandleType> all; const INMOST_DATA_INTEGER_TYPE* p = fn;
        for (int f = 0; f < nf; ++f) { assert(nn[f] == 3 && "a face is not a triangle"); HandleType h[3]; for (int k = 0; k < 3; ++k) { assert(p[k] >= 0); h[k] = v[(size_t)p[k]].h; all.insert(h[k]); } p += 3; for (int k = 0; k < 3; ++k) { HandleType a = h[k], b = h[(k + 1) % 3]; assert(a != b && "a face has equal nodes"); edges[{std::min(a, b), std::max(a, b)}]++; } }
        assert(all.size() == 4 && edges.size() == 6 && "faces do not bound a tetrahedron"); for (auto& e : edges) { (void)e; assert(e.second == 2 && "faces do not bound a tetrahedron"); }
        changed = true; resolved = false; cells.push_back({}); std::copy(all.begin(), all.end(), cells.back().begin()); return {Cell(this, (HandleType)cells.size()), true};
    }
    void tets() { if (moved) return; own.clear(); for (auto& c : cells) { Tet t; for (int k = 0; k < 4; ++k) t.x[(size_t)k] = nodes[c[(size_t)k] - 1]; own.push_back(t); } if (!part.empty()) for (size_t k = 0; k < own.size(); ++k) own[k].part = part[k]; }
    void ResolveShared(bool = false) { collective(comm, "ResolveShared", this, nullptr, [](Group& g) { for (auto* m : g.slot) { m->resolved = true; } }); }
    static bool eq(const P3& a, const P3& b) { for (int k = 0; k < 3; ++k) if (std::fabs(a[(size_t)k] - b[(size_t)k]) > 1e-9) return false; return true; }
    void ExchangeGhost(int layers, ElementType bridge_) {
        collective(comm, "ExchangeGhost " + std::to_string(layers) + " " + std::to_string(bridge_), this, nullptr, [=](Group& g) {
            for (auto* m : g.slot) { assert(m->resolved && "shared nodes are not known"); m->tets(); }
            for (auto* m : g.slot) { m->ghosts.clear(); m->ghost_layers = layers; m->bridge = bridge_; if (layers < 1) continue; int need = bridge_ == NODE ? 1 : bridge_ == EDGE ? 2 : 3;
                for (auto* o : g.slot) if (o != m) for (auto& t : o->own) { bool in = false; for (auto& s : m->own) { int c = 0; for (auto& a : t.x) for (auto& b : s.x) c += eq(a, b); if (c >= need) { in = true; break; } } if (in) m->ghosts.push_back(t); } } });
    }
    void Redistribute() {
        collective(comm, "Redistribute", this, nullptr, [](Group& g) {
            std::vector<std::vector<Tet>> to(g.slot.size()); for (auto* m : g.slot) { assert(m->partitioned && "there is no partition"); m->tets(); for (auto& t : m->own) { assert(t.part >= 0 && (size_t)t.part < to.size()); to[(size_t)t.part].push_back(t); } }
            for (size_t k = 0; k < g.slot.size(); ++k) { Mesh* m = g.slot[k]; m->moved = true; m->own = to[k]; for (auto& t : m->own) t.part = -1; m->ghosts.clear(); m->ghost_layers = 0; m->sparse = true; m->partitioned = false; } });
    }
    void ReorderEmpty(ElementType t) { assert(t == (CELL | FACE | EDGE | NODE)); sparse = false; }
    // distinct elements of dimension d
    static long distinct(std::vector<Tet> l, int d) {
        std::vector<P3> n; auto id = [&](const P3& x) { for (size_t k = 0; k < n.size(); ++k) if (eq(n[k], x)) return (int)k; n.push_back(x); return (int)n.size() - 1; };
        std::set<std::vector<int>> s; for (auto& t : l) { int v[4]; for (int k = 0; k < 4; ++k) v[k] = id(t.x[(size_t)k]); for (int mask = 1; mask < 16; ++mask) if (__builtin_popcount((unsigned)mask) == d + 1) { std::vector<int> e; for (int k = 0; k < 4; ++k) if (mask >> k & 1) e.push_back(v[k]); std::sort(e.begin(), e.end()); s.insert(e); } }
        return (long)s.size();
    }
    long number(int d) { tets(); std::vector<Tet> l = own; l.insert(l.end(), ghosts.begin(), ghosts.end()); return distinct(l, d); }
    int NumberOfNodes() { return (int)number(0); } int NumberOfEdges() { return (int)number(1); } int NumberOfFaces() { return (int)number(2); } int NumberOfCells() { return (int)number(3); }
    int TotalNumberOf(ElementType t) { int r = 0; int d = t == NODE ? 0 : t == EDGE ? 1 : t == FACE ? 2 : 3; collective(comm, "TotalNumberOf " + std::to_string(t), this, &r, [d](Group& g) { std::vector<Tet> l; for (auto* m : g.slot) { m->tets(); l.insert(l.end(), m->own.begin(), m->own.end()); } int n = (int)distinct(l, d); for (void* p : g.data) *(int*)p = n; }); return r; }
};
#ifdef USE_PARTITIONER
struct Partitioner {
    Mesh* m; bool set = false; static long& alive() { static long n = 0; return n; }
    enum Type { INNER_RCM, INNER_KMEANS, Parmetis, Zoltan_PHG }; enum Action { Partition, Repartition, Refine };
    explicit Partitioner(Mesh* m_) : m(m_) { ++alive(); } ~Partitioner() { --alive(); }
    void SetMethod(Type, Action a = Repartition) { (void)a; set = true; }
    void Evaluate() { assert(set); collective(m->comm, "Evaluate", m, nullptr, [](Group& g) { unsigned s = 12345; for (auto* q : g.slot) { q->tets(); q->part.clear(); for (auto& t : q->own) { s = s * 1664525u + 1013904223u; t.part = (int)((s >> 16) % g.slot.size()); q->part.push_back(t.part); } q->partitioned = true; } }); }
};
#endif
} // namespace INMOST
#ifdef USE_MPI
typedef int MPI_Comm; enum { MPI_COMM_WORLD = 0, MPI_ERRORS_RETURN = 1, MPI_SUCCESS = 0 };
inline int MPI_Comm_set_errhandler(MPI_Comm, int) { return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int* r) { *r = (*INMOST::proc()->groups)[(size_t)c]->rank_of(INMOST::proc()->id); return 0; }
inline int MPI_Comm_size(MPI_Comm c, int* n) { *n = (int)(*INMOST::proc()->groups)[(size_t)c]->member.size(); return 0; }
inline int MPI_Barrier(MPI_Comm c) { INMOST::collective(c, "Barrier", nullptr, nullptr, [](INMOST::Group&) {}); return 0; }
#endif
#endif
