// Stand-in for the INMOST mesh library (not installed here): the part of its interface that anifem++/inmost_interface
// uses, over an in-memory tetrahedral mesh. Ranks are simulated tasks; collectives go through Comm. Compiled with the
// same instrumentation as the code under test, so unsynchronised use from worker threads is seen as a race.
#ifndef VERIF_STUB_INMOST_H
#define VERIF_STUB_INMOST_H
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <string>
#include <vector>
typedef unsigned INMOST_DATA_ENUM_TYPE;
typedef double INMOST_DATA_REAL_TYPE;
typedef int INMOST_DATA_INTEGER_TYPE;
#define ENUMUNDEF ((INMOST_DATA_ENUM_TYPE)-1)
double Timer(); // defined by the scenario: simulated clock
namespace INMOST {
typedef unsigned ElementType;
static const ElementType NONE = 0, NODE = 1, EDGE = 2, FACE = 4, CELL = 8, ESET = 16, MESH = 32;
inline int ElementNum(ElementType t) { int n = 0; while (!((t >> n) & 1)) ++n; return n; }
inline ElementType ElementTypeFromDim(int d) { return 1u << d; }
typedef unsigned HandleType;
inline HandleType InvalidHandle() { return 0; }
inline bool isValidHandle(HandleType h) { return h != 0; }
inline HandleType ComposeHandle(ElementType t, int lid);
inline HandleType ComposeHandleNum(int num, int lid) { return ((unsigned)(num + 1) << 24) | (unsigned)(lid + 1); }
inline HandleType ComposeHandle(int num, int lid) { return ((unsigned)(num + 1) << 24) | (unsigned)(lid + 1); }
inline int HandleNum(HandleType h) { return (int)(h >> 24) - 1; }
inline int HandleLid(HandleType h) { return (int)(h & 0xFFFFFF) - 1; }
inline HandleType ComposeHandle(ElementType t, int lid) { return ComposeHandleNum(ElementNum(t), lid); }
inline ElementType GetHandleElementType(HandleType h) { return 1u << HandleNum(h); } inline int GetHandleElementNum(HandleType h) { return HandleNum(h); } inline int GetHandleID(HandleType h) { return HandleLid(h); }
enum DataType { DATA_REAL, DATA_INTEGER };
typedef unsigned MarkerType; inline MarkerType InvalidMarker() { return 0; }
class Mesh; class Element; class Node; class Edge; class Face; class Cell;
template <class T> struct Shell {
    typedef T value_type;
    T* p = nullptr; size_t n = 0; std::vector<T>* v = nullptr;
    T* data() const { return v ? v->data() : p; }
    size_t size() const { return v ? v->size() : n; }
    T& operator[](size_t i) const { assert(i < size() && "access past the end of tag data"); return data()[i]; }
    T* begin() const { return data(); } T* end() const { return data() + size(); }
    void resize(size_t k, T x = T()) const { assert(v && "resize of fixed size data"); v->resize(k, x); }
    void push_back(T x) const { assert(v && "resize of fixed size data"); v->push_back(x); }
    T& back() const { return data()[size() - 1]; }
};
class Storage {
public:
    typedef INMOST_DATA_INTEGER_TYPE integer; typedef INMOST_DATA_REAL_TYPE real; typedef INMOST_DATA_ENUM_TYPE enumerator;
    typedef Shell<real> real_array; typedef Shell<integer> integer_array;
};
struct TagData {
    std::string name; DataType dt; ElementType mask; INMOST_DATA_ENUM_TYPE size; int num; Mesh* mesh;
    std::vector<double> r[6]; std::vector<int> i[6]; std::vector<int> var; // var: variable size data of the mesh itself
    std::vector<std::vector<double>> rv[4]; // variable size data of elements
};
class Tag {
public:
    TagData* d = nullptr;
    bool isValid() const { return d != nullptr; }
    Mesh* GetMeshLink() const { return d->mesh; }
    INMOST_DATA_ENUM_TYPE GetSize() const { return d->size; }
    bool isDefined(ElementType m) const { return (d->mask & m) != 0; }
    bool isDefinedMask(ElementType m) const { return (d->mask & m) == m; }
    const std::string& GetTagName() const { return d->name; } DataType GetDataType() const { return d->dt; } bool isSparse(ElementType) const { return false; }
    bool operator==(const Tag& o) const { return d == o.d; }
    bool operator!=(const Tag& o) const { return d != o.d; }
};
template <class T> class ElementArray {
    Mesh* m = nullptr; std::vector<HandleType> h;
public:
    ElementArray() {}
    ElementArray(const Mesh* m_, size_t n = 0) : m(const_cast<Mesh*>(m_)), h(n, InvalidHandle()) {}
    HandleType* data() { return h.data(); } const HandleType* data() const { return h.data(); }
    size_t size() const { return h.size(); }
    T operator[](size_t i) const { assert(i < h.size()); return T(m, h[i]); }
    Mesh* GetMeshLink() const { return m; }
    HandleType& at(size_t i) { return h[i]; }
    void push_back(HandleType x) { h.push_back(x); } void push_back(const T& x) { h.push_back(x.GetHandle()); }
    // an iterator gives the handle by * and the element by ->
    template <class B, class P> struct Iter : B {
        Mesh* m = nullptr; mutable T cur; typedef std::random_access_iterator_tag iterator_category;
        Iter() {} Iter(Mesh* m_, B b) : B(b), m(m_) {}
        T* operator->() const { cur = T(m, **(const B*)this); return &cur; }
        Iter& operator++() { B::operator++(); return *this; } Iter operator++(int) { Iter r = *this; ++*this; return r; } Iter& operator--() { B::operator--(); return *this; } Iter operator--(int) { Iter r = *this; --*this; return r; }
        Iter operator+(std::ptrdiff_t k) const { return Iter(m, *(const B*)this + k); } Iter operator-(std::ptrdiff_t k) const { return Iter(m, *(const B*)this - k); } std::ptrdiff_t operator-(const Iter& o) const { return *(const B*)this - (const B&)o; } Iter& operator+=(std::ptrdiff_t k) { B::operator+=(k); return *this; }
    };
    typedef Iter<typename std::vector<HandleType>::iterator, HandleType> iterator; typedef Iter<typename std::vector<HandleType>::const_iterator, const HandleType> const_iterator;
    typedef size_t size_type;
    iterator begin() { return iterator(m, h.begin()); } iterator end() { return iterator(m, h.end()); } const_iterator begin() const { return const_iterator(m, h.begin()); } const_iterator end() const { return const_iterator(m, h.end()); }
    bool empty() const { return h.empty(); } void clear() { h.clear(); } void reserve(size_t n) { h.reserve(n); } void resize(size_t n) { h.resize(n, InvalidHandle()); } size_t capacity() const { return h.capacity(); }
    T front() const { return (*this)[0]; } T back() const { return (*this)[size() - 1]; } HandleType at(size_t i) const { return h.at(i); }
    void SetMeshLink(Mesh* x) { m = x; } void swap(ElementArray& o) { std::swap(m, o.m); h.swap(o.h); } void pop_back() { h.pop_back(); }
    iterator erase(iterator i) { return iterator(m, h.erase(i)); } template <class I> void insert(iterator i, I a, I b) { h.insert(i, a, b); }
    void Unite(const ElementArray& o) { for (HandleType x : o.h) if (std::find(h.begin(), h.end(), x) == h.end()) h.push_back(x); }
};
class Element : public Storage {
protected:
    Mesh* m = nullptr; HandleType h = InvalidHandle();
public:
    typedef unsigned char Status;
    static const Status Any = 0, Owned = 1, Shared = 2, Ghost = 4;
    Element() {}
    Element(const Mesh* m_, HandleType h_) : m(const_cast<Mesh*>(m_)), h(h_) {}
    Mesh* GetMeshLink() const { return m; }
    HandleType GetHandle() const { return h; }
    int LocalID() const { return HandleLid(h); }
    int DataLocalID() const { return HandleLid(h); }
    int GetElementNum() const { return HandleNum(h); }
    int GetElementDimension() const { return HandleNum(h); }
    ElementType GetElementType() const { return 1u << HandleNum(h); }
    Element getAsElement() const { return Element(m, h); }
    bool operator==(const Element& o) const { return m == o.m && h == o.h; }
    bool operator!=(const Element& o) const { return !(*this == o); }
    inline bool isValid() const; inline bool Hidden() const; inline Status GetStatus() const; inline int GlobalID() const;
    inline integer& Integer(Tag t) const; inline integer_array IntegerArray(Tag t) const; inline real_array RealArray(Tag t) const; inline real& Real(Tag t) const;
    Element* operator->() { return this; } const Element* operator->() const { return this; } integer& IntegerDF(Tag t) const { return Integer(t); } real& RealDF(Tag t) const { return Real(t); } real_array RealArrayDF(Tag t) const { return RealArray(t); } integer_array IntegerArrayDF(Tag t) const { return IntegerArray(t); }
    inline Node getAsNode() const; inline Edge getAsEdge() const; inline Face getAsFace() const; inline ElementArray<Edge> getEdges() const; inline ElementArray<Face> getFaces() const; inline ElementArray<Element> getAdjElements(ElementType) const; inline unsigned nbAdjElements(ElementType) const; inline void Centroid(real*) const; inline void Barycenter(real* x) const;
    inline bool HaveData(Tag t) const; inline ElementArray<Node> getNodes() const; inline real_array RealArrayDV(Tag t) const; inline Cell getAsCell() const; inline ElementArray<Cell> getCells() const;
    inline bool GetMarker(MarkerType) const; inline void SetMarker(MarkerType) const; inline void RemMarker(MarkerType) const;
};
class Node : public Element { public: using Element::Element; inline real_array Coords() const; };
class Edge : public Element { public: using Element::Element; inline Node getBeg() const; inline Node getEnd() const; };
class Face : public Element { public: using Element::Element; inline bool Boundary() const; inline Cell BackCell() const; inline Cell FrontCell() const; inline real Area() const; };
class Cell : public Element { public: using Element::Element; inline real Volume() const; };

// ranks: a running rank holds the token; collectives are matched by call order
struct Comm {
    std::mutex m; std::condition_variable cv; int n = 1, arrived = 0; long gen = 0; const char* kind = nullptr; long calls = 0;
    std::vector<void*> slot;
    explicit Comm(int n_) : n(n_), slot((size_t)n_) {}
    template <class F> void collective(std::unique_lock<std::mutex>& lk, int rank, const char* k, void* data, F op) {
        assert((!arrived || !strcmp(kind, k)) && "ranks are in different collective operations");
        kind = k; slot[(size_t)rank] = data;
        if (++arrived == n) { op(slot); arrived = 0; ++gen; ++calls; cv.notify_all(); return; }
        long g = gen; while (gen == g) cv.wait(lk);
    }
};
class Mesh : public Storage {
public:
    typedef std::vector<HandleType> adj_type;
    // filled by the scenario
    std::vector<double> xyz; // 3 per local node
    std::vector<char> alive[4], hidden[4]; std::vector<unsigned char> status[4]; std::vector<int> owner[4], owner_lid[4];
    std::vector<adj_type> high, low[4]; // nodes of cells; faces of cells, edges of faces, nodes of edges
    std::vector<adj_type> nodes_of[4];
    Tag gid_tag; bool have_gid[4] = {false, false, false, false}; std::vector<int> gids[4]; // assigned by AssignGlobalID
    Comm* comm = nullptr; std::unique_lock<std::mutex>* lk = nullptr; int rank = 0; long ntags = 0;
    std::map<std::string, TagData*> tags;
    MarkerType markers = 0; std::vector<MarkerType> marks[4]; std::vector<char> outer; // outer: faces of the boundary of the whole domain
    static void Initialize(int*, char***) {} static void Finalize() {}
    Mesh() {}
    Mesh(const Mesh&) = delete;
    ~Mesh() { for (auto& t : tags) delete t.second; }
    void finish() { gid_tag = CreateTag("GLOBAL_ID", DATA_INTEGER, NODE | EDGE | FACE | CELL, NONE, 1); }
    int count(int d) const { return (int)alive[d].size(); }

    int GetProcessorRank() const { return rank; }
    int GetProcessorsNumber() const { return comm ? comm->n : 1; }
    HandleType GetHandle() const { return ComposeHandle(5, 0); }
    bool valid(int d, int lid) const { return d >= 0 && d < 4 && lid >= 0 && lid < count(d) && alive[d][(size_t)lid]; }
    int FirstLocalID(ElementType et) const { int d = ElementNum(et), l = 0; while (l < count(d) && !valid(d, l)) ++l; return l; }
    int LastLocalID(ElementType et) const { return count(ElementNum(et)); }
    int NextLocalID(ElementType et, int lid) const { int d = ElementNum(et); ++lid; while (lid < count(d) && !valid(d, lid)) ++lid; return lid; }
    int CellLastLocalID() const { return count(3); }
    int NodeLastLocalID() const { return count(0); } int EdgeLastLocalID() const { return count(1); } int FaceLastLocalID() const { return count(2); }
    Edge EdgeByLocalID(int lid) const { return valid(1, lid) ? Edge(this, ComposeHandle(1, lid)) : Edge(this, InvalidHandle()); } Face FaceByLocalID(int lid) const { return valid(2, lid) ? Face(this, ComposeHandle(2, lid)) : Face(this, InvalidHandle()); }
    int NumberOfNodes() const { return NumberOf(NODE); } int NumberOfEdges() const { return NumberOf(EDGE); } int NumberOfFaces() const { return NumberOf(FACE); } int NumberOfCells() const { return NumberOf(CELL); }
    int GetDimensions() const { return 3; } bool isValidElement(HandleType h) const { return isValidHandle(h) && valid(HandleNum(h), HandleLid(h)); } bool Hidden(HandleType h) const { return Element(this, h).Hidden(); } Element::Status GetStatus(HandleType h) const { return Element(this, h).GetStatus(); }
    real& Real(HandleType h, Tag t) const { return RealArray(h, t)[0]; } integer& Integer(HandleType h, Tag t) const { return IntegerArray(h, t)[0]; } real_array RealArrayDV(HandleType h, Tag t) const { return RealArray(h, t); } real_array RealArrayDF(HandleType h, Tag t) const { return RealArray(h, t); } integer_array IntegerArrayDF(HandleType h, Tag t) const { return IntegerArray(h, t); }
    bool HaveData(HandleType h, Tag t) const { return t.d && (t.d->mask >> HandleNum(h) & 1); } bool GetMarker(HandleType h, MarkerType n) const { return Element(this, h).GetMarker(n); } void SetMarker(HandleType h, MarkerType n) const { Element(this, h).SetMarker(n); } void RemMarker(HandleType h, MarkerType n) const { Element(this, h).RemMarker(n); }
    Node NodeByLocalID(int lid) const { return valid(0, lid) ? Node(this, ComposeHandle(0, lid)) : Node(this, InvalidHandle()); }
    int GetCommunicator() const { return 7; }
    Cell CellByLocalID(int lid) const { return valid(3, lid) ? Cell(this, ComposeHandle(3, lid)) : Cell(this, InvalidHandle()); }
    Element ElementByLocalID(ElementType et, int lid) const { int d = ElementNum(et); return valid(d, lid) ? Element(this, ComposeHandle(d, lid)) : Element(this, InvalidHandle()); }
    adj_type& HighConn(HandleType h) { assert(HandleNum(h) == 3); return high[(size_t)HandleLid(h)]; }
    adj_type& LowConn(HandleType h) { assert(HandleNum(h) >= 1 && HandleNum(h) <= 3); return low[HandleNum(h)][(size_t)HandleLid(h)]; }
    template <class E> class Iterator {
        Mesh* m; ElementType mask; int d, lid; mutable E cur;
        void settle() { for (; d < 4; ++d, lid = 0) { if (!(mask >> d & 1)) { lid = 0; continue; } while (lid < m->count(d) && (!m->alive[d][(size_t)lid] || m->hidden[d][(size_t)lid])) ++lid; if (lid < m->count(d)) return; } d = 4; lid = 0; }
    public:
        typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef int difference_type; typedef E* pointer; typedef E& reference;
        Iterator(Mesh* m_, ElementType mk, int d_) : m(m_), mask(mk), d(d_), lid(0) { settle(); }
        Iterator& operator++() { ++lid; settle(); return *this; }
        Iterator operator++(int) { Iterator r = *this; ++*this; return r; }
        bool operator==(const Iterator& o) const { return d == o.d && lid == o.lid; }
        bool operator!=(const Iterator& o) const { return !(*this == o); }
        E& operator*() const { cur = E(m, ComposeHandle(d, lid)); return cur; }
        E* operator->() const { return &**this; }
    };
    typedef Iterator<Edge> iteratorEdge; iteratorEdge BeginEdge() { return iteratorEdge(this, EDGE, 0); } iteratorEdge EndEdge() { return iteratorEdge(this, NONE, 4); }
    typedef Iterator<Element> iteratorElement; typedef Iterator<Cell> iteratorCell; typedef Iterator<Node> iteratorNode;
    iteratorNode BeginNode() { return iteratorNode(this, NODE, 0); } iteratorNode EndNode() { return iteratorNode(this, NONE, 4); }
    iteratorElement BeginElement(ElementType mask) { return iteratorElement(this, mask, 0); }
    iteratorElement EndElement() { return iteratorElement(this, NONE, 4); }
    iteratorCell BeginCell() { return iteratorCell(this, CELL, 0); }
    iteratorCell EndCell() { return iteratorCell(this, NONE, 4); }
    int NumberOf(ElementType et) const { int c = 0; for (int d = 0; d < 4; ++d) if (et >> d & 1) for (int l = 0; l < count(d); ++l) c += alive[d][(size_t)l] && !hidden[d][(size_t)l]; return c; }

    bool HaveTag(const std::string& n) const { return tags.count(n) > 0; }
    Tag GetTag(const std::string& n) const { Tag t; t.d = tags.at(n); return t; }
    Tag CreateTag(std::string n, DataType dt, ElementType mask, ElementType sparse, INMOST_DATA_ENUM_TYPE size = ENUMUNDEF) {
        (void)sparse; if (HaveTag(n) && tags[n]->num != 0) { // defined on more kinds of elements
            TagData* t = tags[n]; assert(t->dt == dt && size != ENUMUNDEF && t->size == size && dt == DATA_REAL && "a tag of this name and another size exists"); for (int d = 0; d < 4; ++d) if ((mask & ~t->mask) >> d & 1) t->r[d].assign((size_t)count(d) * size, 0);
            t->mask |= mask; Tag r; r.d = t; return r; }
        assert(!HaveTag(n) && "stub: a tag of this name exists"); assert((size != ENUMUNDEF || mask == MESH || dt == DATA_REAL) && "stub: no variable size integer data on elements");
        std::unique_ptr<TagData> t(new TagData); t->name = n; t->dt = dt; t->mask = mask; t->size = size; t->num = (int)ntags; t->mesh = this;
        if (size != ENUMUNDEF) { for (int d = 0; d < 4; ++d) if (mask >> d & 1) { if (dt == DATA_REAL) t->r[d].assign((size_t)count(d) * size, 0); else t->i[d].assign((size_t)count(d) * size, 0); } }
        else if (dt == DATA_REAL) for (int d = 0; d < 4; ++d) if (mask >> d & 1) t->rv[d].resize((size_t)count(d));
        tags[n] = t.get(); ++ntags; Tag r; r.d = t.release(); return r;
    }
    Tag DeleteTag(Tag t, ElementType = NODE | EDGE | FACE | CELL | MESH) { assert(t.d && t.d->mesh == this && tags.count(t.d->name) && tags[t.d->name] == t.d); tags.erase(t.d->name); delete t.d; return Tag(); }
    integer_array IntegerArray(HandleType h, Tag t) const {
        integer_array a; assert(t.d && t.d->mesh == this && t.d->dt == DATA_INTEGER); int d = HandleNum(h);
        if (d == 5) { assert(t.d->mask & MESH); a.v = &t.d->var; return a; }
        assert((t.d->mask >> d & 1) && "tag is not defined on this kind of elements"); a.p = t.d->i[d].data() + (size_t)HandleLid(h) * t.d->size; a.n = t.d->size; return a;
    }
    real_array RealArray(HandleType h, Tag t) const {
        real_array a; assert(t.d && t.d->mesh == this && t.d->dt == DATA_REAL); int d = HandleNum(h);
        assert(d < 4 && (t.d->mask >> d & 1) && "tag is not defined on this kind of elements"); if (t.d->size == ENUMUNDEF) { a.v = &t.d->rv[d][(size_t)HandleLid(h)]; return a; } a.p = t.d->r[d].data() + (size_t)HandleLid(h) * t.d->size; a.n = t.d->size; return a;
    }
    bool HaveGlobalID(ElementType et) const { for (int d = 0; d < 4; ++d) if ((et >> d & 1) && !have_gid[d]) return false; return true; }
    Tag GlobalIDTag() const { return gid_tag; }
    template <class F> void collective(const char* k, void* data, F op) { if (!comm) { std::vector<void*> s(1, data); op(s); } else comm->collective(*lk, rank, k, data, op); }
    void AssignGlobalID(ElementType et) {
        collective("AssignGlobalID", &et, [](std::vector<void*>& s) { for (void* x : s) assert(*(ElementType*)x == *(ElementType*)s[0] && "ranks number different kinds of elements"); });
        for (int d = 0; d < 4; ++d) if (et >> d & 1) { have_gid[d] = true; for (int l = 0; l < count(d); ++l) if (alive[d][(size_t)l]) gid_tag.d->i[d][(size_t)l] = gids[d][(size_t)l]; }
    }
    int TotalNumberOf(ElementType et) {
        struct { Mesh* m; ElementType et; int r; } x{this, et, 0}; typedef decltype(x) X;
        collective("TotalNumberOf", &x, [](std::vector<void*>& s) {
            int sum = 0; for (void* q : s) { X* y = (X*)q; assert(y->et == ((X*)s[0])->et && "ranks count different kinds of elements"); for (int d = 0; d < 4; ++d) if (y->et >> d & 1) for (int l = 0; l < y->m->count(d); ++l) sum += y->m->alive[d][(size_t)l] && y->m->status[d][(size_t)l] != Element::Ghost; }
            for (void* q : s) ((X*)q)->r = sum; });
        return x.r;
    }
    INMOST_DATA_ENUM_TYPE ExclusiveSum(INMOST_DATA_ENUM_TYPE v) {
        struct { INMOST_DATA_ENUM_TYPE v, r; } x{v, 0}; typedef decltype(x) X;
        collective("ExclusiveSum", &x, [](std::vector<void*>& s) { INMOST_DATA_ENUM_TYPE sum = 0; for (void* q : s) { ((X*)q)->r = sum; sum += ((X*)q)->v; } });
        return x.r;
    }
    void ExchangeData(const std::vector<Tag>& ts, ElementType mask, unsigned = 0) {
        struct { Mesh* m; const std::vector<Tag>* t; ElementType mask; } x{this, &ts, mask}; typedef decltype(x) X;
        collective("ExchangeData", &x, [](std::vector<void*>& s) {
            X* a = (X*)s[0];
            for (void* q : s) { X* y = (X*)q; assert(y->t->size() == a->t->size() && y->mask == a->mask && "ranks exchange different data"); }
            for (void* q : s) { X* y = (X*)q; for (size_t k = 0; k < y->t->size(); ++k) {
                TagData* t = (*y->t)[k].d;
                for (int d = 0; d < 4; ++d) if ((y->mask & t->mask) >> d & 1) for (int l = 0; l < y->m->count(d); ++l) if (y->m->alive[d][(size_t)l] && y->m->status[d][(size_t)l] == Element::Ghost) {
                    TagData* o = (*((X*)s[(size_t)y->m->owner[d][(size_t)l]])->t)[k].d; size_t ol = (size_t)y->m->owner_lid[d][(size_t)l]; assert(o->size == t->size && o->dt == t->dt && "ranks exchange different data");
                    if (t->size == ENUMUNDEF) { t->rv[d][(size_t)l] = o->rv[d][ol]; continue; }
                    for (size_t j = 0; j < t->size; ++j) if (t->dt == DATA_REAL) t->r[d][(size_t)l * t->size + j] = o->r[d][ol * t->size + j]; else t->i[d][(size_t)l * t->size + j] = o->i[d][ol * t->size + j];
                }
            } }
        });
    }
    void Integrate(INMOST_DATA_REAL_TYPE* v, INMOST_DATA_ENUM_TYPE n) {
        struct { INMOST_DATA_REAL_TYPE* v; INMOST_DATA_ENUM_TYPE n; } x{v, n}; typedef decltype(x) X;
        collective("Integrate", &x, [](std::vector<void*>& s) {
            X* a = (X*)s[0]; for (void* q : s) assert(((X*)q)->n == a->n && "ranks add different numbers of values");
            for (size_t k = 0; k < a->n; ++k) { INMOST_DATA_REAL_TYPE sum = 0; for (void* q : s) sum += ((X*)q)->v[k]; for (void* q : s) ((X*)q)->v[k] = sum; } });
    }
    INMOST_DATA_REAL_TYPE Integrate(INMOST_DATA_REAL_TYPE v) { Integrate(&v, 1); return v; } INMOST_DATA_INTEGER_TYPE Integrate(INMOST_DATA_INTEGER_TYPE v) { INMOST_DATA_REAL_TYPE x = v; Integrate(&x, 1); return (INMOST_DATA_INTEGER_TYPE)x; }
    template <class T> T aggregate(T v, bool most) { struct { T v; } x{v}; typedef decltype(x) X; auto up = [](std::vector<void*>& s) { T r = ((X*)s[0])->v; for (void* q : s) r = std::max(r, ((X*)q)->v); for (void* q : s) ((X*)q)->v = r; }; auto down = [](std::vector<void*>& s) { T r = ((X*)s[0])->v; for (void* q : s) r = std::min(r, ((X*)q)->v); for (void* q : s) ((X*)q)->v = r; }; if (most) collective("AggregateMax", &x, up); else collective("AggregateMin", &x, down); return x.v; }
    INMOST_DATA_REAL_TYPE AggregateMax(INMOST_DATA_REAL_TYPE v) { return aggregate(v, true); } INMOST_DATA_INTEGER_TYPE AggregateMax(INMOST_DATA_INTEGER_TYPE v) { return aggregate(v, true); } INMOST_DATA_ENUM_TYPE AggregateMax(INMOST_DATA_ENUM_TYPE v) { return aggregate(v, true); }
    INMOST_DATA_REAL_TYPE AggregateMin(INMOST_DATA_REAL_TYPE v) { return aggregate(v, false); } INMOST_DATA_INTEGER_TYPE AggregateMin(INMOST_DATA_INTEGER_TYPE v) { return aggregate(v, false); } INMOST_DATA_ENUM_TYPE AggregateMin(INMOST_DATA_ENUM_TYPE v) { return aggregate(v, false); }
    MarkerType CreateMarker() { for (int k = 0; k < 16; ++k) if (!(markers >> k & 1)) { for (int d = 0; d < 4; ++d) marks[d].resize((size_t)count(d), 0); markers |= 1u << k; return 1u << k; } return InvalidMarker(); }
    void ReleaseMarker(MarkerType n, ElementType = NONE) { assert(n && (markers & n) && "released marker does not exist"); for (int d = 0; d < 4; ++d) for (MarkerType x : marks[d]) assert(!(x & n) && "released marker is still set"); markers &= ~n; }
    void MarkBoundaryFaces(MarkerType n) { MarkerType x = n; collective("MarkBoundaryFaces", &x, [](std::vector<void*>&) {}); for (int l = 0; l < count(2); ++l) if (alive[2][(size_t)l] && outer[(size_t)l]) marks[2][(size_t)l] |= n; }
    typedef Iterator<Face> iteratorFace; iteratorFace BeginFace() { return iteratorFace(this, FACE, 0); } iteratorFace EndFace() { return iteratorFace(this, NONE, 4); }
    void ExchangeData(const Tag& t, ElementType mask, unsigned s = 0) { ExchangeData(std::vector<Tag>(1, t), mask, s); }
};
inline bool Element::isValid() const { return m && isValidHandle(h) && m->valid(HandleNum(h), HandleLid(h)); }
inline bool Element::Hidden() const { return m->hidden[HandleNum(h)][(size_t)HandleLid(h)]; }
inline Element::Status Element::GetStatus() const { assert(isValid()); return m->status[HandleNum(h)][(size_t)HandleLid(h)]; }
inline int Element::GlobalID() const { assert(isValid() && m->have_gid[HandleNum(h)] && "global numbers are not assigned"); return m->gid_tag.d->i[HandleNum(h)][(size_t)HandleLid(h)]; }
inline Storage::integer_array Element::IntegerArray(Tag t) const { assert(isValid()); return m->IntegerArray(h, t); }
inline Storage::integer& Element::Integer(Tag t) const { return IntegerArray(t)[0]; }
inline Storage::real_array Element::RealArray(Tag t) const { assert(isValid()); return m->RealArray(h, t); }
inline Storage::real& Element::Real(Tag t) const { return RealArray(t)[0]; }
inline bool Element::HaveData(Tag t) const { return t.d && (t.d->mask >> HandleNum(h) & 1); }
inline ElementArray<Node> Element::getNodes() const { assert(isValid()); ElementArray<Node> r(m, 0); for (HandleType x : m->nodes_of[HandleNum(h)][(size_t)HandleLid(h)]) r.push_back(x); return r; }
// elements of dimension d whose nodes are among (contain) the nodes of this one
inline ElementArray<Element> Element::getAdjElements(ElementType et) const {
    assert(isValid()); ElementArray<Element> r(m, 0); const auto& mine = m->nodes_of[HandleNum(h)][(size_t)HandleLid(h)]; int o = HandleNum(h);
    auto in = [](const Mesh::adj_type& a, const Mesh::adj_type& b) { for (HandleType x : a) if (std::find(b.begin(), b.end(), x) == b.end()) return false; return true; };
    for (int d = 0; d < 4; ++d) if (et >> d & 1) { if (d == o) { r.push_back(h); continue; } if (d == 0) { for (HandleType x : mine) r.push_back(x); continue; } for (int l = 0; l < m->count(d); ++l) if (m->alive[d][(size_t)l] && (d < o ? in(m->nodes_of[d][(size_t)l], mine) : in(mine, m->nodes_of[d][(size_t)l]))) r.push_back(ComposeHandle(d, l)); }
    return r;
}
inline ElementArray<Cell> Element::getCells() const { ElementArray<Cell> r(m, 0); auto a = getAdjElements(CELL); for (HandleType x : a) r.push_back(x); return r; }
inline ElementArray<Edge> Element::getEdges() const { ElementArray<Edge> r(m, 0); auto a = getAdjElements(EDGE); for (HandleType x : a) r.push_back(x); return r; }
inline ElementArray<Face> Element::getFaces() const { assert(isValid()); ElementArray<Face> r(m, 0); if (HandleNum(h) == 3) { for (HandleType x : m->low[3][(size_t)HandleLid(h)]) r.push_back(x); return r; } auto a = getAdjElements(FACE); for (HandleType x : a) r.push_back(x); return r; }
inline unsigned Element::nbAdjElements(ElementType t) const { return (unsigned)getAdjElements(t).size(); }
inline Node Element::getAsNode() const { return Node(m, h); } inline Edge Element::getAsEdge() const { return Edge(m, h); } inline Face Element::getAsFace() const { return Face(m, h); }
inline Node Edge::getBeg() const { assert(isValid()); return Node(m, m->low[1][(size_t)LocalID()][0]); } inline Node Edge::getEnd() const { assert(isValid()); return Node(m, m->low[1][(size_t)LocalID()][1]); }
inline bool Face::Boundary() const { assert(isValid()); return m->outer[(size_t)LocalID()] != 0; }
inline Cell Face::BackCell() const { auto c = getCells(); return c.empty() ? Cell(m, InvalidHandle()) : c[0]; } inline Cell Face::FrontCell() const { auto c = getCells(); return c.size() < 2 ? Cell(m, InvalidHandle()) : c[1]; }
inline void Element::Centroid(real* x) const { auto n = getNodes(); x[0] = x[1] = x[2] = 0; for (size_t i = 0; i < n.size(); ++i) for (size_t k = 0; k < 3; ++k) x[k] += n[i].Coords()[k] / (double)n.size(); } inline void Element::Barycenter(real* x) const { Centroid(x); }
inline Storage::real Face::Area() const { auto n = getNodes(); double u[3], v[3]; for (size_t k = 0; k < 3; ++k) u[k] = n[1].Coords()[k] - n[0].Coords()[k], v[k] = n[2].Coords()[k] - n[0].Coords()[k]; double a = u[1] * v[2] - u[2] * v[1], b = u[2] * v[0] - u[0] * v[2], c = u[0] * v[1] - u[1] * v[0]; return std::sqrt(a * a + b * b + c * c) / 2; }
inline Storage::real_array Element::RealArrayDV(Tag t) const { return RealArray(t); }
inline Cell Element::getAsCell() const { return Cell(m, h); }
inline bool Element::GetMarker(MarkerType n) const { assert(isValid() && n && (m->markers & n)); return (m->marks[HandleNum(h)][(size_t)HandleLid(h)] & n) != 0; }
inline void Element::SetMarker(MarkerType n) const { assert(isValid() && n && (m->markers & n)); m->marks[HandleNum(h)][(size_t)HandleLid(h)] |= n; }
inline void Element::RemMarker(MarkerType n) const { assert(isValid() && n && (m->markers & n)); m->marks[HandleNum(h)][(size_t)HandleLid(h)] &= ~n; }
inline Storage::real Cell::Volume() const {
    const double* p[4]; for (int k = 0; k < 4; ++k) p[k] = &m->xyz[3 * (size_t)HandleLid(m->high[(size_t)LocalID()][(size_t)k])];
    double u[3], v[3], w[3]; for (int k = 0; k < 3; ++k) u[k] = p[1][k] - p[0][k], v[k] = p[2][k] - p[0][k], w[k] = p[3][k] - p[0][k];
    return std::fabs((u[1] * v[2] - u[2] * v[1]) * w[0] + (u[2] * v[0] - u[0] * v[2]) * w[1] + (u[0] * v[1] - u[1] * v[0]) * w[2]) / 6;
}
inline Storage::real_array Node::Coords() const { assert(isValid() && HandleNum(h) == 0); real_array a; a.p = m->xyz.data() + 3 * (size_t)HandleLid(h); a.n = 3; return a; }

namespace Sparse {
class Row {
public:
    struct entry { INMOST_DATA_ENUM_TYPE first; INMOST_DATA_REAL_TYPE second; bool operator<(const entry& o) const { return first < o.first || (first == o.first && second < o.second); } };
    typedef std::vector<entry>::iterator iterator; typedef std::vector<entry>::const_iterator const_iterator;
    std::vector<entry> e;
    iterator Begin() { return e.begin(); } iterator End() { return e.end(); }
    const_iterator Begin() const { return e.begin(); } const_iterator End() const { return e.end(); }
    INMOST_DATA_ENUM_TYPE Size() const { return (INMOST_DATA_ENUM_TYPE)e.size(); }
    void Resize(INMOST_DATA_ENUM_TYPE n) { e.resize(n); }
    INMOST_DATA_ENUM_TYPE& GetIndex(INMOST_DATA_ENUM_TYPE k) { assert(k < e.size()); return e[k].first; }
    INMOST_DATA_REAL_TYPE& GetValue(INMOST_DATA_ENUM_TYPE k) { assert(k < e.size()); return e[k].second; }
    INMOST_DATA_REAL_TYPE& operator[](INMOST_DATA_ENUM_TYPE i) { for (auto& x : e) if (x.first == i) return x.second; e.push_back(entry{i, 0}); return e.back().second; }
    INMOST_DATA_REAL_TYPE get_safe(INMOST_DATA_ENUM_TYPE i) const { for (auto& x : e) if (x.first == i) return x.second; return 0; }
    void Push(INMOST_DATA_ENUM_TYPE i, INMOST_DATA_REAL_TYPE v) { e.push_back(entry{i, v}); }
    void Swap(Row& o) { e.swap(o.e); } void Reserve(INMOST_DATA_ENUM_TYPE n) { e.reserve(n); } bool Empty() const { return e.empty(); } bool HaveIndex(INMOST_DATA_ENUM_TYPE i) const { for (auto& x : e) if (x.first == i) return true; return false; } bool isSorted() const { return std::is_sorted(e.begin(), e.end(), [](const entry& a, const entry& b) { return a.first < b.first; }); }
    INMOST_DATA_ENUM_TYPE GetIndex(INMOST_DATA_ENUM_TYPE k) const { assert(k < e.size()); return e[k].first; } INMOST_DATA_REAL_TYPE GetValue(INMOST_DATA_ENUM_TYPE k) const { assert(k < e.size()); return e[k].second; } iterator begin() { return e.begin(); } iterator end() { return e.end(); }
    void RemoveZeros() { e.erase(std::remove_if(e.begin(), e.end(), [](const entry& x) { return x.second == 0; }), e.end()); }
    void Clear() { e.clear(); }
};
template <class T> class Interval {
protected: INMOST_DATA_ENUM_TYPE b = 0; std::vector<T> d;
public:
    void SetInterval(INMOST_DATA_ENUM_TYPE beg, INMOST_DATA_ENUM_TYPE end) {
        assert(beg <= end); std::vector<T> n(end - beg);
        for (INMOST_DATA_ENUM_TYPE i = std::max(beg, b); i < std::min(end, b + (INMOST_DATA_ENUM_TYPE)d.size()); ++i) std::swap(n[i - beg], d[i - b]);
        d.swap(n); b = beg;
    }
    void GetInterval(INMOST_DATA_ENUM_TYPE& f, INMOST_DATA_ENUM_TYPE& l) const { f = b; l = b + (INMOST_DATA_ENUM_TYPE)d.size(); } bool Empty() const { return d.empty(); } void Clear() { d.clear(); } auto Begin() { return d.begin(); } auto End() { return d.end(); } auto Begin() const { return d.begin(); } auto End() const { return d.end(); }
    INMOST_DATA_ENUM_TYPE GetFirstIndex() const { return b; }
    INMOST_DATA_ENUM_TYPE GetLastIndex() const { return b + (INMOST_DATA_ENUM_TYPE)d.size(); }
    INMOST_DATA_ENUM_TYPE Size() const { return (INMOST_DATA_ENUM_TYPE)d.size(); }
    T& operator[](INMOST_DATA_ENUM_TYPE i) { assert(i >= b && i - b < d.size() && "index outside of the interval"); return d[i - b]; }
    const T& operator[](INMOST_DATA_ENUM_TYPE i) const { assert(i >= b && i - b < d.size() && "index outside of the interval"); return d[i - b]; }
};
class Matrix : public Interval<Row> { public: Matrix(std::string = "", INMOST_DATA_ENUM_TYPE f = 0, INMOST_DATA_ENUM_TYPE l = 0) { if (l > f) SetInterval(f, l); } std::string GetName() const { return ""; } };
class Vector : public Interval<INMOST_DATA_REAL_TYPE> { public: Vector(std::string = "", INMOST_DATA_ENUM_TYPE f = 0, INMOST_DATA_ENUM_TYPE l = 0) { if (l > f) SetInterval(f, l); } std::string GetName() const { return ""; } };
class LockService {
    INMOST_DATA_ENUM_TYPE b = 0; std::vector<std::unique_ptr<std::mutex>> m;
public:
    void SetInterval(INMOST_DATA_ENUM_TYPE beg, INMOST_DATA_ENUM_TYPE end) { b = beg; m.clear(); for (; beg < end; ++beg) m.emplace_back(new std::mutex); }
    bool Lock(INMOST_DATA_ENUM_TYPE r) { assert(r >= b && r - b < m.size()); m[r - b]->lock(); return true; }
    bool HaveLocks() const { return !m.empty(); } void DestroyLocks() { m.clear(); } bool TestLock(INMOST_DATA_ENUM_TYPE r) { assert(r >= b && r - b < m.size()); return m[r - b]->try_lock(); }
    bool UnLock(INMOST_DATA_ENUM_TYPE r) { assert(r >= b && r - b < m.size()); m[r - b]->unlock(); return true; }
};
} // namespace Sparse
#ifdef SIM_SOLVER
// a direct solver of the whole system; its reports can be scripted
class Solver {
    const Sparse::Matrix* A = nullptr; bool solved = false;
public:
    typedef std::string Type; static constexpr const char* INNER_ILU2 = "inner_ilu2";
    struct Script { bool solved = true; int iterations = 1; double residual = 1e-15; const char* reason = "converged"; };
    Script script; std::map<std::string, double> real;
    Solver(std::string, std::string = "") {}
    static void Initialize(int*, char***, const char* = nullptr) {} static void Finalize() {}
    void SetParameterReal(std::string n, double v) { real[n] = v; }
    void SetMatrix(Sparse::Matrix& m) { A = &m; }
    void Clear() { A = nullptr; }
    bool Solve(Sparse::Vector& b, Sparse::Vector& x) {
        assert(A && "the solver has no matrix"); assert(b.GetFirstIndex() == A->GetFirstIndex() && b.GetLastIndex() == A->GetLastIndex() && "the right-hand side has other rows");
        if (x.Size() != b.Size()) { assert(x.Size() == 0 && "sizes differ"); x.SetInterval(b.GetFirstIndex(), b.GetLastIndex()); }
        struct X { const Sparse::Matrix* A; Sparse::Vector *b, *x; bool ok; } q{A, &b, &x, false};
        Mesh* m = mesh(); auto op = [](std::vector<void*>& s) {
            size_t n = 0; for (void* p : s) n += ((X*)p)->A->Size();
            std::vector<double> a(n * (n + 1), 0.0); size_t w = n + 1; double big = 0;
            for (void* p : s) { X* y = (X*)p; for (auto i = y->A->GetFirstIndex(); i < y->A->GetLastIndex(); ++i) { assert(i < n && "row outside of the system"); for (auto& e : (*y->A)[i].e) { assert(e.first < n && "column outside of the system"); a[i * w + e.first] += e.second; big = std::max(big, std::fabs(e.second)); } a[i * w + n] = (*y->b)[i]; } }
            bool ok = true;
            for (size_t k = 0; k < n; ++k) {
                size_t t = k; for (size_t i = k + 1; i < n; ++i) if (std::fabs(a[i * w + k]) > std::fabs(a[t * w + k])) t = i;
                if (!(std::fabs(a[t * w + k]) > 1e-13 * big)) { ok = false; break; }
                if (t != k) for (size_t j = k; j <= n; ++j) std::swap(a[k * w + j], a[t * w + j]);
                for (size_t i = k + 1; i < n; ++i) { double f = a[i * w + k] / a[k * w + k]; if (f != 0) for (size_t j = k; j <= n; ++j) a[i * w + j] -= f * a[k * w + j]; }
            }
            if (ok) for (size_t k = n; k-- > 0;) { double v = a[k * w + n]; for (size_t j = k + 1; j < n; ++j) v -= a[k * w + j] * a[j * w + n]; a[k * w + n] = v / a[k * w + k]; }
            for (void* p : s) { X* y = (X*)p; y->ok = ok; for (auto i = y->x->GetFirstIndex(); i < y->x->GetLastIndex(); ++i) (*y->x)[i] = ok ? a[i * w + n] : std::nan(""); }
        };
        m->collective("Solve", &q, op); solved = q.ok; if (!solved && singular()) singular()();
        return solved && script.solved;
    }
    bool IsSolved() const { return solved && script.solved; }
    int Iterations() const { return script.iterations; } double Residual() const { return script.residual; }
    double PreconditionerTime() const { return 0.25; } double IterationsTime() const { return 0.5; }
    std::string GetReason() const { return script.reason; }
    void set_solved(bool v) { solved = v; }
    static Mesh*& mesh() { static thread_local Mesh* m = nullptr; return m; } // of the rank that runs
    static void (*&singular())() { static void (*f)() = nullptr; return f; }
};
#endif
} // namespace INMOST
#ifdef SIM_SOLVER
typedef int INMOST_MPI_Comm;
#ifdef USE_MPI
typedef int MPI_Comm; enum { MPI_COMM_WORLD = 0 };
inline void MPI_Initialized(int* f) { *f = 1; } inline void MPI_Init(int*, char***) {} inline void MPI_Finalized(int* f) { *f = 1; } inline void MPI_Finalize() {}
inline void MPI_Comm_rank(MPI_Comm, int* r) { *r = INMOST::Solver::mesh()->GetProcessorRank(); }
inline void MPI_Comm_size(MPI_Comm, int* n) { *n = INMOST::Solver::mesh()->GetProcessorsNumber(); }
enum MPI_Datatype { MPI_LONG_LONG, MPI_DOUBLE }; enum MPI_Op { MPI_SUM, MPI_MIN, MPI_MAX };
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    assert(c == INMOST::Solver::mesh()->GetCommunicator() && "the communicator of another mesh"); assert(in != out);
    struct X { const void* in; void* out; int n; MPI_Datatype t; MPI_Op o; } x{in, out, n, t, o};
    INMOST::Solver::mesh()->collective("Allreduce", &x, [](std::vector<void*>& s) {
        X* a = (X*)s[0]; for (void* p : s) { X* y = (X*)p; assert(y->n == a->n && y->t == a->t && y->o == a->o && "processes reduce different data"); }
        for (int k = 0; k < a->n; ++k) {
            if (a->t == MPI_DOUBLE) { double v = ((const double*)a->in)[k]; for (size_t i = 1; i < s.size(); ++i) { double u = ((const double*)((X*)s[i])->in)[k]; v = a->o == MPI_SUM ? v + u : a->o == MPI_MIN ? std::min(v, u) : std::max(v, u); } for (void* p : s) ((double*)((X*)p)->out)[k] = v; }
            else { long long v = ((const long long*)a->in)[k]; for (size_t i = 1; i < s.size(); ++i) { long long u = ((const long long*)((X*)s[i])->in)[k]; v = a->o == MPI_SUM ? v + u : a->o == MPI_MIN ? std::min(v, u) : std::max(v, u); } for (void* p : s) ((long long*)((X*)p)->out)[k] = v; }
        } });
    return 0;
}
inline void MPI_Barrier(MPI_Comm) { int x = 0; INMOST::Solver::mesh()->collective("Barrier", &x, [](std::vector<void*>&) {}); }
#endif
#endif
#endif
