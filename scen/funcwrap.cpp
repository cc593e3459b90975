// C04: wrapped matrix functions shared by tasks.
#include "tasks.h"
#include <iostream>
#include <map>
#include <set>
#include "anifem++/inmost_interface/func_wrap.h"
using namespace sim;

namespace {
struct Fail { int code; };
struct Spec { // what a wrapper must look like
    int id = 0, variant = 0; long r = 0, c = 0; size_t nw = 0, niw = 0; bool ud = false, dyn = false; int nout = 1;
    bool has_w = false, has_ud = false, has_pool = false, sparse = false, ret = false;
    int code = 0; size_t nin = 4;
};
struct Ev { // one evaluation
    const Spec* s = nullptr; const void* args = nullptr; const void* res = nullptr; std::vector<void*> out; void* w = nullptr; void* iw = nullptr; void* ud = nullptr;
    bool want_pool = false; void* pool_of_slot = nullptr; long called = 0; int mode = 0, code = 0; long work = 0; long pool_n = 0; void** slot_pool = nullptr;
};
std::map<int, Ev*>* evs;
std::map<void*, int>* busy_pool; // pool -> task that evaluates with it
long concurrent, overlap;

template <class I> void callback(int spec, const double** args, const double* const* outs, int nout, void* w, void* iw, void* ud, Ani::DynMem<double, I>* pool, const void* resarr, bool has_res) {
    Ev* e; 
    {
        Quiet q;
        auto it = evs->find(self());
        if (it == evs->end() || !it->second) violation("stray-call", "the callback of function %d runs outside of an evaluation", spec);
        e = it->second; const Spec& s = *e->s;
        if (++e->called > 1) violation("repeated-call", "an evaluation calls the callback %ld times", e->called);
        if (s.id != spec) violation("other-callback", "evaluating function %d calls the callback of function %d", s.id, spec);
        if ((const void*)args != e->args) violation("arguments", "the callback gets other arguments");
        if (has_res && resarr != e->res) violation("outputs", "the callback gets another array of outputs");
        for (int k = 0; k < nout; ++k) if ((void*)outs[k] != e->out[(size_t)k]) violation("outputs", "the callback gets another output %d", k);
        if (s.has_w && (w != e->w || iw != e->iw)) violation("work-arrays", "the callback gets other work arrays");
        if (s.has_ud && ud != e->ud) violation("user-data", "the callback gets other user data");
        if (s.has_pool) {
            if (e->want_pool && !pool) violation("no-pool", "the callback gets no pool although its slot has one");
            if (!e->want_pool && pool) violation("unexpected-pool", "the callback gets a pool although it has no slot");
            if (pool) {
                if (busy_pool->count(pool)) violation("shared-pool", "two evaluations running at the same time have the same pool");
                (*busy_pool)[pool] = self();
                if (*e->slot_pool && *e->slot_pool != pool) violation("pool-changed", "the pool of a slot changed while the slot is held");
                *e->slot_pool = pool;
            }
        }
        if (++concurrent > 1) { overlap++; probe("evaluations-overlap"); nontrivial(); }
    }
    struct Exit { void* pool; ~Exit() { Quiet q; concurrent--; if (pool) busy_pool->erase(pool); } } ex{e->s->has_pool ? (void*)pool : nullptr};
    double sum = 0; for (size_t k = 0; k < e->s->nin; ++k) sum += args[k][0] + 2 * args[k][1] + 4 * args[k][2];
    if (e->mode == 1) { probe("callback-throws"); note_fault("callback"); throw Fail{7}; }
    if (w) ((double*)w)[0] = sum; if (iw) ((I*)iw)[0] = (I)e->s->id;
    if (pool && e->s->has_pool) {
        size_t n = (size_t)e->pool_n;
        auto part = pool->alloc(n, n, 0); auto m = part.getPlainMemory();
        for (size_t i = 0; i < n; ++i) { m.ddata[i] = sum + (double)i; m.idata[i] = (I)i; }
        for (long k = 0; k < e->work; ++k) yield_point();
        if (e->work & 1) { auto p2 = pool->alloc(2 * n + 1, 1, 0); p2.getPlainMemory().ddata[2 * n] = 5; }
        for (size_t i = 0; i < n; ++i) if (m.ddata[i] != sum + (double)i || m.idata[i] != (I)i) { Quiet q; violation("contents", "pool memory changed during the evaluation"); }
    } else for (long k = 0; k < e->work; ++k) yield_point();
    if (w && ((double*)w)[0] != sum) { Quiet q; violation("contents", "work array changed during the evaluation"); }
    for (int k = 0; k < nout; ++k) ((double*)outs[k])[0] = sum + 10 * k + e->s->id;
}

template <ThreadPar::Type T, class I> struct Gen {
    using D = Ani::MatFuncWrapDynamic<T, double, I>;
    using IO = typename D::IOData;
    using P = Ani::DynMem<double, I>;
    using R = double;
    static D make(Spec& s) {
        int id = s.id; long r = s.r, c = s.c; size_t nw = s.nw, ni = s.niw;
        int kind = s.variant % 3, form = s.variant / 3; // kind: matrix and rhs, matrix, rhs; form 0..6
        s.nout = kind == 0 ? 2 : 1; s.nin = 4;
        if (form == 6) return custom(s);
        bool b1 = s.ud, b2 = s.dyn;
        s.has_w = form == 0 || form >= 3; s.has_ud = form == 0 || form == 2 || form == 3 || form == 5; s.has_pool = form == 0 || form == 5;
        if (form == 1 || form == 2) { s.nw = s.niw = 0; }
        if (form) { s.ud = s.has_ud; s.dyn = s.has_pool; }
        if (kind == 2) s.c = 1;
        using std::function;
        if (kind == 0) {
            auto o = [](R* A, R* F) { return std::vector<const R*>{A, F}; }; (void)o;
#define OUT2 const R* o[2] = {A, F}
#define OUT1 const R* o[1] = {A}
            switch (form) {
            case 0: return Ani::GenerateElemMatRhs<T, R, I>(function<void(IO)>([id](IO x) { callback<I>(id, x.args, x.res, 2, x.w, x.iw, x.user_data, x.allocator, x.res, true); }), r, c, nw, ni, b1, b2);
            case 1: return Ani::GenerateElemMatRhs<T, R, I>(function<void(const R**, R*, R*)>([id](const R** a, R* A, R* F) { OUT2; callback<I>(id, a, o, 2, 0, 0, 0, (P*)0, 0, false); }), r, c);
            case 2: return Ani::GenerateElemMatRhs<T, R, I>(function<void(const R**, R*, R*, void*)>([id](const R** a, R* A, R* F, void* u) { OUT2; callback<I>(id, a, o, 2, 0, 0, u, (P*)0, 0, false); }), r, c);
            case 3: return Ani::GenerateElemMatRhs<T, R, I>(function<void(const R**, R*, R*, R*, I*, void*)>([id](const R** a, R* A, R* F, R* w, I* iw, void* u) { OUT2; callback<I>(id, a, o, 2, w, iw, u, (P*)0, 0, false); }), r, c, nw, ni);
            case 4: return Ani::GenerateElemMatRhs<T, R, I>(function<void(const R**, R*, R*, R*, I*)>([id](const R** a, R* A, R* F, R* w, I* iw) { OUT2; callback<I>(id, a, o, 2, w, iw, 0, (P*)0, 0, false); }), r, c, nw, ni);
            default: return Ani::GenerateElemMatRhs<T, R, I>(function<void(const R**, R*, R*, R*, I*, void*, P*)>([id](const R** a, R* A, R* F, R* w, I* iw, void* u, P* p) { OUT2; callback<I>(id, a, o, 2, w, iw, u, p, 0, false); }), r, c, nw, ni);
            }
        }
        if (kind == 1) switch (form) {
            case 0: return Ani::GenerateElemMat<T, R, I>(function<void(IO)>([id](IO x) { callback<I>(id, x.args, x.res, 1, x.w, x.iw, x.user_data, x.allocator, x.res, true); }), r, c, nw, ni, b1, b2);
            case 1: return Ani::GenerateElemMat<T, R, I>(function<void(const R**, R*)>([id](const R** a, R* A) { OUT1; callback<I>(id, a, o, 1, 0, 0, 0, (P*)0, 0, false); }), r, c);
            case 2: return Ani::GenerateElemMat<T, R, I>(function<void(const R**, R*, void*)>([id](const R** a, R* A, void* u) { OUT1; callback<I>(id, a, o, 1, 0, 0, u, (P*)0, 0, false); }), r, c);
            case 3: return Ani::GenerateElemMat<T, R, I>(function<void(const R**, R*, R*, I*, void*)>([id](const R** a, R* A, R* w, I* iw, void* u) { OUT1; callback<I>(id, a, o, 1, w, iw, u, (P*)0, 0, false); }), r, c, nw, ni);
            case 4: return Ani::GenerateElemMat<T, R, I>(function<void(const R**, R*, R*, I*)>([id](const R** a, R* A, R* w, I* iw) { OUT1; callback<I>(id, a, o, 1, w, iw, 0, (P*)0, 0, false); }), r, c, nw, ni);
            default: return Ani::GenerateElemMat<T, R, I>(function<void(const R**, R*, R*, I*, void*, P*)>([id](const R** a, R* A, R* w, I* iw, void* u, P* p) { OUT1; callback<I>(id, a, o, 1, w, iw, u, p, 0, false); }), r, c, nw, ni);
        }
        switch (form) {
            case 0: return Ani::GenerateElemRhs<T, R, I>(function<void(IO)>([id](IO x) { callback<I>(id, x.args, x.res, 1, x.w, x.iw, x.user_data, x.allocator, x.res, true); }), r, nw, ni, b1, b2);
            case 1: return Ani::GenerateElemRhs<T, R, I>(function<void(const R**, R*)>([id](const R** a, R* A) { OUT1; callback<I>(id, a, o, 1, 0, 0, 0, (P*)0, 0, false); }), r);
            case 2: return Ani::GenerateElemRhs<T, R, I>(function<void(const R**, R*, void*)>([id](const R** a, R* A, void* u) { OUT1; callback<I>(id, a, o, 1, 0, 0, u, (P*)0, 0, false); }), r);
            case 3: return Ani::GenerateElemRhs<T, R, I>(function<void(const R**, R*, R*, I*, void*)>([id](const R** a, R* A, R* w, I* iw, void* u) { OUT1; callback<I>(id, a, o, 1, w, iw, u, (P*)0, 0, false); }), r, nw, ni);
            case 4: return Ani::GenerateElemRhs<T, R, I>(function<void(const R**, R*, R*, I*)>([id](const R** a, R* A, R* w, I* iw) { OUT1; callback<I>(id, a, o, 1, w, iw, 0, (P*)0, 0, false); }), r, nw, ni);
            default: return Ani::GenerateElemRhs<T, R, I>(function<void(const R**, R*, R*, I*, void*, P*)>([id](const R** a, R* A, R* w, I* iw, void* u, P* p) { OUT1; callback<I>(id, a, o, 1, w, iw, u, p, 0, false); }), r, nw, ni);
        }
    }
    static D custom(Spec& s) { // direct construction, sparse outputs, result code
        int id = s.id; const Spec* sp = &s; int nout = s.nout;
        s.has_w = s.has_ud = s.has_pool = true; s.sparse = true; s.ret = true; s.nin = 3;
        using S = Ani::MatSparsity<I>;
        std::vector<S> in{S::make_as_dense(3, 1), S::make_as_dense(3, 2), S::make_as_dense(4, 1)}, out;
        for (int k = 0; k < nout; ++k) out.push_back(pattern(s.r, s.c, s.id + k));
        return D([id, nout, sp](const R** a, R** res, R* w, I* iw, void* u, P* p) -> int { callback<I>(id, a, res, nout, w, iw, u, p, res, true); return sp->code; }, in, out, s.nw, s.niw, s.ud, s.dyn);
    }
    static Ani::MatSparsity<I> pattern(long r, long c, int salt) {
        std::vector<I> col{0}, row;
        for (long j = 0; j < c; ++j) { for (long i = 0; i < r; ++i) if ((i + j + salt) % 3 != 0) row.push_back((I)i); col.push_back((I)row.size()); }
        return Ani::MatSparsity<I>::make_as_sparse((I)row.size(), (I)r, (I)c, col, row);
    }
};

template <ThreadPar::Type T, class I> struct World {
    using D = typename Gen<T, I>::D;
    using H = Ani::MatFuncWrapHolder<T, double, I>;
    struct Slot { int owner = -1; void* pool = nullptr; };
    struct Memory { std::map<long, Slot> slots; };       // of one wrapper
    struct Inst { D* d = nullptr; H* h = nullptr; Spec* s = nullptr; std::shared_ptr<Memory> m; };
    struct Hold { int inst; bool mine; long a, b; bool rng; };
    struct Task { std::vector<Hold> held; std::vector<Inst> own; };
    std::vector<std::unique_ptr<Spec>> specs;
    std::vector<Inst> shared;
    std::vector<Task> task;
    long evals = 0;

    template <class F> auto with(Inst& x, F f) -> decltype(f(*x.d)) { Loud l; if (x.h) return f(*x.h); return f(*x.d); }
    // conversions between the packed and the dense form of a matrix with the given pattern
    template <class V, class P, class B> void view(V v, long r, long co, long nnz, P in, B bad) {
        size_t n = (size_t)(r * co), z = (size_t)nnz;
        std::vector<double> packed(z + 1), dense(n + 1, -7), back(z + 1, -7), in_place(n + 1, -7), want(n, 2.5); std::vector<char> tmpl(n + 1, 9); std::vector<long> col((size_t)co + 1, -1), row(z + 1, -7);
        for (size_t i = 0; i < z; ++i) in_place[i] = packed[i] = (double)(i + 1);
        long q = 0; for (long j = 0; j < co; ++j) for (long i = 0; i < r; ++i) if (in(i, j)) want[(size_t)(i + j * r)] = packed[(size_t)q++];
        { Loud l; v.densify(packed.data(), dense.data(), 2.5); v.densify(in_place.data()); v.sparsify(dense.data(), back.data()); v.template fillTemplate<std::vector<char>::iterator, char>(tmpl.begin()); v.copyCSC(col.data(), row.data()); }
        if (dense[n] != -7 || back[z] != -7 || (z < n && in_place[n] != -7) || tmpl[n] != 9 || row[z] != -7) bad("matrix conversion writes beyond the end for an output");
        q = 0;
        for (long j = 0; j < co; ++j) {
            if (col[(size_t)j] != q) bad("columns of the packed form of an output");
            for (long i = 0; i < r; ++i) {
                size_t d = (size_t)(i + j * r); bool is = in(i, j);
                if (dense[d] != want[d]) bad("dense form of an output");
                if (in_place[d] != (is ? want[d] : 0)) bad("dense form in place of an output");
                if ((tmpl[d] != 0) != is) bad("template of an output");
                if (is) { if (back[(size_t)q] != want[d]) bad("packed form of an output"); if (row[(size_t)q] != i) bad("rows of the packed form of an output"); q++; }
            }
        }
        if (col[(size_t)co] != q) bad("columns of the packed form of an output");
        probe("matrix-converted");
    }
    void compare(Inst& x, const char* what) {
        const Spec& s = *x.s;
        auto bad = [&](const char* w) { violation("differs", "%s: %s of function %d", what, w, s.id); };
        size_t a, b, c, d; with(x, [&](auto& f) { f.working_sizes(a, b, c, d); return 0; });
        if (a < s.nin || b < (size_t)s.nout) bad("argument array sizes");
        if (c != s.nw) bad("real work array size"); if (d != s.niw) bad("integer work array size");
        if (with(x, [&](auto& f) { return f.n_in(); }) != s.nin) bad("number of inputs");
        if (with(x, [&](auto& f) { return f.n_out(); }) != (size_t)s.nout) bad("number of outputs");
        if (with(x, [&](auto& f) { return f.is_user_data_required(); }) != s.ud) bad("need for user data");
        if (!with(x, [&](auto& f) { return f.isValid(); })) bad("validity");
        for (int k = 0; k < s.nout; ++k) {
            long r = s.r, co = s.sparse ? s.c : (k == 1 ? 1 : s.c);
            long nnz = r * co; Ani::MatSparsity<I> ref;
            if (s.sparse) { ref = Gen<T, I>::pattern(s.r, s.c, s.id + k); nnz = ref.m_nnz; }
            if (with(x, [&](auto& f) { return f.out_size1((I)k); }) != r || with(x, [&](auto& f) { return f.out_size2((I)k); }) != co) bad("output shape");
            if (with(x, [&](auto& f) { return f.out_nnz((I)k); }) != nnz) bad("output count");
            std::vector<I> col((size_t)co + 1, -1), row((size_t)nnz, -1);
            with(x, [&](auto& f) { f.out_csc((I)k, col.data(), row.data()); return 0; });
            for (long j = 0, q = 0; j < co; ++j) { if (col[(size_t)j] != q) bad("output columns"); for (long i = 0; i < r; ++i) if (!s.sparse || (i + j + s.id + k) % 3 != 0) { if (row[(size_t)q] != i) bad("output rows"); q++; } if (col[(size_t)j + 1] != q) bad("output columns"); }
            auto v = with(x, [&](auto& f) { return f.out_sparsity((I)k); });
            if (v.m_sz1 != r || v.m_sz2 != co || v.m_nnz != nnz) bad("output pattern");
            view(v, r, co, nnz, [&](long i, long j) { return !s.sparse || (i + j + s.id + k) % 3 != 0; }, bad);
            if (s.sparse) { auto u = Ani::MatSparsityView<I>::make_as_sparse((I)nnz, (I)r, (I)co, v.m_colind, v.m_row); view(u, r, co, nnz, [&](long i, long j) { return (i + j + s.id + k) % 3 != 0; }, bad); }
        }
        for (size_t k = 0; k < s.nin; ++k) {
            long r = s.sparse && k == 2 ? 4 : 3, co = s.sparse && k == 1 ? 2 : 1;
            if (with(x, [&](auto& f) { return f.in_size1((I)k); }) != r || with(x, [&](auto& f) { return f.in_size2((I)k); }) != co || with(x, [&](auto& f) { return f.in_nnz((I)k); }) != r * co) bad("input shape");
        }
    }
    Inst* pick(const Op& o, long sel, int* idx, bool* mine) {
        Task& t = task[(size_t)o.th];
        size_t n = shared.size() + t.own.size(); size_t k = (size_t)sel % n;
        *mine = k >= shared.size(); *idx = (int)(*mine ? k - shared.size() : k);
        return *mine ? &t.own[(size_t)*idx] : &shared[(size_t)*idx];
    }
    Inst& inst(int t, const Hold& h) { return h.mine ? task[(size_t)t].own[(size_t)h.inst] : shared[(size_t)h.inst]; }
    void own(Inst& x, long s, int t) {
        if (!x.s->dyn) return;
        if (s < 0) violation("slot-number", "slot %ld", s);
        Slot& y = x.m->slots[s];
        if (y.owner >= 0) violation("shared-slot", "task %d is given slot %ld that task %d holds", t, s, y.owner);
        y.owner = t; y.pool = nullptr;
    }
    void setup(const Op& o) {
        int k; bool mine; Inst& x = *pick(o, o.at(0), &k, &mine);
        try {
            I id = with(x, [&](auto& f) { return f.setup_and_alloc_memory(); });
            own(x, id, o.th); task[(size_t)o.th].held.push_back({k, mine, (long)id, (long)id + 1, false});
            probe("setup");
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "set-up fails"); probe("failed-setup"); }
    }
    void setup_range(const Op& o) {
        int k; bool mine; Inst& x = *pick(o, o.at(0), &k, &mine); long n = o.at(1);
        try {
            auto r = with(x, [&](auto& f) { return f.setup_and_alloc_memory_range((I)n); });
            if (r.second - r.first != n) violation("range-length", "a range of %ld slots is [%ld,%ld)", n, (long)r.first, (long)r.second);
            for (long s = r.first; s < r.second; ++s) own(x, s, o.th);
            task[(size_t)o.th].held.push_back({k, mine, (long)r.first, (long)r.second, true});
            probe("range");
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "set-up of a range fails"); probe("failed-setup"); }
    }
    void eval_with(const Op& o, Inst& x, long slot) {
        const Spec& s = *x.s;
        double in[4][4]; const double* args[6]; double buf[3][160]; double* res[4]; double w[40]; I iw[40]; int ud;
        double sum = 0;
        for (size_t k = 0; k < 4; ++k) { for (int j = 0; j < 4; ++j) in[k][j] = (double)(o.id * 7 + (long)k * 3 + j); args[k] = in[k]; if (k < s.nin) sum += in[k][0] + 2 * in[k][1] + 4 * in[k][2]; }
        args[4] = args[5] = nullptr; res[2] = res[3] = nullptr;
        Ev e; e.s = &s; e.args = args; e.res = res; for (int k = 0; k < 3; ++k) { res[k] = buf[k]; e.out.push_back(buf[k]); for (double& v : buf[k]) v = -1; }
        e.w = o.at(6) % 5 == 0 ? nullptr : w; e.iw = o.at(6) % 7 == 0 ? nullptr : iw; e.ud = &ud;
        e.mode = o.at(3) % 6 == 5 ? 1 : 0; e.work = o.at(4); e.pool_n = o.at(5) + 1;
        e.want_pool = s.dyn && slot >= 0;
        void* np = nullptr; e.slot_pool = e.want_pool ? &x.m->slots[slot].pool : &np;
        (*evs)[self()] = &e;
        int rc = -12345; int outcome = 0;
        try {
            if (o.at(2) % 2) {
                typename D::Memory m; m.m_args = args; m.m_res = res; m.m_w = (double*)e.w; m.m_iw = (I*)e.iw; m.user_data = &ud; m.mem_id = (I)slot;
                Loud l; if (x.h) rc = (*x.h)(m); else rc = static_cast<const Ani::MatFuncWrap<double, I>&>(*x.d)(m);
            } else { Loud l; if (x.h) rc = (*x.h)(args, res, (double*)e.w, (I*)e.iw, &ud, (I)slot); else rc = (*x.d)(args, res, (double*)e.w, (I*)e.iw, &ud, (I)slot); }
        } catch (const Fail& f) { outcome = 1; if (e.mode != 1) violation("spurious-failure", "evaluation fails"); }
        catch (const std::bad_alloc&) { outcome = 2; if (!fired()) violation("spurious-failure", "evaluation runs out of memory"); probe("failed-evaluation"); }
        (*evs)[self()] = nullptr;
        if (outcome == 2 && !e.called) return;   // failed before the callback
        if (e.called != 1) violation("not-called", "the callback was called %ld times", e.called);
        if (e.mode == 1 && outcome == 0) violation("error-lost", "the failure of the callback does not reach the caller");
        if (outcome == 0) {
            if (rc != (s.ret ? s.code : 0)) violation("result-code", "result code %d instead of %d", rc, s.ret ? s.code : 0);
            for (int k = 0; k < s.nout; ++k) if (buf[k][0] != sum + 10 * k + s.id) violation("result", "output %d of function %d is %g", k, s.id, buf[k][0]);
            for (int k = 0; k < 3; ++k) for (int j = k < s.nout ? 1 : 0; j < 160; ++j) if (buf[k][j] != -1) violation("result", "output %d is overwritten", k);
            evals++;
        }
    }
    void eval(const Op& o) {
        Task& t = task[(size_t)o.th];
        if (t.held.empty() || o.at(0) % 5 == 4) { int k; bool mine; Inst& x = *pick(o, o.at(1), &k, &mine); probe("evaluation-without-slot"); eval_with(o, x, -1); return; }
        Hold h = t.held[(size_t)(o.at(0) % (long)t.held.size())]; if (h.a == h.b) return;
        eval_with(o, inst(o.th, h), h.a + o.at(1) % (h.b - h.a));
    }
    void compact(const Op& o) {
        Task& t = task[(size_t)o.th]; if (t.held.empty()) return;
        Hold h = t.held[(size_t)(o.at(0) % (long)t.held.size())]; if (h.a == h.b) return;
        Inst& x = inst(o.th, h); I s = (I)(h.a + o.at(1) % (h.b - h.a));
        try { with(x, [&](auto& f) { f.defragment_memory(s); return 0; }); probe("compacted"); }
        catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "compaction fails"); probe("failed-compaction"); }
    }
    void release_hold(int t, const Hold& h) {
        Inst& x = inst(t, h);
        if (x.s->dyn) for (long s = h.a; s < h.b; ++s) { x.m->slots[s].owner = -1; x.m->slots[s].pool = nullptr; }
        auto f = [&] { with(x, [&](auto& f) { if (h.rng) f.release_memory_range({(I)h.a, (I)h.b}); else f.release_memory((I)h.a); return 0; }); };
        try { f(); } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "release fails"); arm(0); f(); }
        probe("released");
    }
    void release(const Op& o) {
        Task& t = task[(size_t)o.th]; if (t.held.empty()) return;
        size_t k = (size_t)(o.at(0) % (long)t.held.size()); Hold h = t.held[k]; t.held.erase(t.held.begin() + (long)k);
        release_hold(o.th, h);
    }
    void copy(const Op& o) { // a private copy of a (possibly shared) wrapper
        Task& t = task[(size_t)o.th]; if (t.own.size() >= 4) return;
        int k; bool mine; Inst& x = *pick(o, o.at(0), &k, &mine);
        Inst y; y.s = x.s; y.m = std::make_shared<Memory>();
        D* src = x.d;
        try {
            long how = o.at(1) % 6;
            if (how == 0) { Loud l; y.d = new D(*src); }
            else if (how == 1) { D tmp; Quiet q; { Loud l; tmp = *src; y.d = new D(std::move(tmp)); } }
            else if (how == 2) { Loud l; std::unique_ptr<D> q(new D()); *q = *src; y.d = q.release(); }
            else if (how == 3) { Loud l; std::unique_ptr<D> q(new D()); D tmp(*src); *q = std::move(tmp); y.d = q.release(); }
            else if (how == 4) { Loud l; D tmp(*src); y.h = new H(std::move(tmp)); y.d = static_cast<D*>(y.h->m_invoker.get()); }
            else { Loud l; std::unique_ptr<H> q(new H()); *q = std::make_shared<D>(*src); y.h = q.release(); y.d = static_cast<D*>(y.h->m_invoker.get()); }
        } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "copying fails"); probe("failed-copy"); if (y.d || y.h) harness_error("copy"); return; }
        arm(0);
        compare(y, "a copy");
        t.own.push_back(y);
        probe("copied");
    }
    void assign(const Op& o) { // over a private wrapper
        Task& t = task[(size_t)o.th]; if (t.own.empty()) return;
        size_t j = (size_t)(o.at(1) % (long)t.own.size());
        for (auto& h : t.held) if (h.mine && h.inst == (int)j) return; // contract: nothing is in use
        int k; bool mine; Inst& x = *pick(o, o.at(0), &k, &mine);
        Inst& y = t.own[j];
        if (y.h) { // a holder that shares the function of the other one
            if (!x.h) return;
            LOUD(*y.h = *x.h); y.d = x.d; y.s = x.s; y.m = x.m; compare(y, "an assigned holder"); probe("holder-assigned"); return;
        }
        bool dyn = y.s->dyn; 
        auto f = [&] { Loud l; *y.d = *x.d; };
        try { f(); } catch (const std::bad_alloc&) { if (!fired()) violation("spurious-failure", "assignment fails"); probe("failed-copy"); arm(0); f(); }
        arm(0);
        y.s = x.s; (void)dyn;
        compare(y, "an assigned function"); compare(x, "the source of an assignment");
        probe("assigned");
    }
    void finish(const Plan& p) {
        long fin = p.get("fin");
        for (size_t t = 0; t < task.size(); ++t) { if (fin == 0) for (auto& h : task[t].held) release_hold((int)t, h); task[t].held.clear(); }
        std::vector<Inst*> all; for (auto& x : shared) all.push_back(&x); for (auto& t : task) for (auto& x : t.own) all.push_back(&x);
        for (Inst* x : all) {
            if (fin == 1) with(*x, [&](auto& f) { f.release_all_memory(); return 0; });
            if (fin == 2) with(*x, [&](auto& f) { f.clear_memory(); return 0; });
        }
        for (Inst* x : all) { x->m->slots.clear(); if (fin == 1) with(*x, [&](auto& f) { f.release_all_memory(); return 0; }); compare(*x, "at the end"); }
        // still usable: a range for the master, then single slots
        Op o; o.th = 0; o.id = 77;
        for (Inst* x : all) {
            if (fin == 3) continue;
            std::shared_ptr<Memory> m = x->m; m->slots.clear();
            auto r = with(*x, [&](auto& f) { return f.setup_and_alloc_memory_range((I)3); });
            for (long s = r.first; s < r.second; ++s) own(*x, s, 0);
            I e = with(*x, [&](auto& f) { return f.setup_and_alloc_memory(); });
            own(*x, e, 0);
            for (long s = r.first; s < r.second; ++s) { o.v = {0, 0, s, 0, 1, 4, 1}; eval_with(o, *x, x->s->dyn ? s : -1); }
            o.v = {0, 0, 1, 0, 1, 4, 1}; eval_with(o, *x, x->s->dyn ? (long)e : -1);
            with(*x, [&](auto& f) { f.release_memory_range(r); f.release_memory(e); return 0; });
            m->slots.clear();
        }
        for (Inst* x : all) { Loud l; if (x->h) delete x->h; else delete x->d; }
    }
};
template <ThreadPar::Type T, class I> void run_t(const Plan& p) {
    set_poison((int)p.get("poison"), p.seed);
    evs = new std::map<int, Ev*>(); busy_pool = new std::map<void*, int>(); concurrent = overlap = 0;
    uint64_t mark = alloc_mark();
    {
        World<T, I> W; W.task.resize((size_t)std::max(1, p.threads()));
        for (long k = 0; k < p.get("nf"); ++k) {
            char nm[16]; auto par = [&](const char* s) { snprintf(nm, sizeof nm, "%s%ld", s, k); return p.get(nm); };
            W.specs.emplace_back(new Spec()); Spec& s = *W.specs.back();
            s.id = (int)k + 1; s.variant = (int)par("v"); s.r = par("r"); s.c = par("c"); s.nw = (size_t)par("w"); s.niw = (size_t)par("i"); s.ud = par("u") != 0; s.dyn = par("d") != 0; s.code = (int)par("rc");
            typename World<T, I>::Inst x; x.s = &s; x.m = std::make_shared<typename World<T, I>::Memory>();
            { Loud l; std::unique_ptr<typename World<T, I>::D> d(new typename World<T, I>::D(Gen<T, I>::make(s)));
              if (k % 2) { x.h = new typename World<T, I>::H(std::shared_ptr<Ani::MatFuncWrap<double, I>>(std::move(d))); x.d = static_cast<typename World<T, I>::D*>(x.h->m_invoker.get()); } else x.d = d.release(); }
            W.compare(x, "a new function");
            W.shared.push_back(x);
        }
        run_tasks(p, (int)p.get("tasks"), [&](const Op& o) {
            if (o.kind == "setup") W.setup(o); else if (o.kind == "range") W.setup_range(o); else if (o.kind == "eval") W.eval(o); else if (o.kind == "compact") W.compact(o);
            else if (o.kind == "rel") W.release(o); else if (o.kind == "copy") W.copy(o); else if (o.kind == "assign") W.assign(o);
        });
        W.finish(p);
        if (W.evals > 1) nontrivial();
        mixhash((uint64_t)W.evals);
    }
    if (live_since(mark)) violation("leak", "%zu blocks leaked", live_since(mark));
}
void run(const Plan& p) {
    Quiet q;
    bool i = p.get("int") != 0; long m = p.get("mutex");
    if (m == 0 && p.threads() <= 1) { if (i) run_t<ThreadPar::Type::NONE, int>(p); else run_t<ThreadPar::Type::NONE, long>(p); return; }
#ifdef WITH_OPENMP
    if (m == 2) { if (i) run_t<ThreadPar::Type::OMP, int>(p); else run_t<ThreadPar::Type::OMP, long>(p); return; }
#endif
    if (i) run_t<ThreadPar::Type::STD, int>(p); else run_t<ThreadPar::Type::STD, long>(p);
}
void gen(Plan& p, Rng& r) {
    p.par["int"] = r.below(2); p.par["poison"] = r.below(8);
    int nt = r.chance(1, 5) ? 1 : (int)r.in(2, 4);
    p.par["mutex"] = nt == 1 ? r.below(3) : r.in(1, 2); p.par["tasks"] = r.in(1, 2); p.par["fin"] = r.below(4);
    long nf = r.in(1, 3); p.par["nf"] = nf;
    for (long k = 0; k < nf; ++k) {
        std::string s = std::to_string(k);
        p.par["v" + s] = r.chance(1, 2) ? r.pick(std::vector<long>{0, 1, 2, 15, 16, 17, 18, 19, 20}) : r.below(21);
        p.par["r" + s] = r.in(1, 12); p.par["c" + s] = r.in(1, 12); p.par["w" + s] = r.in(0, 9); p.par["i" + s] = r.in(0, 9); p.par["u" + s] = r.below(2); p.par["d" + s] = r.chance(4, 5); p.par["rc" + s] = r.below(3);
    }
    bool faults = r.chance(1, 2);
    for (int t = 0; t < nt; ++t) {
        long n = nt == 1 ? r.in(3, 20) : r.in(2, 8);
        for (long k = 0; k < n; ++k) {
            long w = r.below(20); Op* o;
            if (k == 0 || w < 3) o = r.chance(1, 3) ? &p.add(t, "range", {r.below(6), r.below(4)}) : &p.add(t, "setup", {r.below(6)});
            else if (w < 11) o = &p.add(t, "eval", {r.below(20), r.below(8), r.below(2), r.below(12), r.below(4), r.below(8), r.below(35)});
            else if (w < 13) o = &p.add(t, "compact", {r.below(8), r.below(4)});
            else if (w < 16) o = &p.add(t, "rel", {r.below(8)});
            else if (w < 18) o = &p.add(t, "copy", {r.below(6), r.below(6)});
            else o = &p.add(t, "assign", {r.below(6), r.below(4)});
            if (faults && r.chance(1, 6)) o->fail = (int)r.in(1, 8);
        }
    }
    gen_schedule(p, r, 3000);
}
Register reg(Scenario{"C04", "shared-function", 1, gen, run});
} // namespace
