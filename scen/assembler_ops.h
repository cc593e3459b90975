// included into assembler.cpp: operations of one rank and the scenarios
template <class Tr> struct Ops : Job<Tr> {
    typedef Job<Tr> J; using J::b; using J::w; using J::cfg; using J::R; using J::as; using J::what; using J::udmode; using J::work;
    std::vector<std::unique_ptr<Slot>> slots; long ntag = 0; std::map<std::array<int, 6>, long> natmap;
    Ops(RankBase& b_, bool ref_) : J(b_, ref_) { for (int k = 0; k < 2; ++k) slots.emplace_back(new Slot); }
    void coll(const char* k) { if (w.nr > 1) { Loud l; int x = 0; R.m.collective(k, &x, [](std::vector<void*>&) {}); } }

    // ------------------------------------------------------------------------------------------------ assembly
    void assemble(const Op& o) {
        Slot& s = *slots[(size_t)o.at(0) % slots.size()]; int wh = (int)o.at(1); bool needM = wh != 2, needV = wh == 0 || wh == 2;
        if (needM && (o.at(2) || !s.okM)) { s.M = INMOST::Sparse::Matrix(); s.A.clear(); s.may.clear(); s.tmpl.clear(); s.templated = false; s.okM = true; }
        if (needV && (o.at(2) || !s.okV)) { s.V = INMOST::Sparse::Vector(); s.F.assign((size_t)w.total(), 0); s.okV = true; }
        if (s.F.empty()) s.F.assign((size_t)w.total(), 0);
        double drop = o.at(6) ? 2.5 : 1e-100; udmode = (int)o.at(7); work = (int)o.at(11);
        Ani::AssmOpts opt; if (udmode == 0) opt.SetUserData(&this->ud); if (o.at(6)) opt.SetDropVal(drop);
        opt.SetUseOrderedInsert(o.at(3)); opt.SetIsMtxSorted(o.at(4) && J::sorted_rows(s.M)); opt.SetIsMtxIncludeTemplate(o.at(5) && s.templated);
        if (opt.is_mtx_sorted) probe("sorted-matrix"); if (opt.is_mtx_include_template) probe(opt.use_ordered_insert ? "ordered-template" : "template-used"); if (opt.use_ordered_insert) probe("ordered-insert");
        this->begin(wh); int bad = (int)o.at(8); if (wh == 3) bad = 0; if (bad == 5 && (Tr::MatFuncT::parallel_type != ThreadPar::Type::NONE || w.nr > 1)) bad = 0;
        this->badmode = bad; this->badcell = (int)(o.at(9) % (long)w.g.cells.size()); this->badi = (int)(o.at(10) % w.sp.n); this->badj = (int)(o.at(10) / 64 % w.sp.n);
        bool faults = Tr::MatFuncT::parallel_type == ThreadPar::Type::NONE && w.nr == 1; int status = 77; bool hit = false, ex = false, thr = false;
        arm(faults ? o.fail : 0);
        try {
            Loud l;
            status = wh == 0 ? as->Assemble(s.M, s.V, opt) : wh == 1 ? as->AssembleMatrix(s.M, opt) : wh == 2 ? as->AssembleRHS(s.V, opt) : as->AssembleTemplate(s.M);
        } catch (const std::bad_alloc&) { ex = true; } catch (const Thrown& t) { thr = true; if (t.k != this->badcell) violation("exception", "another exception arrives"); }
        hit = fired(); arm(0);
        if (ex && !hit) violation("spurious-failure", "assembly fails for lack of memory");
        if (thr && !this->threw) violation("exception", "an exception from nowhere"); if (!thr && this->threw && !ex) violation("exception-lost", "the handler throws, but the assembly returns %d", status);
        if (ex || thr) { probe(ex ? "assembly-out-of-memory" : "handler-exception"); if (needM) s.okM = false; if (needV) s.okV = false; this->running = 0; return; }
        if (hit) violation("error-lost", "an allocation fails, but the assembly returns %d", status);
        if (this->bad_hit) { probe("non-finite"); if (status >= 0) violation("non-finite-not-reported", "the local function returns a value that is not finite, but the assembly returns %d", status); }
        else if (status != 0) violation("status", "the assembly returns %d", status);
        mixhash((uint64_t)status);
        if (bad) { if (needM) s.okM = false; if (needV) s.okV = false; return; }
        if (wh != 3) this->all_seen(); if (wh == 3) { s.templated = true; probe("template"); }
        this->expect(s, wh, drop);
        this->compare(s, wh, wh == 3 || (opt.use_ordered_insert && needM));
        if (this->maxrunning > 1) probe("parallel-assembly");
    }
    void teardown() { slots.clear(); Loud l; as.reset(); }
    // the mesh gets other node numbers: values stored on the mesh are moved
    void renum(const Op& o) {
        if (w.nr > 1 || !b.order.size()) return; uint64_t seed = (uint64_t)o.at(0) + 9; auto ts = mkvs(); INMOST::Sparse::Vector x; fill(x, seed); LOUD(as->SaveSolution(x, ts));
        auto old = R.m.CreateTag("old" + std::to_string(++ntag), INMOST::DATA_INTEGER, INMOST::NODE, INMOST::NONE, 1); for (size_t l = 0; l < R.lid2g[0].size(); ++l) old.d->i[0][l] = R.m.gid_tag.d->i[0][l];
        w.renumber(mix((uint64_t)o.at(1), 5)); w.push_gids(); for (int d = 0; d < 4; ++d) if (R.m.have_gid[d]) for (size_t l = 0; l < R.lid2g[d].size(); ++l) if (R.lid2g[d][l] >= 0) R.m.gid_tag.d->i[d][l] = R.m.gids[d][l];
        for (size_t v = 0; v < ts.size(); ++v) { auto d = build_var(w.sp.vars[v], cfg.named); LOUD(Ani::reorder_fem_vars_data({ts[v]}, *d.base(), old)); check_var(ts[v], (int)v, seed, "after renumbering"); }
        probe("renumbered"); R.m.DeleteTag(old); for (auto& t : ts) R.m.DeleteTag(t);
    }
    // nodes, edges and faces of a cell are the same from every form of the function
    void connectivity(int lid, bool reorder) {
        INMOST::Cell c(&R.m, INMOST::ComposeHandle(3, lid)); int g = R.lid2g[3][(size_t)lid]; INMOST::HandleType h[3][6]; INMOST::Node n[4]; INMOST::Edge e[6]; INMOST::Face f[4];
        INMOST::ElementArray<INMOST::Node> an(&R.m, 4); INMOST::ElementArray<INMOST::Edge> ae(&R.m, 6); INMOST::ElementArray<INMOST::Face> af(&R.m, 4);
        LOUD(Ani::collectConnectivityInfo(c, h[0], h[1], h[2], reorder, true); Ani::collectConnectivityInfo(c, n, e, f, reorder, true); Ani::collectConnectivityInfo(c, an, ae, af, reorder, true));
        std::array<int, 4> L; for (int k = 0; k < 4; ++k) { L[(size_t)k] = R.lid2g[0][(size_t)INMOST::HandleLid(h[0][k])]; if (n[k].GetHandle() != h[0][k] || an[(size_t)k].GetHandle() != h[0][k]) violation("nodes", "forms of the connectivity of cell %d differ in node %d", g, k); }
        if (reorder && !(w.g.det(L) < 0)) violation("orientation", "the nodes of cell %d are not in positive order", g);
        for (int k = 0; k < 6; ++k) { std::vector<int> v{L[(size_t)EDGE_V[k][0]], L[(size_t)EDGE_V[k][1]]}; std::sort(v.begin(), v.end()); if (R.lid2g[1][(size_t)INMOST::HandleLid(h[1][k])] != w.g.find[1].at(v) || e[k].GetHandle() != h[1][k] || ae[(size_t)k].GetHandle() != h[1][k]) violation("edges", "edge %d of cell %d does not join its nodes", k, g); }
        for (int k = 0; k < 4; ++k) { std::vector<int> v{L[(size_t)face_v(k, 0)], L[(size_t)face_v(k, 1)], L[(size_t)face_v(k, 2)]}; std::sort(v.begin(), v.end()); if (R.lid2g[2][(size_t)INMOST::HandleLid(h[2][k])] != w.g.find[2].at(v) || f[k].GetHandle() != h[2][k] || af[(size_t)k].GetHandle() != h[2][k]) violation("faces", "face %d of cell %d does not have its nodes", k, g); }
    }
    // ------------------------------------------------------------------------------------------------ numbering
    void numbering(const Op& o, bool full) {
        for (size_t l = 0; l < R.lid2g[3].size(); ++l) if (R.lid2g[3][l] >= 0) connectivity((int)l, ((size_t)o.at(0) + l) % 2 != 0);
        typedef IGE::iteratorByGeom G; long beg = as->getBegInd(), end = as->getEndInd(); auto& e = as->m_enum;
        // every degree of freedom visible here: the natural index gives a row of the right element, the same on every process
        std::map<std::array<int, 6>, long> here;
        for (int d = 0; d < 4; ++d) for (size_t l = 0; l < R.lid2g[d].size(); ++l) {
            int g = R.lid2g[d][l]; if (g < 0) continue; bool ghost = R.m.status[d][l] == INMOST::Element::Ghost; std::multiset<long> got, want;
            for (int et = 0; et < 6; ++et) if (ET_DIM[et] == d) for (auto& x : w.sp.elem[et]) {
                auto n = this->nat(d, (int)l, x); long c, rr = -7; LOUD(c = e.OrderC(n).id; if (!ghost) rr = e.OrderR(n).id);
                if (c < 0 || c >= w.total()) violation("number", "degree of freedom %d/%d/%d of an element of dimension %d (type %d) has number %ld of %ld", x.var, x.dim_id, x.lde, d, et, c, w.total());
                if (!ghost && rr != c) violation("number", "a degree of freedom has row %ld but column %ld", rr, c);
                auto& de = w.dof_ent[(size_t)w.at[(size_t)c]]; if (de.first != d || de.second != g) violation("number", "number %ld is given to a degree of freedom of another element", c);
                got.insert(c); here[{{d, g, et, x.var, x.dim_id, x.lde}}] = c;
                if (!ghost) { IGE::NaturalIndex back; LOUD(back = e(IGE::EnumerateIndex(c))); if (back.elem != n.elem || back.elem_type != n.elem_type || back.var_id != n.var_id || back.dim_id != n.dim_id || back.dim_elem_dof_id != n.dim_elem_dof_id) violation("inverse", "number %ld belongs to degree of freedom (%d %d %d %d) of element %d, but is mapped back to (%d %d %d %d) of element %d", c, (int)n.elem_type, n.var_id, n.dim_id, n.dim_elem_dof_id, (int)l, (int)back.elem_type, back.var_id, back.dim_id, back.dim_elem_dof_id, back.elem.isValid() ? back.elem.LocalID() : -1); }
            }
            for (size_t i = 0; i < w.dof_ent.size(); ++i) if (w.dof_ent[i] == std::make_pair(d, g)) want.insert(w.idx[i]);
            if (got != want) violation("number", "numbers of the degrees of freedom of an element of dimension %d are not those of its rows", d);
        }
        if (w.nr > 1) { static std::map<std::array<int, 6>, long>* all; if (&here) {} coll("numbering"); if (R.r == 0) all = new std::map<std::array<int, 6>, long>; coll("numbering"); for (auto& q : here) { auto it = all->insert(q).first; if (it->second != q.second) violation("different-numbers", "processes give numbers %ld and %ld to the same degree of freedom", it->second, q.second); } coll("numbering"); if (R.r == 0) { delete all; all = nullptr; } }
        if (!full) return;
        // traversal by number
        { long k = beg; Loud l; auto it = e.beginByVector(), ie = e.endByVector(); for (; it != ie; ++it, ++k) { if (it->GetVecInd().id != k) violation("by-number", "traversal by number gives %ld instead of %ld", it->GetVecInd().id, k); auto n = it->GetNatInd(); if (e.OrderR(n).id != k) violation("by-number", "traversal by number gives a wrong element for %ld", k); }
          if (k != end) violation("by-number", "traversal by number ends at %ld instead of %ld", k, end);
          if (end > beg) { auto x = e.beginByVector(); x += end - beg - 1; if (!(x >= e.beginByVector()) || !(e.beginByVector() <= x) || (x - e.beginByVector()) != end - beg - 1) violation("by-number", "iterators by number compare wrongly"); } }
        // traversal by place
        int v = o.at(0) ? (int)(o.at(0) % (long)w.sp.vars.size()) : G::ANY, dim = o.at(1) > 1 ? (int)(o.at(1) - 2) : G::ANY, lde = o.at(2) > 1 ? (int)(o.at(2) - 2) : G::ANY; unsigned char mask = (unsigned char)(o.at(3) & 63 ? o.at(3) & 63 : 63); long el = o.at(4) > 1 ? o.at(4) - 2 : G::ANY;
        std::map<std::array<int, 6>, int> want;
        for (int d = 0; d < 4; ++d) for (size_t l = 0; l < R.lid2g[d].size(); ++l) {
            int g = R.lid2g[d][l]; if (g < 0 || R.m.status[d][l] == INMOST::Element::Ghost || (el != G::ANY && el != (long)l)) continue;
            for (int et = 0; et < 6; ++et) if (ET_DIM[et] == d && (mask >> et & 1)) for (auto& x : w.sp.elem[et]) if ((v == G::ANY || x.var == v) && (dim == G::ANY || x.dim_id == dim) && (lde == G::ANY || x.lde == lde)) want[{{d, g, et, x.var, x.dim_id, x.lde}}]++;
        }
        { long left = (long)want.size(), steps = 0; Loud l; auto it = e.beginByGeom(v, dim, lde, mask, el), ie = e.endByGeom();
          for (; it != ie; ++it) {
              auto n = it->GetNatInd(); if (++steps > 100000 || !n.elem.isValid()) violation("by-place", "traversal by place leaves the mesh");
              int et = 0; while (et < 6 && n.elem_type != (1u << et)) ++et;
              std::array<int, 6> k{{n.elem.GetElementNum(), R.lid2g[n.elem.GetElementNum()][(size_t)n.elem.LocalID()], et, n.var_id, n.dim_id, n.dim_elem_dof_id}}; auto f = want.find(k);
              if (f == want.end()) violation("by-place", "traversal by place (variable %d, component %d, number %d, types %d, element %ld) visits (%d %d %d) on type %d of element %d", v, dim, lde, (int)mask, el, n.var_id, n.dim_id, n.dim_elem_dof_id, (int)n.elem_type, n.elem.LocalID());
              if (f->second-- != 1) violation("by-place", "traversal by place visits a degree of freedom twice"); --left;
              long id = it->GetVecInd().id; if (id != here.at(k)) violation("by-place", "traversal by place gives number %ld instead of %ld", id, here.at(k));
          }
          if (left) violation("by-place", "traversal by place (variable %d, component %d, number %d, types %d, element %ld) misses %ld degrees of freedom", v, dim, lde, (int)mask, el, left); }
        order(here);
        shifts();
    }
    // the promised order of the numbers
    void order(const std::map<std::array<int, 6>, long>& here) {
        enum { VAR, DIM, TYPE, ELEM, DOF }; std::array<int, 5> a; bool rev = false; bool mixed = (w.sp.mask & 6u) == 6u || (w.sp.mask & 24u) == 24u;
        switch (cfg.enumk) {
            case 0: a = {{TYPE, VAR, DIM, DOF, ELEM}}; if (mixed) return; break; case 1: a = {{TYPE, ELEM, VAR, DIM, DOF}}; if (mixed) return; break;
            case 2: a = {{VAR, DIM, TYPE, ELEM, DOF}}; break; case 3: a = {{VAR, TYPE, ELEM, DOF, DIM}}; break; case 4: a = {{TYPE, VAR, DIM, ELEM, DOF}}; break; case 5: a = {{TYPE, VAR, ELEM, DOF, DIM}}; break;
            default: { int perm[5] = {0, 1, 2, 3, 4}; for (int k = 0; k < cfg.arr % 120; ++k) std::next_permutation(perm, perm + 5); for (int k = 0; k < 5; ++k) a[(size_t)k] = perm[k]; rev = cfg.arr >= 120; }
        }
        std::vector<std::pair<std::array<int, 5>, long>> s;
        int g0[4] = {INT_MAX, INT_MAX, INT_MAX, INT_MAX}; // elements are counted from the first own one of their dimension
        for (int d = 0; d < 4; ++d) for (size_t g = 0; g < w.gid[d].size(); ++g) if (w.owner[d][g] == R.r) g0[d] = std::min(g0[d], w.gid[d][g]);
        for (auto& q : here) { auto& k = q.first; if (w.owner[k[0]][(size_t)k[1]] != R.r) continue; int val[5] = {k[3], k[4], k[2], w.gid[k[0]][(size_t)k[1]] - g0[k[0]], k[5]}; std::array<int, 5> t; for (int j = 0; j < 5; ++j) t[(size_t)j] = val[a[(size_t)j]]; s.push_back({t, q.second}); }
        std::sort(s.begin(), s.end()); if (rev) std::reverse(s.begin(), s.end());
        for (size_t k = 0; k < s.size(); ++k) if (s[k].second != as->getBegInd() + (long)k) violation("order", "numbers do not follow the promised order (policy %d, arrangement %d): the degree of freedom at place %ld has number %ld", cfg.enumk, cfg.arr, as->getBegInd() + (long)k, s[k].second);
    }
    // memory shifts of the extended index
    void shifts() {
        for (int d = 0; d < 4; ++d) for (size_t l = 0; l < R.lid2g[d].size(); ++l) {
            if (R.lid2g[d][l] < 0) continue; std::map<unsigned, int> u; int total = 0; std::map<int, std::map<unsigned, int>> pv; std::map<int, int> pt;
            for (int et = 0; et < 6; ++et) if (ET_DIM[et] == d) for (auto& x : w.sp.elem[et]) {
                auto n = this->nat(d, (int)l, x); IGE::NaturalIndexExt q, q2, q3; unsigned id, sv; LOUD(q = as->m_enum.getFullIndex(n); id = q.GetElemDofId(); sv = q.GetSingleVarDofId(); q2 = as->m_enum.getFullIndex(n.elem, (int)id); q3 = as->m_enum.getFullIndex(n.elem, (unsigned)n.var_id, (int)sv));
                if (u[id]++) violation("data-place", "two degrees of freedom share place %u of an element of dimension %d", id, d); if (pv[x.var][sv]++) violation("data-place", "two degrees of freedom of a variable share place %u", sv); ++total; ++pt[x.var];
                auto same = [&](const IGE::NaturalIndexExt& z) { return z.elem == n.elem && z.elem_type == n.elem_type && z.var_id == n.var_id && z.dim_id == n.dim_id && z.dim_elem_dof_id == n.dim_elem_dof_id && z.GetElemDofId() == id && z.GetSingleVarDofId() == sv; };
                if (!same(q2)) violation("data-place", "place %u of an element of dimension %d holds (%d %d %d %d), but is mapped to (%d %d %d %d)", id, d, (int)n.elem_type, n.var_id, n.dim_id, n.dim_elem_dof_id, (int)q2.elem_type, q2.var_id, q2.dim_id, q2.dim_elem_dof_id);
                if (!same(q3)) violation("data-place", "place %u of variable %d of an element of dimension %d holds (%d %d %d), but is mapped to (%d %d %d)", sv, x.var, d, (int)n.elem_type, n.dim_id, n.dim_elem_dof_id, (int)q3.elem_type, q3.dim_id, q3.dim_elem_dof_id);
            }
            if (!u.empty() && (int)u.rbegin()->first != total - 1) violation("data-place", "data of an element of dimension %d have holes", d);
            for (auto& x : pv) if ((int)x.second.rbegin()->first != pt[x.first] - 1) violation("data-place", "data of a variable have holes");
        }
    }
    // ------------------------------------------------------------------------------------------------ values on the mesh
    INMOST::Tag mk(const int* nd) {
        int per[4] = {0, 0, 0, 0}; for (int et = 0; et < 6; ++et) per[ET_DIM[et]] += nd[et]; INMOST::ElementType mask = 0; int sz = 1; for (int d = 0; d < 4; ++d) if (per[d]) { mask |= 1u << d; sz = std::max(sz, per[d]); }
        auto t = R.m.CreateTag("t" + std::to_string(++ntag), INMOST::DATA_REAL, mask, INMOST::NONE, (unsigned)sz); for (auto& v : t.d->r) for (auto& x : v) x = 1e200; return t;
    }
    INMOST::Tag mku() { return mk(w.sp.nd); }
    INMOST::Tag mkv(int v) { int nd[6] = {0, 0, 0, 0, 0, 0}; for (auto& p : w.sp.vars[(size_t)v].parts) for (int et = 0; et < 6; ++et) nd[et] += p.dim * p.b.nd(et); return mk(nd); }
    std::vector<INMOST::Tag> mkvs() { std::vector<INMOST::Tag> r; for (size_t v = 0; v < w.sp.vars.size(); ++v) r.push_back(mkv((int)v)); return r; }
    void fill(INMOST::Sparse::Vector& x, uint64_t seed) { long a = as->getBegInd(), z = as->getEndInd(); x.SetInterval((unsigned)a, (unsigned)z); for (long k = a; k < z; ++k) { int i = w.at[(size_t)k]; x[(unsigned)k] = w.sig[(size_t)i] * vnum((uint64_t)i, seed); } }
    void check_vec(INMOST::Sparse::Vector& x, uint64_t seed, const char* where) { long a = as->getBegInd(), z = as->getEndInd(); if ((long)x.GetFirstIndex() > a || (long)x.GetLastIndex() < z) violation("values", "%s: the vector is too short", where); for (long k = a; k < z; ++k) { int i = w.at[(size_t)k]; if (x[(unsigned)k] != w.sig[(size_t)i] * vnum((uint64_t)i, seed)) violation("values", "%s: entry %ld is %g instead of %g", where, k, x[(unsigned)k], w.sig[(size_t)i] * vnum((uint64_t)i, seed)); } }
    // gathers a variable (or all of them) on every cell; tags: one for all variables or one per variable
    void check_tags(const std::vector<INMOST::Tag>& ts, bool single, int var, int comp, uint64_t seed, const char* where, bool own_only = false) {
        for (size_t l = 0; l < R.lid2g[3].size(); ++l) {
            int g = R.lid2g[3][l]; if (g < 0) continue; if (own_only && R.m.status[3][l] == INMOST::Element::Ghost) continue;
            auto it = b.order.find(g); if (it == b.order.end()) continue; // order of its nodes not known: not assembled here
            std::vector<int> id, sg; w.local_dofs(it->second, id, sg); int n = w.sp.n, from = 0, to = n; int comps[2] = {var, comp}; unsigned nc = 0;
            if (var >= 0) { from = w.sp.var_begin[(size_t)var]; to = w.sp.var_begin[(size_t)var + 1]; nc = 1; if (comp >= 0) { nc = 2; auto& p = w.sp.vars[(size_t)var]; int a = -1, z = -1; for (int i = from; i < to; ++i) { int k = p.complex ? w.sp.tet[(size_t)i].part : w.sp.tet[(size_t)i].comp; if (k == comp) { if (a < 0) a = i; z = i + 1; } } from = a; to = z; } }
            std::vector<double> out((size_t)(to - from) + 1, 3e300); INMOST::Cell c(&R.m, INMOST::ComposeHandle(3, (int)l));
            LOUD(if (single) as->GatherDataOnElement(ts[0], c, out.data(), comps, nc); else as->GatherDataOnElement(ts.data(), ts.size(), c, out.data(), comps, nc));
            for (int i = from; i < to; ++i) { double e = sg[(size_t)i] * vnum((uint64_t)id[(size_t)i], seed); if (out[(size_t)(i - from)] != e) violation("values", "%s: value %d (variable %d, component %d) gathered on cell %d is %g instead of %g", where, i - from, var, comp, g, out[(size_t)(i - from)], e); }
            if (out[(size_t)(to - from)] != 3e300) violation("values", "%s: gathering writes past the end", where);
        }
    }
    void check_var(INMOST::Tag t, int v, uint64_t seed, const char* where) { // the tag holds only variable v
        auto d = build_var(w.sp.vars[(size_t)v], cfg.named);
        for (size_t l = 0; l < R.lid2g[3].size(); ++l) {
            int g = R.lid2g[3][l]; auto it = b.order.find(g); if (g < 0 || it == b.order.end()) continue;
            std::vector<int> id, sg; w.local_dofs(it->second, id, sg); int from = w.sp.var_begin[(size_t)v], to = w.sp.var_begin[(size_t)v + 1]; std::vector<double> out((size_t)(to - from), 3e300);
            INMOST::Cell c(&R.m, INMOST::ComposeHandle(3, (int)l)); INMOST::ElementArray<INMOST::Node> nn(&R.m, 4); INMOST::ElementArray<INMOST::Edge> ee(&R.m, 6); INMOST::ElementArray<INMOST::Face> ff(&R.m, 4);
            std::array<unsigned char, 4> perm; 
            LOUD(Ani::collectConnectivityInfo(c, nn, ee, ff, as->m_assm_traits.reorder_nodes, true); std::array<long, 4> gni; for (int k = 0; k < 4; ++k) gni[(size_t)k] = w.gid[0][(size_t)R.lid2g[0][(size_t)nn[(size_t)k].LocalID()]]; perm = Ani::createOrderPermutation(gni.data()); Ani::GatherDataOnElement(t, *d.base(), c, ff, ee, nn, perm.data(), out.data(), nullptr, 0));
            for (int i = from; i < to; ++i) { double e = sg[(size_t)i] * vnum((uint64_t)id[(size_t)i], seed); if (out[(size_t)(i - from)] != e) violation("values", "%s: value %d of variable %d on cell %d is %g instead of %g", where, i - from, v, g, out[(size_t)(i - from)], e); }
        }
    }
    void save(const Op& o) {
        int kind = (int)o.at(0); uint64_t seed = (uint64_t)o.at(1) + 5; int nv = (int)w.sp.vars.size(), v = (int)(o.at(2) % nv); int comp = -1;
        auto& V = w.sp.vars[(size_t)v]; if (o.at(3)) { if (V.complex) comp = (int)(o.at(3) % (long)V.parts.size()); else if (V.parts[0].vec) comp = (int)(o.at(3) % V.parts[0].dim); } int gv = o.at(4) ? v : -1; if (gv < 0) comp = -1;
        if (w.nr == 1 && b.order.size() == 0) return;
        INMOST::Sparse::Vector x, y; fill(x, seed); INMOST::Tag u = mku(), u2 = mku(); auto ts = mkvs(); y.SetInterval((unsigned)as->getBegInd(), (unsigned)as->getEndInd());
        auto& A = *as; 
        switch (kind) {
            case 0: LOUD(A.SaveSolution(x, u)); check_tags({u}, true, gv, comp, seed, "vector to tag"); break;
            case 1: LOUD(A.SaveSolution(x, ts)); check_tags(ts, false, gv, comp, seed, "vector to tags"); for (int k = 0; k < nv; ++k) check_var(ts[(size_t)k], k, seed, "vector to tags"); break;
            case 2: LOUD(A.SaveSolution(x, u); A.SaveSolution(u, y)); check_vec(y, seed, "tag to vector"); break;
            case 3: LOUD(A.SaveSolution(x, ts); A.SaveSolution(ts, y)); check_vec(y, seed, "tags to vector"); break;
            case 4: LOUD(A.SaveSolution(x, u); A.SaveSolution(u, ts)); check_tags(ts, false, gv, comp, seed, "tag to tags"); break;
            case 5: LOUD(A.SaveSolution(x, ts); A.SaveSolution(ts, u)); check_tags({u}, true, gv, comp, seed, "tags to tag"); break;
            case 6: LOUD(A.SaveSolution(x, u); A.SaveSolution(u, u2)); check_tags({u2}, true, gv, comp, seed, "tag to tag"); break;
            case 7: LOUD(A.SaveVar(x, v, ts[(size_t)v])); check_var(ts[(size_t)v], v, seed, "variable of a vector to tag"); break;
            case 8: LOUD(A.SaveSolution(x, u); A.SaveVar(u, v, ts[(size_t)v])); check_var(ts[(size_t)v], v, seed, "variable of a tag to tag"); break;
            case 9: { INMOST::Sparse::Vector z; fill(z, seed + 1); LOUD(A.SaveSolution(x, u); A.SaveVar(z, v, ts[(size_t)v]); A.SaveVar(v, ts[(size_t)v], u)); check_tags({u}, true, v, comp, seed + 1, "tag to variable of a tag"); for (int k = 0; k < nv; ++k) if (k != v) check_tags({u}, true, k, -1, seed, "tag to variable of a tag, others"); break; }
            case 10: { auto t2 = mkv(v); LOUD(A.SaveVar(x, v, ts[(size_t)v]); A.CopyVar(v, ts[(size_t)v], t2)); check_var(t2, v, seed, "copy of a variable"); R.m.DeleteTag(t2); break; }
            case 11: { // initial values of an assembly: a constant or values of a tag
                this->init_seed = seed; this->init_tag = INMOST::Tag(); this->init_tags.clear(); int m = (int)(o.at(3) % 4); INMOST::Sparse::Vector v2; int st = 0; this->work = (int)o.at(4);
                LOUD(A.SaveSolution(x, u); A.SaveSolution(x, ts));
                this->begin(2); this->check_init = true; udmode = 0; Ani::AssmOpts opt; opt.SetUserData(&this->ud);
                { Loud l; switch (m) { case 0: this->init_const = 2.5; as->m_init_value_setter = J::As::makeInitValueSetter(2.5); break; case 1: this->init_tag = u; as->pullInitValFrom(u); break; case 2: this->init_tag = u; as->pullInitValFrom(&u); break; default: this->init_tags = ts; as->pullInitValFrom(ts); }
                  st = as->AssembleRHS(v2, opt); as->m_init_value_setter = J::As::makeInitValueSetter(0.0); }
                if (st) violation("status", "the assembly returns %d", st); this->all_seen(); this->check_init = false; probe("initial-values"); this->init_tag = INMOST::Tag(); this->init_tags.clear(); break; }
        }
        (void)comp;
        R.m.DeleteTag(u); R.m.DeleteTag(u2); for (auto& t : ts) R.m.DeleteTag(t);
    }
};

// ---------------------------------------------------------------------------------------------------- one rank
template <class Tr> void rank_program(World& w, Cfg& cfg, const Plan& p, int r) {
    Quiet q; RankMesh& R = *w.ranks[(size_t)r]; std::unique_lock<std::mutex> lk;
    if (w.nr > 1) { lk = std::unique_lock<std::mutex>(w.comm->m, std::defer_lock); LOUD(lk.lock()); R.m.lk = &lk; }
    RankBase b(w, cfg, r); bool ref = true;
    try {
        { // the serial assembler with the plainest settings tells which row belongs to which degree of freedom
            Ops<Ani::DefaultAssemblerTraits> o(b, true); o.setup(); o.check_ranges(); o.begin(2); INMOST::Sparse::Vector v; int st; LOUD(st = o.as->AssembleRHS(v)); if (st) violation("status", "the assembly returns %d", st);
            o.all_seen(); o.solve(v); o.coll("solve"); o.teardown();
        }
        for (size_t i = 0; i < w.idx.size(); ++i) if (w.idx[i] < 0) violation("right-hand-side", "no row for degree of freedom %d", (int)i);
        ref = false;
        Ops<Tr> o(b, false); o.setup(); o.check_ranges(); Op none; o.numbering(none, false);
        for (auto& op : p.ops) {
            op_begin(op); arm(0);
            if (op.kind == "asm") o.assemble(op);
            else if (op.kind == "num") o.numbering(op, true);
            else if (op.kind == "save") o.save(op);
            else if (op.kind == "threads") { o.as->m_assm_traits.num_threads = (int)op.at(0); }
            else if (op.kind == "clear") { { Loud l; o.as->Clear(); } o.slots.clear(); for (int k = 0; k < 2; ++k) o.slots.emplace_back(new Slot); { Loud l; o.configure(); o.as->PrepareProblem(); } o.check_ranges(); o.numbering(op, false); probe("cleared"); }
            else if (op.kind == "renum") o.renum(op);
            op_end();
        }
        o.teardown();
    } catch (const std::exception& e) { violation("exception", "rank %d%s: %s", r, ref ? " (reference)" : "", e.what()); }
    if (w.nr > 1) LOUD(lk.unlock());
}

void run_asm(const Plan& p) {
    Quiet q; int nr = (int)p.get("ranks"); bool oriented = p.get("reorder") != 0;
    World w; w.make((uint64_t)p.get("world"), (int)p.get("cells"), nr, (int)p.get("maxn"), oriented); Cfg cfg(p, w); set_concurrency((int)p.get("hw"));
    mixhash((uint64_t)w.total()); int tr = cfg.traits;
    auto go = [&](int r) {
#ifdef WITH_OPENMP
        if (tr == 2) return rank_program<Ani::DefaultParallelAssemblerTraits<ThreadPar::Type::OMP>>(w, cfg, p, r);
#endif
        if (tr == 1) return rank_program<Ani::DefaultParallelAssemblerTraits<ThreadPar::Type::STD>>(w, cfg, p, r);
        rank_program<Ani::DefaultAssemblerTraits>(w, cfg, p, r);
    };
    if (nr == 1) { go(0); return; }
    nontrivial(); { Loud l; std::vector<std::thread> th; for (int r = 0; r < nr; ++r) th.emplace_back([&, r] { go(r); }); for (auto& t : th) t.join(); }
}
void gen_common(Plan& p, Rng& r, int nr, int traits) {
    p.par["ranks"] = nr; p.par["traits"] = traits; p.par["world"] = r.below(1l << 40); p.par["cells"] = nr > 1 ? r.in(nr, 8) : r.chance(1, 3) ? r.in(1, 3) : r.in(3, 9); p.par["maxn"] = r.chance(2, 3) ? 16 : 40;
    p.par["workers"] = traits == 0 ? 1 : r.chance(1, 8) ? -1 : r.in(1, 4); p.par["hw"] = r.in(1, 4); p.par["form"] = r.below(3); p.par["enum"] = r.below(7); p.par["arr"] = r.below(240); p.par["ud"] = r.chance(1, 3);
    p.par["szw"] = r.chance(1, 3) ? r.in(1, 9) : 0; p.par["sziw"] = r.chance(1, 3) ? r.in(1, 9) : 0; p.par["dyn"] = r.chance(1, 2) ? r.in(1, 3) : 0; p.par["custom"] = !p.par["dyn"] && r.chance(1, 5); p.par["reorder"] = r.chance(4, 5); p.par["prep"] = r.below(4); p.par["named"] = r.chance(1, 2); p.par["fseed"] = r.below(1l << 40); p.par["spA"] = r.chance(1, 4); p.par["spF"] = r.chance(1, 6);
}
void gen_ops(Plan& p, Rng& r, int n, bool faults) {
    bool tm = p.get("traits") != 0; long nr = p.get("ranks");
    for (int k = 0; k < n; ++k) {
        int t = (int)r.below(20);
        if (t < 13) {
            long bad = r.chance(1, 8) ? r.in(1, 5) : 0, what = r.chance(1, 8) ? 3 : r.below(3);
            p.add(0, "asm", {r.below(2), what, r.chance(1, 3), r.chance(1, 3), r.chance(1, 2), r.chance(1, 2), r.chance(1, 6), p.get("ud") ? r.below(2) : r.below(3), bad, r.below(64), r.below(4096), r.chance(1, 2) ? r.below(8) : 0}, faults && r.chance(1, 6) ? (int)(r.chance(1, 2) ? r.in(1, 12) : r.in(1, 400)) : 0);
        } else if (t < 15) p.add(0, "num", {r.below(4), r.below(6), r.below(6), r.below(64), r.chance(1, 4) ? r.below(12) : 0});
        else if (t < 18) p.add(0, "save", {r.below(12), r.below(1l << 30), r.below(3), r.below(4), r.below(2)});
        else if (t < 19 && tm) p.add(0, "threads", {r.chance(1, 6) ? -1 : r.in(1, 4)});
        else if (r.chance(1, 3)) p.add(0, "clear");
    }
    if (nr == 1 && r.chance(1, 4)) p.add(0, "renum", {r.below(1l << 30), r.below(1l << 30)});
}
void gen_c10(Plan& p, Rng& r) {
    int traits = (int)r.below(2);
#ifdef WITH_OPENMP
    traits = 2;
#endif
    gen_common(p, r, 1, traits); gen_ops(p, r, (int)r.in(2, 7), traits == 0); gen_schedule(p, r, 20000);
}
void gen_c11(Plan& p, Rng& r) {
    gen_common(p, r, (int)r.in(2, 4), (int)r.chance(1, 3)); bool tm = p.get("traits") != 0;
    if (tm) { p.par["hw"] = r.in(1, 2); if (p.get("workers") > 2) p.par["workers"] = 2; } // the simulator runs at most 48 threads in one execution
    gen_ops(p, r, (int)(tm ? r.in(2, 4) : r.in(2, 6)), false);
    if (tm) for (auto& o : p.ops) if (o.kind == "threads" && o.at(0) > 2) o.v[0] = 2;
    gen_schedule(p, r, 20000);
}
Register r1(Scenario{"C10", "assembler", 1, gen_c10, run_asm});
#ifndef WITH_OPENMP
Register r2(Scenario{"C11", "assembler-ranks", 1, gen_c11, run_asm});
#endif
