From bbec95717cc059e5b858a0c483c121671ffdc654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:31 +0000
Subject: [PATCH 01/76] fix: dynamic pool may hand out a block that overlaps a
 live one after out-of-order release

---
 anifem++/fem/fem_memory.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..99f07f9 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::size_t next_part_id = 0; //identifier of the next part, identifiers of live parts are unique and grow with the offset of the part
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +486,7 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->next_part_id++;
             chunk->nparts++;
             return res;
         }
@@ -509,10 +510,15 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
+            // only the last part may be cut off, space of the parts released out of order is recovered with the whole chunk
+            if (part_id + 1 == chunk.next_part_id) {
                 chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
-            if (chunk.nparts == 0)
+                chunk.next_part_id--;
+            }
+            if (chunk.nparts == 0) {
                 chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.next_part_id = 0;
+            }
         }
     public:    
     //protected:
-- 
2.43.0


From ad5661e8653a197395b89e1300cdee0fc685fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 02/76] fix: request to dynamic pool that runs out of memory
 corrupts accounting of the pool

---
 anifem++/fem/fem_memory.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 99f07f9..85d7433 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -453,7 +453,6 @@ namespace Ani{
         
         virtual MemPart alloc(std::size_t dsize, std::size_t isize, std::size_t msize){
             MemPart res;
-            res.m_link = this;
             Chunk* chunk = nullptr;
             if (!m_chunks.empty()) {
                 for (std::size_t i = 0; i < m_chunks.size(); ++i){
@@ -473,17 +472,19 @@ namespace Ani{
                 m_chunks.resize(1);
                 chunk = m_chunks.data();
             }
+            // all steps that may throw go before any change of accounting
+            if (dsize > 0 && chunk->rbusy == 0 && chunk->rdata.size() < dsize) chunk->rdata.resize(dsize);
+            if (isize > 0 && chunk->ibusy == 0 && chunk->idata.size() < isize) chunk->idata.resize(isize);
+            if (msize > 0 && chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
+            res.m_link = this;
             res.m_chunk_id = std::distance(m_chunks.data(), chunk);
             if (dsize > 0){
-                if (chunk->rbusy == 0 && chunk->rdata.size() < dsize) chunk->rdata.resize(dsize);
                 res.m_mem.ddata = chunk->rdata.data() + chunk->rbusy; chunk->rbusy += dsize; res.m_mem.dSize = dsize;
             }
             if (isize > 0){
-                if (chunk->ibusy == 0 && chunk->idata.size() < isize) chunk->idata.resize(isize);
                 res.m_mem.idata = chunk->idata.data() + chunk->ibusy; chunk->ibusy += isize; res.m_mem.iSize = isize;
             }
             if (msize > 0){
-                if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
             res.m_part_id = chunk->next_part_id++;
-- 
2.43.0


From 1d3dcf3c9f97d6c32435cbd7c9dc08f8754e4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 03/76] fix: parallel loop with native threads does not compile

---
 anifem++/fem/mutex_type.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..c16c07d 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -5,8 +5,13 @@
 #ifndef CARNUM_MUTEX_TYPE_H
 #define CARNUM_MUTEX_TYPE_H
 
-#include <thread>
+#include <algorithm>
+#include <cassert>
+#include <functional>
 #include <mutex>
+#include <thread>
+#include <utility>
+#include <vector>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -120,11 +125,13 @@ namespace ThreadPar{
             unsigned batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
-            for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
-                                beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
+            for (int i = 0; i < nthreads - 1; ++i){
+                auto batch_beg = beg + batch_size*i + (i < batch_remainder ? i : batch_remainder);
+                auto batch_end = beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder);
+                work_threads[i] = std::thread([&f, i, batch_beg, batch_end, &args...](){
+                    perform_for_on_thread(i+1, f, batch_beg, batch_end, args...);
+                });
+            }
             perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
             std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
         }
-- 
2.43.0


From e46d579893aa85ba258425ddb2ef76de203a074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 04/76] fix: pool of a thread is looked up without lock while
 other threads extend the registry

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..d7bf44e 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){
+        std::lock_guard<MutexType> lock(m_mutex);
+        return m_mem[mem_id].get();
+    }
 
 
 protected:
-- 
2.43.0


From 57c5dd6a8b7765e50982070d58d9821ceff9209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 05/76] fix: failed request for a range of pools leaves
 unusable pools in the registry

---
 anifem++/fem/fem_memory_parallel.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index d7bf44e..7970b30 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -46,11 +46,16 @@ struct DynMemParallel{
         // a fresh contiguous range so live pools are never overwritten.
         bool reuse_mem = (m_unused.size() == m_mem.size());
         Int st_sz = reuse_mem ? 0 : static_cast<Int>(m_mem.size());
-        m_mem.resize(static_cast<std::size_t>(st_sz + num_threads));
-        for (Int i = st_sz; i < st_sz + num_threads; ++i) {
-            if (!m_mem[static_cast<std::size_t>(i)])
-                m_mem[static_cast<std::size_t>(i)] = std::make_unique<DynMem<Real, Int>>();
+        auto old_sz = m_mem.size(), new_sz = static_cast<std::size_t>(st_sz + num_threads);
+        try {
+            while (m_mem.size() < new_sz)
+                m_mem.emplace_back(std::make_unique<DynMem<Real, Int>>());
+        } catch (...) {
+            // do not leave slots that are neither handed out nor registered as unused
+            m_mem.resize(old_sz);
+            throw;
         }
+        m_mem.resize(new_sz);
         if (reuse_mem)
             m_unused.resize(0);
         return {st_sz, st_sz + num_threads};
-- 
2.43.0


From 930595c2382bb62c9ed7772535248c640563026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 06/76] fix: assignment of wrapped matrix function loses sizes
 of its working arrays

---
 anifem++/inmost_interface/func_wrap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6b6a076..6dad0bf 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -118,7 +118,7 @@ namespace Ani{
         if (this == &a) return *this;
         m_sp_in = a.m_sp_in, m_sp_out = a.m_sp_out;
         m_f = a.m_f; 
-        m_sz_w = a.m_sz_w, m_sz_w = a.m_sz_iw; 
+        m_sz_w = a.m_sz_w, m_sz_iw = a.m_sz_iw; 
         m_user_data_required = a.m_user_data_required, m_dyn_mem_required = a.m_dyn_mem_required;
         return *this;
     }
-- 
2.43.0


From 1ace71ab8d1d40cd0ff10226c921ab87ec760790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 07/76] fix: generators of wrapped elemental functions with
 aggregated arguments and with plain rhs do not compile

---
 anifem++/inmost_interface/func_wrap.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6dad0bf..5097ff6 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -125,7 +125,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMatRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol)), MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -157,7 +157,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMat(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol))},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -189,14 +189,14 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F)> f, size_t nRow){
         return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ (void) w; (void) iw; (void) user_data; (void) dyn_mem; return f(args, res[0]), 0; },
-                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow))}, 0, 0, false, false };
+                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)}, 0, 0, false, false };
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F, void* user_data)> f, size_t nRow){
-- 
2.43.0


From c80021c242741ec7c41a981a6a163fcd990e36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 08/76] fix: interpolation on a region applies operator of a
 destroyed temporary space

---
 anifem++/fem/fem_space.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..68c7e66 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -114,7 +114,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +135,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
-- 
2.43.0


From 99d4f6e670c25cf0e8772a9661434d578dad1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 09/76] fix: interpolation on an edge or a face reads
 uninitialised barycentric coordinates

---
 anifem++/fem/fem_space.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 68c7e66..6a71988 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -160,6 +160,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -173,6 +174,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
-- 
2.43.0


From 70c77c127028edf142d4d7982d55f7b3c6fd6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 10/76] fix: vector Dirichlet condition works outside of its
 working memory

---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..e760006 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From efa25d8373c7c4f589dfd0ff3af5e6c093c338c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 11/76] fix: vector dof map converts geometric index by number
 of dofs on tetrahedron instead of dofs on element

---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..101efa0 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
-- 
2.43.0


From 6bd76f9ee099da38658b80d0dce0ecbf2cbc9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 12/76] fix: LU decomposition of a singular matrix swaps rows
 outside of the matrix

---
 anifem++/fem/geometry.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..86468e2 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -286,6 +286,7 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            if (pi < 0) break; // the rest of the matrix is zero
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
-- 
2.43.0


From 81f95be9fc93f16f70fdc148258b9a0971d4de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 13/76] fix: linearly dependent bases of a union space are not
 reported without Eigen

---
 anifem++/fem/fem_space.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 6a71988..2c44857 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -1142,6 +1142,7 @@ namespace Ani{
         // Verify W*G ≈ I; throw if bases/functionals are linearly dependent
         {
             double max_err = 0.0, max_g = 0.0;
+            bool finite = true;
             for (uint i = 0; i < nf; ++i)
             for (uint k = 0; k < nf; ++k){
                 double s = 0.0;
@@ -1149,10 +1150,11 @@ namespace Ani{
                     s += A(i, j) * B(j, k);
                 double target = (i == k) ? 1.0 : 0.0;
                 max_err = std::max(max_err, std::abs(s - target));
+                finite = finite && std::isfinite(s);
                 max_g = std::max(max_g, std::abs(B(i, k)));
             }
             const double tol = 1e-8;
-            if (max_err > tol * (1.0 + max_g))
+            if (!finite || max_err > tol * (1.0 + max_g))
                 throw std::runtime_error("UnionFemSpace: input bases or interpolating functionals are linearly dependent (Gram matrix is singular)");
         }
 
-- 
2.43.0


From 36664668441cb5bc86f937eef2796501481da6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:01 +0000
Subject: [PATCH 14/76] fix: application of operator with block structure to
 several tetrahedra works outside of its arrays

---
 anifem++/fem/operations/core.inl | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..be6cac5 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + ARow * BCol * fuse, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
@@ -385,18 +385,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
+                    auto VmCol = Vm.stCol[db+1] - Vm.stCol[db];
                     double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
                     double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
+                    double* from = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + dim*mem.q*r + dim*n + Vm.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
@@ -494,18 +495,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + dimA*mem.q*r + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }     
@@ -540,18 +542,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = mem.V.data + dimA*mem.q*r + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
-- 
2.43.0


From 27d1f43a15c578e69aea299dde31efa80233079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 15/76] fix: memory requirements of operator application don't
 account block structure of the operator

---
 anifem++/fem/operations/eval.inl | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..225a0de 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -1,11 +1,21 @@
 namespace Ani{
+    ///Size of working array extraR required to apply the operator to vector of degrees of freedom
+    template<typename Op, typename ScalarType, typename IndexType>
+    std::size_t __internal_fem3DapplyL_extraR_size(std::size_t extraR, int q, int f){
+        constexpr int nparts = decltype(convToBendMx(Op::apply(std::declval<AniMemory<ScalarType, IndexType>& >(), std::declval<ArrayView<ScalarType>& >()), std::declval<IndexType>(), std::declval<IndexType>()))::Nparts::value;
+        extraR = std::max(extraR, static_cast<std::size_t>(1*Op::Nfa::value*f));
+        if (nparts > 1 && q > 1)
+            extraR = std::max(extraR, static_cast<std::size_t>(Op::Dim::value*q*f));
+        return extraR;
+    }
+
     template<typename Op, typename ScalarType, typename IndexType>
     PlainMemory <ScalarType, IndexType> fem3DapplyL_memory_requirements(int pnt_per_tetra, int fusion){
         auto f = fusion, q = pnt_per_tetra;
         PlainMemory<ScalarType, IndexType> pm;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
-        extraR = std::max(extraR, static_cast<std::size_t>(1*Op::Nfa::value*f));
+        extraR = __internal_fem3DapplyL_extraR_size<Op, ScalarType, IndexType>(extraR, q, f);
         IndexType DU = 0, DIFF = 0;
         IndexType XYG = 3*q*f, XYP = 3*4*f, PSI = 3*3*f, DET = f, MES = f, NRM = 0, XYL = 0, WG = 0;
         pm.dSize = Usz + DU + DIFF + XYG + XYP + PSI + DET + MES + NRM + extraR + XYL + WG;
@@ -55,10 +65,10 @@ namespace Ani{
 
     template<typename Op, typename ScalarType = double, typename IndexType = int>
     inline PlainMemory<ScalarType, IndexType> __internal_fem3DapplyL_setmem(AniMemory<ScalarType, IndexType>& mem, int q, int f, int nfa, int dim, PlainMemory<ScalarType, IndexType> plainMemory){
-        (void) dim;
+        (void) dim; (void) nfa;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
-        extraR = std::max(extraR, static_cast<std::size_t>(1*nfa*f));
+        extraR = __internal_fem3DapplyL_extraR_size<Op, ScalarType, IndexType>(extraR, q, f);
         //IndexType DU_sz = 0, DIFF_sz = 0;
         IndexType XYG_sz = 3*q*f, XYP_sz = 3*4*f, PSI_sz = 3*3*f, DET_sz = f, MES_sz = f;// NRM_sz = 0, XYL_sz = 0, WG_sz = 0;
         ScalarType* p = plainMemory.ddata;
-- 
2.43.0


From 6627bf238392b0ca82bbb4cc62172742648068e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 16/76] fix: static operator application doesn't check size of
 the plain memory

---
 anifem++/fem/operations/eval.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index 225a0de..c7fb0f7 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -142,6 +142,10 @@ namespace Ani{
                   ArrayView<ScalarType> _opU,
                   PlainMemory<ScalarType, IndexType> plainMemory){
         DenseMatrix<ScalarType> dofs(_dofs.data, _dofs.size, 1), opU(_opU.data, _opU.size, 1);
+        auto t = fem3DapplyX_memory_requirements<Op, ScalarType, IndexType>(X.size/3, 1);
+        assert(plainMemory.ddata && plainMemory.dSize >= t.dSize && "Not enough of plain memory");
+        assert((t.iSize <= 0 || (plainMemory.idata && plainMemory.iSize >= t.iSize)) && "Not enough of plain memory");
+        (void) t;
         ScalarType* XYLp = plainMemory.ddata;
         plainMemory.ddata += 4 * (X.size/3), plainMemory.dSize -= 4 * (X.size/3);
         ArrayView<ScalarType> XYL(XYLp, 4*X.size/3);
@@ -173,6 +177,10 @@ namespace Ani{
         auto q = XYL.size / 4;
         __internal_check_fem3DapplyL<ScalarType>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, f, q, nfa, dim, dofs, opU);
         opU.nRow = dim * q, opU.nCol = f;
+        auto t = fem3DapplyL_memory_requirements<Op, ScalarType, IndexType>(q, f);
+        assert(plainMemory.ddata && plainMemory.dSize >= t.dSize && "Not enough of plain memory");
+        assert((t.iSize <= 0 || (plainMemory.idata && plainMemory.iSize >= t.iSize)) && "Not enough of plain memory");
+        (void) t;
         AniMemory<ScalarType, IndexType> mem;
 
         __internal_fem3DapplyL_setmem<Op, ScalarType, IndexType>(mem, q, f, nfa, dim, plainMemory);
-- 
2.43.0


From e9867264cfe917d0a3faa4382b00669712238c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 17/76] fix: stack version of operator application accepts four
 times more points than it has memory for

---
 anifem++/fem/operations/eval.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index c7fb0f7..5aff481 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -59,7 +59,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
-- 
2.43.0


From 3cd37371e66e2ba282dde3e2ff7f7b45fa19a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 18/76] fix: memory requirements of interpolation on a node
 don't account requirements of the space

---
 anifem++/fem/fem_space.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 2c44857..6f6bd09 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -81,18 +81,8 @@ namespace Ani{
         return ApplyOpFromSpaceView(op, this);
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
-        if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
-        }
+        if (elem_type == DofT::NODE)
+            return interpolateByDOFs_mem_req(max_quad_order);
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
-- 
2.43.0


From 22e689c95dbebea3013051f9c50645ab1a405fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 19/76] fix: DIV of complex variable returns partially
 uninitialised matrix that is overwritten by the second operator

---
 anifem++/fem/fem_space.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 6f6bd09..4580ea8 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -759,8 +759,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -816,8 +817,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From af41e95b5a5f6869c2e200245a8329497f257f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 20/76] fix: default DIV operator reports three rows instead of
 one

---
 anifem++/fem/fem_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 4580ea8..db3156a 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -257,7 +257,7 @@ namespace Ani{
         mem.busy_mtx_parts = st_busy + 1;
         Vx.nparts = 1;
         Vx.data[0] = lU;
-        Vx.stRow[1] = 3;
+        Vx.stRow[1] = 1;
         Vx.stCol[1] = nfa;
         return Vx;
     }
-- 
2.43.0


From 514151cca69183b75e96db959f2c5bc295ea5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 21/76] fix: vector spaces of different dimensions compare
 equal

---
 anifem++/fem/fem_space.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index db3156a..8766cad 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -399,6 +399,7 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
+        if (m_base && o.m_base && vec_dim() != o.vec_dim()) return false;
         return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-- 
2.43.0


From 8bc1f223e54d1c73fe74b39593ae09600073e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 22/76] fix: failed interpolation leaves the caller's views of
 degrees of freedom shifted

---
 anifem++/fem/fem_space.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8766cad..17d6b1f 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -8,6 +8,24 @@
 #include <vector>
 
 namespace Ani{
+    namespace {
+        ///Shifts begin of the user's views and returns them to initial state at the end of the scope even if exception is thrown 
+        struct ViewsShifter{
+            ArrayView<>* views;
+            int nviews;
+            std::size_t shift;
+            ViewsShifter(ArrayView<>* views, int nviews, std::size_t shift): views{views}, nviews{nviews}, shift{shift} {
+                for (int r = 0; r < nviews; ++r)
+                    views[r] = ArrayView<>(views[r].data + shift, views[r].size - shift);
+            }
+            ViewsShifter(const ViewsShifter&) = delete;
+            ViewsShifter& operator=(const ViewsShifter&) = delete;
+            ~ViewsShifter(){
+                for (int r = 0; r < nviews; ++r)
+                    views[r] = ArrayView<>(views[r].data - shift, views[r].size + shift);
+            }
+        };
+    }
     void BaseFemSpace::interpolateOnDOF(const Tetra<const double>& XYZ, const EvalFunc& f, ArrayView<>* udofs, int idof_on_tet, int fusion, DynMem<>& wmem, void* user_data, uint max_quad_order) const{
         auto req = interpolateOnDOF_mem_req(idof_on_tet, fusion, max_quad_order);
         auto mem = wmem.alloc(req.dSize, req.iSize, req.mSize);
@@ -426,8 +444,7 @@ namespace Ani{
         auto ldim = m_base->dim();
         auto comp_id = m_order.target<DofT::VectorDofMap>()->ComponentID(idof_on_tet);
         uint nvar = comp_id.part_id, ldof_id = comp_id.cgid;
-        for (int r = 0; r < fusion; ++r)
-            udofs[r] = ArrayView<>(udofs[r].data + nvar*lnfa, udofs[r].size - nvar*lnfa);
+        ViewsShifter shifter(udofs, fusion, nvar*lnfa);
         double* wmem = mem.ddata; mem.ddata += fusion*vdim*ldim; mem.dSize -= fusion*vdim*ldim;
         auto narrowing = [&f, nvar, ldim, fusion, gdim = vdim*ldim, wmem](const std::array<double, 3>& X, double* res, uint dim, void* user_data)->int{
             assert(dim == ldim*fusion && "Wrong expected dimension");
@@ -439,8 +456,6 @@ namespace Ani{
         };  
         FunctorContainer<decltype(narrowing)> fc{narrowing, user_data};
         m_base->interpolateOnDOF(XYZ, FunctorContainer<decltype(narrowing)>::eval_functor, udofs, ldof_id, fusion, mem, &fc, max_quad_order);
-        for (int r = 0; r < fusion; ++r)
-            udofs[r] = ArrayView<>(udofs[r].data - nvar*lnfa, udofs[r].size + nvar*lnfa);    
     }
     PlainMemoryX<> VectorFemSpace::interpolateByDOFs_mem_req(uint max_quad_order) const {
         auto vdim = m_order.target<DofT::VectorDofMap>()->m_dim;
@@ -718,8 +733,7 @@ namespace Ani{
         uint dim_shift = 0;
         for (uint i = 0; i < nvar; ++i) 
             dim_shift += m_spaces[i]->dim();
-        for (int r = 0; r < fusion; ++r)
-            udofs[r] = ArrayView<>(udofs[r].data + lshift, udofs[r].size - lshift);
+        ViewsShifter shifter(udofs, fusion, lshift);
         double* wmem = mem.ddata; mem.ddata += fusion*gdim; mem.dSize -= fusion*gdim;
         auto narrowing = [&f, dim_shift, ldim, fusion, gdim, wmem](const std::array<double, 3>& X, double* res, uint dim, void* user_data)->int{
             assert(dim == ldim*fusion && "Wrong expected dimension");
@@ -731,8 +745,6 @@ namespace Ani{
         };  
         FunctorContainer<decltype(narrowing)> fc{narrowing, user_data};
         m_spaces[comp.part_id]->interpolateOnDOF(XYZ, FunctorContainer<decltype(narrowing)>::eval_functor, udofs, ldof_id, fusion, mem, &fc, max_quad_order);
-        for (int r = 0; r < fusion; ++r)
-            udofs[r] = ArrayView<>(udofs[r].data - lshift, udofs[r].size + lshift);    
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x1x1(AniMemoryX<> &mem, ArrayView<> &U) const{
         auto st_busy = mem.busy_mtx_parts;
-- 
2.43.0


From df5be5f37af7aa28f6a447d4d0c4c6cca253d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 23/76] fix: parallel loop with native threads does not compile
 for ranges of int

---
 anifem++/fem/mutex_type.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index c16c07d..8869794 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -121,8 +121,8 @@ namespace ThreadPar{
             }
             nthreads = get_num_threads<Type::STD>(nthreads);
             auto niters = end - beg;
-            unsigned batch_size = niters / nthreads;
-            unsigned batch_remainder = niters % nthreads;
+            decltype(niters) batch_size = niters / nthreads;
+            decltype(niters) batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
             for (int i = 0; i < nthreads - 1; ++i){
-- 
2.43.0


From d2c6781c18e25f19af115f1557ffcca5b3940736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 24/76] fix: first oriented degree of freedom of an element is
 mistaken for a not oriented one

---
 anifem++/inmost_interface/global_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 3bbc4b4..88095a6 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -231,7 +231,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, int elem_dof_id) co
     uint tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < elem_dof_id){
+        if (static_cast<int>(lnumdofs) <= elem_dof_id){
             tshift = lnumdofs;
             ++elem_num; 
         }
@@ -281,7 +281,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, uint var_id, int vl
     uint tshift = 0, tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.m_spaces[var_id]->NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < vledi){
+        if (static_cast<int>(lnumdofs) <= vledi){
             tvshift = lnumdofs;
             vledi -= lnumdofs;
             tshift = vars.NumDof(DofT::NumToGeomType(elem_num));
-- 
2.43.0


From 52a075b5a5e363ea91a919c5c411b3f0f44f85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 25/76] fix: OrderedEnumerator rejects the first index of the
 process

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 88095a6..5f7490d 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -777,7 +777,7 @@ PGE::EnumerateIndex OrderedEnumerator::index_byMap(const NaturalIndex& physIndex
 }
     
 PGE::NaturalIndex OrderedEnumerator::operator()(EnumerateIndex vi) const {
-    assert(vi.id > BegInd && "Element is GHOST");
+    assert(vi.id >= BegInd && "Element is GHOST");
     auto id = loc_emap[reverse ? (loc_emap.size() - 1 - (vi.id - BegInd)) : (vi.id - BegInd)];
     NaturalIndex res;
     res.var_id = id[perm[0]];
-- 
2.43.0


From c7e7f3aa4c1777a8ef86a1da367855f8b5545018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:59 +0000
Subject: [PATCH 26/76] fix: iteratorByVector operator>= compares the wrong way
 round

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index 70c291e..d6186bb 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -120,7 +120,7 @@ public:
         bool operator < (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
         bool operator > (const iteratorByVector & other) const { return m_val.eid.id > other.m_val.eid.id; }
         bool operator <= (const iteratorByVector & other) const { return m_val.eid.id <= other.m_val.eid.id; }
-        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
+        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id >= other.m_val.eid.id; }
         iteratorByVector& operator += (difference_type n) { m_val.eid.id += n; m_val.nid.clear(); return *this; }
         iteratorByVector& operator -= (difference_type n) { m_val.eid.id -= n; m_val.nid.clear(); return *this; }
         friend iteratorByVector operator+(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
-- 
2.43.0


From 7733b73ddf771619075408049d516b2388b4c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:59 +0000
Subject: [PATCH 27/76] fix: MatSparsityView::make_as_sparse ignores the number
 of nonzeros

---
 anifem++/inmost_interface/func_wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 8d46bee..3260572 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -45,7 +45,7 @@ namespace Ani{
         template<typename RandAccBoolIter, typename TVal = bool>
         void fillTemplate(RandAccBoolIter beg) const;
         static MatSparsityView<Int> make_as_dense(Int sz1, Int sz2) { return MatSparsityView<Int>(DENSE, sz1*sz2, sz1, sz2, nullptr, nullptr); }
-        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, sz1*sz2, sz1, sz2, colind, row); }
+        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, nnz, sz1, sz2, colind, row); }
     };
 
     template <typename TInt = long>
-- 
2.43.0


From 6c189929ee57b89375098e0556ed9dc1183646c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:59 +0000
Subject: [PATCH 28/76] fix: assembler mixes up components of vector variables
 on elements with several of them

---
 anifem++/inmost_interface/assembler.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index f4ad1fb..5955278 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -250,7 +250,7 @@ void AssemblerT<Traits>::PrepareProblem(){
             unsigned ndim = 1;
             if (vt == static_cast<uint>(DofT::BaseDofMap::BaseTypes::VectorType) || vt == static_cast<uint>(DofT::BaseDofMap::BaseTypes::VectorTemplateType))
                 ndim = vi.dofmap.NestedDim();
-            auto nds = vi.dofmap.NumDofsOnTet();
+            auto nds = vi.dofmap.NumDofs();
             for (auto& n: nds) n /= ndim;
             OrderTempl tl;
             tl.var_id = vi.iVar;
-- 
2.43.0


From 7393796609299f0c3edef1bf56edea309308d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:12 +0000
Subject: [PATCH 29/76] fix: sparsity of the local matrix and right-hand side
 is taken from another function than the evaluated one

---
 anifem++/inmost_interface/assembler.h   |  2 ++
 anifem++/inmost_interface/assembler.inl | 33 ++++++++++---------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 163aa11..7807ee4 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -431,6 +431,8 @@ private:
 
     template<typename MatFuncT1>
     void extend_memory_for_fem_func(MatFuncT1& func);
+    template<typename MatFuncT1>
+    void setup_csc(const MatFuncT1& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row);
     void resize_work_memory(int size);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes, bool is_same_template);
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 5955278..3c9faa1 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -23,6 +23,14 @@ void AssemblerT<Traits>::extend_memory_for_fem_func(MatFuncT1& func) {
     }
 }
 
+template <typename Traits>
+template<typename MatFuncT1>
+void AssemblerT<Traits>::setup_csc(const MatFuncT1& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row){
+    if (func.out_nnz(res_id) == func.out_size1(res_id) * func.out_size2(res_id)) return;
+    colind.resize(func.out_size2(res_id) + 1), row.resize(func.out_nnz(res_id));
+    func.out_csc(res_id, colind.data(), row.data());
+}
+
 template <typename Traits>
 void AssemblerT<Traits>::resize_work_memory(int size){
     if (size <= 1) m_wm.resize(std::min(std::size_t(1), m_wm.size()));
@@ -219,26 +227,6 @@ void AssemblerT<Traits>::PrepareProblem(){
     extend_memory_for_fem_func(mat_func);
     extend_memory_for_fem_func(rhs_func);
     extend_memory_for_fem_func(mat_rhs_func);
-    if (mat_func && !mat_rhs_func){
-        if (mat_func.out_nnz(0) != mat_func.out_size1(0) * mat_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_func.out_size2(0) + 1), m_fd.rowA.resize(mat_func.out_nnz(0));
-            mat_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-        }
-    }
-    if (rhs_func && !mat_rhs_func){
-        if (rhs_func.out_nnz(0) != rhs_func.out_size1(0) * rhs_func.out_size2(0)) {
-            m_fd.colindF.resize(rhs_func.out_size2(0) + 1), m_fd.rowF.resize(rhs_func.out_nnz(0));
-            rhs_func.out_csc(0, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
-    if (mat_rhs_func){
-        if (mat_rhs_func.out_nnz(0) != mat_rhs_func.out_size1(0) * mat_rhs_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_rhs_func.out_size2(0) + 1), m_fd.rowA.resize(mat_rhs_func.out_nnz(0));
-            mat_rhs_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-            m_fd.colindF.resize(mat_rhs_func.out_size2(1) + 1), m_fd.rowF.resize(mat_rhs_func.out_nnz(1));
-            mat_rhs_func.out_csc(1, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
     if (!rhs_func && !mat_func && !mat_rhs_func) throw std::runtime_error("Fem expression evaluator is not set");
     orderR.resize(0); orderC.resize(0);
     orderR.reserve(nRows); orderC.reserve(nRows);
@@ -316,6 +304,8 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     if (!mat_rhs_func && (!mat_func || !rhs_func))
         throw std::runtime_error("System local evaluator is not specified");
     auto func = generate_mat_rhs_func();
+    setup_csc(func, 0, m_fd.colindA, m_fd.rowA);
+    setup_csc(func, 1, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -504,6 +494,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
             throw std::runtime_error("Right-hand side local evaluator is not specified");
     }
     auto func = generate_rhs_func();
+    setup_csc(func, 0, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -592,6 +583,7 @@ int AssemblerT<Traits>::AssembleTemplate(INMOST::Sparse::Matrix &matrix){
     if (!mat_func && !mat_rhs_func)
         throw std::runtime_error("Matrix local evaluator is not specified");
     auto func = generate_mat_func();
+    setup_csc(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -711,6 +703,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
             throw std::runtime_error("Matrix local evaluator is not specified");
     }
     auto func = generate_mat_func();
+    setup_csc(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
-- 
2.43.0


From 97274aa7711b8e5af6c80e0d5bf6f9b1a260d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 30/76] fix: right-hand side assembled from the function of the
 whole system writes the matrix over it

---
 anifem++/inmost_interface/assembler.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 3c9faa1..8ca941a 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -529,6 +529,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
         TIMER_SCOPE( m_w.m_timers.m_time_fill_map_template += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (!has_active) return;
 
+        if (!func.is_rhs_func) m_w.m_res[1] = m_w.m_A.data(); //< place for unused matrix of the system function
         typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
         auto tp2 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, ElementalAssembler::RHS,
@@ -751,6 +752,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
         TIMER_SCOPE( m_w.m_timers.m_time_fill_map_template += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (!has_active) return;
 
+        if (!func.is_mat_func) m_w.m_res[1] = m_w.m_F.data(); //< place for unused rhs of the system function
         typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
         auto tp1 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, ElementalAssembler::MAT,
@@ -1066,15 +1068,13 @@ std::ostream& SystemFromMatRhsFWrap<MatFuncT>::print_signature(std::ostream& out
 }
 template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
-    auto ret = m_f->operator()(args, res, w, iw, user_data, mem_id); 
-    if (!is_rhs_func) std::swap(res[0], res[1]);
-    return ret;
+    if (is_rhs_func) return m_f->operator()(args, res, w, iw, user_data, mem_id);
+    Real* out[2] = {res[1], res[0]}; //< the system function returns matrix first
+    return m_f->operator()(args, out, w, iw, user_data, mem_id);
 }
 template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(Memory mem) const { 
-    auto res = m_f->operator()(mem);
-    if (!is_rhs_func) std::swap(mem.m_res[0], mem.m_res[1]);
-    return res;
+    return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
 }
 
 } //end namespace internals
-- 
2.43.0


From 03f18088043378a2fb462b86f3d2d014e9204c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 31/76] fix: local functions of the system and workers use
 memory of other functions and workers

---
 anifem++/inmost_interface/assembler.h   |  2 +
 anifem++/inmost_interface/assembler.inl | 49 ++++++++++++-------------
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 7807ee4..107fd81 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -176,6 +176,8 @@ namespace internals{
         int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const;
         int operator()(Memory mem) const;
         static Int encode_id(Int id1, Int id2) { return id1 + (id2 << 16); }
+        /// Get identificator of the memory of the thread from the range of identificators
+        Int thread_memory_id(std::pair<Int, Int> id_range, Int nthread) const { return id_range.first + (m_rhs ? encode_id(nthread, nthread) : nthread); }
         static std::pair<Int, Int> decode_id(Int encoded_ids){ return {encoded_ids & 0xFFFF, (encoded_ids >> 16)}; }
         Int setup_and_alloc_memory();
         void release_memory(Int mem_id);
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 8ca941a..2b1570c 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -337,7 +337,7 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
     
     auto cycle_body_func = [&row_index_buffers, &swap_rows, use_ordered_insert = opts.use_ordered_insert, is_mtx_include_template = opts.is_mtx_include_template,
-                            &func, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data) mutable {
+                            &func, func_internal_mem_ids, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data) mutable {
         auto& m_w = m_wm[nthread];
         if (m_w.status < 0) return;
         INMOST::Cell cell = m_mesh->CellByLocalID(lid);
@@ -356,7 +356,8 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
         TIMER_SCOPE( m_w.m_timers.m_time_fill_map_template += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (!has_active) return;
 
-        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
+        const auto mem_id = func.thread_memory_id(func_internal_mem_ids, nthread);
+        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, mem_id};
         auto tp1 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         auto tp2 = func.out_nnz(1) == func.out_size1(1)*func.out_size2(1) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, 
@@ -369,7 +370,7 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
         dat.update();
         TIMER_SCOPE(  m_w.m_timers.m_time_init_val_setter += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         m_prob_handler(dat);
-        func.defragment_memory(nthread);
+        func.defragment_memory(fmem.mem_id);
         m_w.pool.defragment();
         TIMER_SCOPE(  m_w.m_timers.m_time_proc_user_handler += m_w.m_timers.m_timer.elapsed_and_reset(); )
         // std::array<int, 4> cni1; std::copy(canonical_node_indexes.data(), canonical_node_indexes.data()+4, cni1.begin());
@@ -510,7 +511,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
     TIMER_SCOPE( for (int i = 0; i < nthreads; ++i) m_wm[i].m_timers.reset(); )
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
     
-    auto cycle_body_func = [&func, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &L, nthreads, this](INMOST::Storage::integer lid, int nthread, void* user_data){
+    auto cycle_body_func = [&func, func_internal_mem_ids, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &L, nthreads, this](INMOST::Storage::integer lid, int nthread, void* user_data){
         auto& m_w = m_wm[nthread];
         if (m_w.status < 0) 
             return;
@@ -530,7 +531,8 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
         if (!has_active) return;
 
         if (!func.is_rhs_func) m_w.m_res[1] = m_w.m_A.data(); //< place for unused matrix of the system function
-        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
+        const auto mem_id = func_internal_mem_ids.first + nthread;
+        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, mem_id};
         auto tp2 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, ElementalAssembler::RHS,
                            SparsedData<>(MatSparsityView<Int>::make_as_dense(0, 0), nullptr),
@@ -541,7 +543,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
         dat.update();
         TIMER_SCOPE(  m_w.m_timers.m_time_init_val_setter += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         m_prob_handler(dat);
-        func.defragment_memory(nthread);
+        func.defragment_memory(fmem.mem_id);
         m_w.pool.defragment();
         TIMER_SCOPE(  m_w.m_timers.m_time_proc_user_handler += m_w.m_timers.m_timer.elapsed_and_reset(); )  
         for(int i = 0; i < nRows; i++){
@@ -734,7 +736,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
     
     auto cycle_body_func = [&row_index_buffers, &swap_rows, use_ordered_insert = opts.use_ordered_insert, is_mtx_include_template = opts.is_mtx_include_template,
-                            &func, nRows, reord_nds, prep_ef, comp_node_perm, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data){
+                            &func, func_internal_mem_ids, nRows, reord_nds, prep_ef, comp_node_perm, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data){
         auto& m_w = m_wm[nthread];
         if (m_w.status < 0) return;
         INMOST::Cell cell = m_mesh->CellByLocalID(lid);
@@ -753,7 +755,8 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
         if (!has_active) return;
 
         if (!func.is_mat_func) m_w.m_res[1] = m_w.m_F.data(); //< place for unused rhs of the system function
-        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
+        const auto mem_id = func_internal_mem_ids.first + nthread;
+        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, mem_id};
         auto tp1 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, ElementalAssembler::MAT,
                            SparsedData<>(MatSparsityView<Int>(tp1, func.out_nnz(0), func.out_size1(0), func.out_size2(0), m_fd.colindA.data(), m_fd.rowA.data()), m_w.m_A.data()),
@@ -764,7 +767,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
         dat.update();
         TIMER_SCOPE(  m_w.m_timers.m_time_init_val_setter += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         m_prob_handler(dat);
-        func.defragment_memory(nthread);
+        func.defragment_memory(fmem.mem_id);
         m_w.pool.defragment();
         TIMER_SCOPE(  m_w.m_timers.m_time_proc_user_handler += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (use_ordered_insert){
@@ -965,25 +968,19 @@ namespace internals{
 template<typename MatFuncT>
 int SystemFromMatRhsFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
     Real* rhs_p = res[1];
-    int stat1 = m_mat->operator()(args, res, w, iw, user_data, mem_id); 
+    auto ids = (m_rhs && mem_id >= 0) ? decode_id(mem_id) : std::pair<Int, Int>(mem_id, mem_id);
+    int stat1 = m_mat->operator()(args, res, w, iw, user_data, ids.first); 
     int stat2 = 0;
     if (stat1 == 0 && m_rhs){
         res[1] = rhs_p;
-        stat2 = m_rhs->operator()(args, res+1, w, iw, user_data, mem_id);
+        stat2 = m_rhs->operator()(args, res+1, w, iw, user_data, ids.second);
     }
     return stat1+stat2;
 }
 
 template<typename MatFuncT>
 int SystemFromMatRhsFWrap<MatFuncT>::operator()(Memory mem) const { 
-    Real* rhs_p = mem.m_res[1];
-    int stat1 = m_mat->operator()(mem); 
-    int stat2 = 0;
-    if (stat1 == 0 && m_rhs){
-        mem.m_res[1] = rhs_p;
-        stat2 = m_rhs->operator()(mem.m_args, mem.m_res+1, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
-    }
-    return stat1+stat2;
+    return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
 }
 template<typename MatFuncT>
 typename SystemFromMatRhsFWrap<MatFuncT>::Int SystemFromMatRhsFWrap<MatFuncT>::setup_and_alloc_memory(){ 
@@ -1016,14 +1013,16 @@ void SystemFromMatRhsFWrap<MatFuncT>::defragment_memory(Int mem_id){
 template<typename MatFuncT>
 std::pair<typename SystemFromMatRhsFWrap<MatFuncT>::Int, typename SystemFromMatRhsFWrap<MatFuncT>::Int> SystemFromMatRhsFWrap<MatFuncT>::setup_and_alloc_memory_range(Int num_threads){ 
     auto id1 = m_mat->setup_and_alloc_memory_range(num_threads); 
-    std::pair<Int, Int> id2{0, 0};
-    if (id1.first >= 0 && id1.second >= 0 && m_rhs){
+    if (!m_rhs) return id1;
+    std::pair<Int, Int> id2;
+    try {
         id2 = m_rhs->setup_and_alloc_memory_range(num_threads);
-        if (id2.first < 0 || id2.second < 0){
-            m_mat->release_memory_range(id1);
-            return id2;
-        }
+    } catch (...) {
+        m_mat->release_memory_range(id1);
+        throw;
     }
+    // negative identificators mean that the function doesn't use internal memory
+    for (auto* id: {&id1.first, &id1.second, &id2.first, &id2.second}) *id = std::max(*id, Int(0));
     return {encode_id(id1.first, id2.first), encode_id(id1.second, id2.second)};
 }
 template<typename MatFuncT>
-- 
2.43.0


From 21061962b3c2e9dc9ca446fd3d3d7d75bade8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:06 +0000
Subject: [PATCH 32/76] fix: MINIBLOCKS enumeration gives wrong indices to all
 dofs of an element but the first

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 5f7490d..05d703f 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -827,7 +827,7 @@ PGE::EnumerateIndex SimpleEnumerator::operator()(const NaturalIndex& physIndex)
         auto iodf = getFullIndex(physIndex).GetElemDofId();
         switch (m_t){
             case ANITYPE: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim]) + iodf * NumElem[edim]; break;
-            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf * NumElem[edim]; break;
+            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf; break;
         }
     }
 
-- 
2.43.0


From eabf089ac78cb621e6c1c6e49b8411ba76894a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 33/76] fix: orientation of a face depends on the node of the
 tetrahedron opposite to it

---
 anifem++/inmost_interface/ordering.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 8b4f432..dcf1f35 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -157,8 +157,8 @@ namespace Ani{
         } else if (etype & DofT::FACE){
             char change = 0;
             for (int k = 0; k < 3; ++k)
-                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+k+1) % 4]) ++change;
-            return change == 1;    
+                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+(k+1)%3) % 4]) ++change;
+            return (change == 1) != (elid % 2 == 1);
         } else if (etype & DofT::NODE)
             return true;
         else if (etype & DofT::CELL){
-- 
2.43.0


From 91db29a4b569f1ff95ba05fd698c8ceb8ae1c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 34/76] fix: cleared GlobEnumeration still takes itself for
 prepared

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index d6186bb..7d92a6e 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -416,7 +416,7 @@ struct GlobEnumeration: public IGlobEnumeration{
     GlobEnumeration& setBaseEnumerator(typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(), *this; }
 
     INMOST::Storage::integer GNodeIndex(const INMOST::Node& n) const override { return m_invoker->GNodeIndex(n); }
-    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); }
+    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); IGlobEnumeration::Clear(); }
     EnumerateIndex OrderC (const NaturalIndex& physIndex) const override { return m_invoker->OrderC(physIndex); }
     EnumerateIndex operator()(const NaturalIndex& physIndex) const override { return m_invoker->operator()(physIndex); }
     NaturalIndex operator()(EnumerateIndex vi) const override { return m_invoker->operator()(vi); }
-- 
2.43.0


From e6cf44db18b6dc66ed40cb624141ce269265c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 35/76] fix: GlobEnumeration::setAssemblingType checks the old
 type instead of the new one

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index 7d92a6e..2af496c 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -407,7 +407,7 @@ struct GlobEnumeration: public IGlobEnumeration{
     T* base(){ return reinterpret_cast<T*>(m_invoker.get()); }
     template<typename T = IGlobEnumeration>
     const T* base() const { return reinterpret_cast<T*>(m_invoker.get()); }
-    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (m_t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
+    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
     ASSEMBLING_TYPE getAssemblingType() const { return m_t; }
     GlobEnumeration& setBaseEnumerator(std::shared_ptr<IGlobEnumeration> base){ return m_invoker = std::move(base), *this; }
     template<typename GlobEnumerationT>
-- 
2.43.0


From d6a678a30aa9fb6957f978c2bb384caef6b06e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 36/76] fix: renumbering of nodes does not change signs of
 oriented degrees of freedom

---
 anifem++/inmost_interface/ordering.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index dcf1f35..c1a2d19 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -357,7 +357,8 @@ namespace Ani{
         Mesh* m = ts[0].GetMeshLink();
         uint nontrivial_symmetry_geom_mask = DofT::UNDEF;
         for (uint geom_num = 0; geom_num < DofT::NGEOM_TYPES; ++geom_num)
-            if (dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+            if ((dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0))) 
+                || ((DofT::NumToGeomType(geom_num) & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT)) && dmap.NumDof(DofT::NumToGeomType(geom_num)) > 0))
                 nontrivial_symmetry_geom_mask |= DofT::NumToGeomType(geom_num);
         if (nontrivial_symmetry_geom_mask == DofT::UNDEF) return; 
         auto gmask = GeomMaskToInmostElementType(nontrivial_symmetry_geom_mask);
@@ -394,7 +395,7 @@ namespace Ani{
                 auto st_data = tv.data() + elem_data_shift[ielem_type_num];
                 for (std::size_t i = 0; i < inum_dofs[ielem_type_num]; ++i){
                     std::copy(st_data + block_sz*(abs(reord[i])-1), st_data + block_sz*abs(reord[i]), r.data() + block_sz*i);
-                    if (reord[i] < 0) std::for_each(r.data() + block_sz*i, r.data() + block_sz*(i+1), std::negate<double>());
+                    if (reord[i] < 0) std::transform(r.data() + block_sz*i, r.data() + block_sz*(i+1), r.data() + block_sz*i, std::negate<double>());
                 }
                 std::copy(r.data(), r.data() + block_sz*inum_dofs[ielem_type_num], st_data);
             }
-- 
2.43.0


From 8fbf5c1476344f0863546574b6bbba52ea41e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 37/76] fix: process without own elements of some type gets
 wrong range of indices

---
 anifem++/inmost_interface/global_enumerator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 05d703f..eecd9d9 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -588,8 +588,10 @@ void PGE::setupIGlobEnumeration(){
     std::array<long, 4> total_geom_elements = {0, 0, 0, 0};
     for (int d = 0; d < 4; ++d) if (et & INMOST::ElementTypeFromDim(d))
         total_geom_elements[d] = mesh->TotalNumberOf(INMOST::ElementTypeFromDim(d));
-    for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d) && BegElemID[d] == LONG_MAX){
-        BegElemID[d] = EndElemID[d] = total_geom_elements[d];
+    for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d)){
+        long nprev_elems = mesh->ExclusiveSum(NumElem[d]); //< every process should call it
+        if (BegElemID[d] == LONG_MAX)
+            BegElemID[d] = EndElemID[d] = nprev_elems;
     }
     MatrSize = 0, BegInd = 0, EndInd = 0;
     for (int i = 0; i < DofT::NGEOM_TYPES; ++i) if (NumDof[i] > 0){
-- 
2.43.0


From 976d312e931f66471760a10ee37cf26b938a6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 38/76] fix: assembler permutes degrees of freedom of faces and
 cells by the inverse permutation

---
 anifem++/inmost_interface/assembler.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 2b1570c..4e5217a 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -168,8 +168,8 @@ bool AssemblerT<Traits>::fill_assemble_templates(
             auto reordered_lsid = DofT::DofSymmetries::index_on_reorderd_elem(tl.etype, tl.nelem, tl.stype, tl.lsid, canonical_node_indexes); 
             auto elem = INMOST::Element(m, h[edim][tl.nelem]);
             bool is_active = (elem.GetStatus() != INMOST::Element::Ghost);
-            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id);
-            indexes[i - tl.lsid + reordered_lsid] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
+            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id - tl.lsid + reordered_lsid);
+            indexes[i] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
             if (is_active) has_active = true;
         }
         return has_active;
-- 
2.43.0


From f293d51ee56f6f6dbc66a5b605ed617d4cb9dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 39/76] fix: assembler gathers data in another order of nodes
 than it assembles with

---
 anifem++/inmost_interface/assembler.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 4e5217a..16c82d2 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -873,7 +873,7 @@ void AssemblerT<Traits>::GatherDataOnElement(const INMOST::Tag* var_tag, const s
     INMOST::ElementArray<INMOST::Edge> eds(m, 6); 
     INMOST::ElementArray<INMOST::Face> fcs(m, 4);
     const bool prep_ef = m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE);
-    collectConnectivityInfo(cell, nds, eds, fcs, true, prep_ef);
+    collectConnectivityInfo(cell, nds, eds, fcs, m_assm_traits.reorder_nodes, prep_ef);
     const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
     if (comp_node_perm){
@@ -892,7 +892,7 @@ void AssemblerT<Traits>::GatherDataOnElement(INMOST::Tag from, const INMOST::Cel
     INMOST::ElementArray<INMOST::Edge> eds(m, 6); 
     INMOST::ElementArray<INMOST::Face> fcs(m, 4);
     const bool prep_ef = m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE);
-    collectConnectivityInfo(cell, nds, eds, fcs, true, prep_ef);
+    collectConnectivityInfo(cell, nds, eds, fcs, m_assm_traits.reorder_nodes, prep_ef);
     const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
     if (comp_node_perm){
-- 
2.43.0


From 9e91e5b1bcd7961371edbced28912495d892a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 40/76] fix: collectConnectivityInfo gives only four of six
 edges

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index c1a2d19..da2e018 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -123,7 +123,7 @@ namespace Ani{
         INMOST::Mesh * m = cell.GetMeshLink();
         std::transform(hnodes, hnodes + 4, nodes, [m](INMOST::HandleType h)->INMOST::Node{ return INMOST::Node(m, h); });
         if (prepare_edges_and_faces){
-            std::transform(hedges, hedges + 4, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
+            std::transform(hedges, hedges + 6, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
             std::transform(hfaces, hfaces + 4, faces, [m](INMOST::HandleType h)->INMOST::Face{ return INMOST::Face(m, h); });
         }
     }
-- 
2.43.0


From 3e40f36327b9ecc84d995feaa68f8da962016185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 41/76] fix: one variable of several tags is gathered past the
 place for it

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index da2e018..79fb845 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -337,7 +337,7 @@ namespace Ani{
             int ext_dim = v;
             auto view = dmap.GetNestedDofMapView(&ext_dim, 1);
             GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(var_tags[v], *view.m_base, mlink, cell, faces, edges, nodes, canonical_node_indexes, 
-                                    out + view.m_shiftOnTet, next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
+                                    out + (ncomp == 0 ? view.m_shiftOnTet : 0), next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
         }
     }
     template<bool OnlyIfDataAvailable, class RandomIt>
-- 
2.43.0


From 14e1e353c845374f4788bbebc388fe431a103b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 42/76] fix: traversal of oriented degrees of freedom starts
 with a not oriented one

---
 anifem++/inmost_interface/global_enumerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index eecd9d9..f60691e 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -316,8 +316,8 @@ void PGE::iteratorByGeom::find_begin(){
     for (int dim = 0; dim <= 3; ++dim){
         auto etype = DofT::DimToGeomType(dim);
         if (!(sid.etype & etype)) continue; 
-        if (etype & DofT::EDGE_UNORIENT) etype = DofT::EDGE_UNORIENT;
-        else if (etype & DofT::FACE_UNORIENT) etype = DofT::FACE_UNORIENT;
+        if (etype & DofT::EDGE) etype = (sid.etype & DofT::EDGE_UNORIENT) ? DofT::EDGE_UNORIENT : DofT::EDGE_ORIENT;
+        else if (etype & DofT::FACE) etype = (sid.etype & DofT::FACE_UNORIENT) ? DofT::FACE_UNORIENT : DofT::FACE_ORIENT;
         j.elem_type = etype;
         auto et = INMOST::ElementTypeFromDim(dim);
         // INMOST::Storage::integer num_elems = p->mesh->NumberOf(et);
@@ -427,8 +427,8 @@ PGE::iteratorByGeom& PGE::iteratorByGeom::operator ++() {
     for (; dim <= 3; ++dim){
         auto etype = DofT::DimToGeomType(dim);
         if (!(sid.etype & etype)) continue;
-        if (etype & DofT::EDGE_UNORIENT) etype = DofT::EDGE_UNORIENT;
-        else if (etype & DofT::FACE_UNORIENT) etype = DofT::FACE_UNORIENT;
+        if (etype & DofT::EDGE) etype = (sid.etype & DofT::EDGE_UNORIENT) ? DofT::EDGE_UNORIENT : DofT::EDGE_ORIENT;
+        else if (etype & DofT::FACE) etype = (sid.etype & DofT::FACE_UNORIENT) ? DofT::FACE_UNORIENT : DofT::FACE_ORIENT;
         j.elem_type = etype;
         auto et = INMOST::ElementTypeFromDim(dim);
         // INMOST::Storage::integer num_elems = p->mesh->NumberOf(et);
-- 
2.43.0


From efd1e97332e7b7dcf01340f40431a7ad8e01b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 43/76] fix: traversal of complex space by sparsity of
 geometric elements misses degrees of freedom

With preferGeomOrdering dofs of the following spaces on the same element were
looked for on the geometric type of the last visited dof only, so that
oriented and not oriented dofs of different spaces were lost or repeated.
Without preferGeomOrdering the traversal stopped at the first space without
dofs on the sparsity.
---
 anifem++/fem/tetdofmap.cpp | 56 ++++++++++++++++++++------------------
 anifem++/fem/tetdofmap.inl | 55 +++++++++++++++++++------------------
 2 files changed, 58 insertions(+), 53 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 101efa0..0bc89dd 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -706,15 +706,19 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
+        for (uchar gdim = 0; gdim < 4; ++gdim){
             auto pos = sp.beginPos(gdim);
             if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            for (uint dim = 0; dim < m_spaces.size(); ++dim){
+                LocalOrder ll, lend;
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
+                }
             }
         }
         EndByGeomSparsity(lo);
@@ -735,8 +739,7 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            for (++dim; dim < m_spaces.size(); ++dim){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
@@ -760,26 +763,25 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
             return;
         } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
+            for (++dim; dim < m_spaces.size(); ++dim){
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                if (lgo != lend){
+                    num = GeomTypeToNum(lgo.etype);
+                    lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+                    return;
                 }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
             }
+            auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+            if (!next_pos.isValid()) { 
+                EndByGeomSparsity(lo); 
+                return; 
+            }
+            ss = sp;
+            for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+            for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+            BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+            return;
         }
     }
 }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..fc40283 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -748,15 +748,19 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
+            for (uchar gdim = 0; gdim < 4; ++gdim){
                 auto pos = sp.beginPos(gdim);
                 if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
+                TetGeomSparsity ss;
+                ss.set(pos.elem_dim, pos.elem_num);
+                for (uint dim = 0; dim < s.size(); ++dim){
+                    LocalOrder ll, lend;
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
+                    }
                 }
             }
             EndByGeomSparsity(lo);
@@ -779,8 +783,7 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                for (++dim; dim < s.size(); ++dim){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
@@ -804,25 +807,25 @@ namespace FemComDetails{
                 lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
                 return;
             } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
+                for (++dim; dim < s.size(); ++dim){
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                    if (lgo != lend){
+                        num = GeomTypeToNum(lgo.etype);
+                        lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+                        return;
                     }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
                 }
+                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+                if (!next_pos.isValid()) { 
+                    EndByGeomSparsity(lo); 
+                    return; 
+                }
+                ss = sp;
+                for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+                for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+                return;
             }
         }
     }
-- 
2.43.0


From bdc3c393baff4ab3505f7e4bdd71a0cb49a1314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:32 +0000
Subject: [PATCH 44/76] fix: traversal of vector space by geometric elements
 starts components with a not oriented dof

The first dof of the base space on the element might be an oriented one if the
base space is a complex one; such dofs of the second and further components
were skipped.
---
 anifem++/fem/tetdofmap.cpp | 20 +++-----------------
 anifem++/fem/tetdofmap.inl | 20 +++-----------------
 2 files changed, 6 insertions(+), 34 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 0bc89dd..4167dbd 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -513,23 +513,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index fc40283..71ec2db 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -490,23 +490,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
-- 
2.43.0


From 94da41eb90f75c52b825ae69ebaddeb1d0c3cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 45/76] fix: compile-time vector space gives wrong numbers of
 dofs of its components

VectorDofMapC divided the number of the dof on the element by the number of
dofs on all elements of the type.
---
 anifem++/fem/tetdofmap.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 71ec2db..2ba2786 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -402,14 +402,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From 1d6395fa082656081827dc3b93eb1497572d2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 46/76] fix: traversal of vector space starts with a not
 oriented dof even if the base starts with an oriented one

Oriented dofs which a complex base gives before not oriented ones on the same
element were skipped.
---
 anifem++/fem/tetdofmap.cpp | 6 ++++++
 anifem++/fem/tetdofmap.h   | 1 +
 anifem++/fem/tetdofmap.inl | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 4167dbd..7fba179 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -470,6 +470,12 @@ std::shared_ptr<DofT::BaseDofMap> DofT::VectorDofMap::GetSubDofMap(const int* ex
     } else 
         return nullptr;
 }
+void DofT::VectorDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+    if (m_dim > 0)
+        base->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+    else
+        EndByGeomSparsity(lo);
+}
 void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
     assert(isValidIndex(lo) && "Wrong index");
     int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(lo.etype);
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..d8784b5 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 2ba2786..cc5251c 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -385,6 +385,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
@@ -446,6 +447,13 @@ namespace FemComDetails{
         return m_base == a.m_base;
     }
 
+    template<typename DofMapT>
+    void VectorDofMapCImpl<true, DofMapT>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+        if (m_dim > 0)
+            m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+        else
+            EndByGeomSparsity(lo);
+    }
     template<typename DofMapT>
     void VectorDofMapCImpl<true, DofMapT>::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
         assert(isValidIndex(lo) && "Wrong index");
-- 
2.43.0


From 51ffce0c7d0bf4c544ae29a50d3f5842192ad530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:45 +0000
Subject: [PATCH 47/76] fix: process without own elements waits for the others
 in a collective operation they don't take part in

createGlobalToLocalIDMap called collective Mesh::TotalNumberOf only on the
processes without own elements of some type; the range it gave is empty
anyway.
---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index f60691e..7e9c940 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -508,7 +508,7 @@ PGE::GlobToLocIDMap PGE::createGlobalToLocalIDMap(INMOST::Mesh* m, INMOST::Eleme
         if (gid >= EndElemID[dim]) EndElemID[dim] = gid + 1;
     }
     for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d) && BegElemID[d] == LONG_MAX){
-        BegElemID[d] = EndElemID[d] = m->TotalNumberOf(INMOST::ElementTypeFromDim(d));
+        BegElemID[d] = EndElemID[d] = 0; // there are no own elements
     }
 
     auto mHdl = m->GetHandle();
-- 
2.43.0


From 25045fe4f7d232660c9bc8c54ddf77b7dc1950ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 48/76] fix: lower_bound and upper_bound of interval_map can't
 be compiled and dereference the end

---
 anifem++/interval/interval_map.inl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..be57d0d 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -158,9 +158,8 @@ namespace Ani{
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
+            it_ed = std::prev(m_map_list.end());
+            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return it;
@@ -172,9 +171,8 @@ namespace Ani{
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
+            it_ed = std::prev(m_map_list.end());
+            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         if (it == it_ed) return it_ed;
-- 
2.43.0


From 73ed61d846a7e67ab50e5a38fd8192ee0d4498c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 49/76] fix: keys below zero are not found in an interval_map
 that maps all keys

---
 anifem++/interval/interval_map.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index be57d0d..21eb435 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -62,6 +62,7 @@ namespace Ani{
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
             if (!m_comp(key, it_ed->first.m_start)) return true;
+            if ((boundary_status & 1) && it_ed == m_map_list.begin()) return true;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
@@ -128,8 +129,8 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const std::pair<interval<key_type>, mapped_type>* it, const key_type& key) const {
         if (m_map_list.empty()) return false;
-        // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
-        //     return true;
+        if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
+            return true;
         if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
             return !m_comp(key, it->first.m_start);
         if ((boundary_status & 1) && it == &(*m_map_list.begin()))
@@ -145,6 +146,7 @@ namespace Ani{
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
             if (!m_comp(key, it_ed->first.m_start)) return it_ed;
+            if ((boundary_status & 1) && it_ed == m_map_list.begin()) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
         if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
-- 
2.43.0


From 5e4964b2e054d5534016f1a2c424f52e5d949bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 50/76] fix: interval_map accepts infinite intervals
 conflicting with infinite intervals already stored

---
 anifem++/interval/interval_map.inl | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 21eb435..6e5ab09 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -201,30 +201,24 @@ namespace Ani{
         if (boundary_status & 2)
             m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
         
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
+        // [it_st0, it_end0) are intervals having common keys with the inserted one 
+        using value_t = std::pair<interval<key_type>, mapped_type>;
+        auto is_before = [&](const value_t& v){ 
+            bool v_right_inf = (boundary_status & 2) && &v == &m_map_list.back();
+            return !(bnd_type & 1) && !v_right_inf && !m_comp(start_interval, v.first.m_end); 
+        };
+        auto is_not_after = [&](const value_t& v){ 
+            bool v_left_inf = (boundary_status & 1) && &v == &m_map_list.front();
+            return (bnd_type & 2) || v_left_inf || m_comp(v.first.m_start, end_interval); 
+        };
+        auto it_st = std::partition_point(m_map_list.begin(), m_map_list.end(), is_before);
         auto it_st0 = it_st;
         if (it_st != m_map_list.begin()){
             auto it_prev = std::prev(it_st);
             if (it_prev->first.m_end == start_interval && it_prev->second == value)
                 it_st = it_prev;     
         }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
-        }
+        auto it_end = std::partition_point(it_st0, m_map_list.end(), is_not_after);
         auto it_end0 = it_end;
         if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
-- 
2.43.0


From 09a145cf630097b3c8f7eaebdb82c6143a8fe50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 51/76] fix: parse_interval_map assumes sizes of delimiters

---
 anifem++/interval/interval_map.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 6e5ab09..bf78148 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -267,7 +267,7 @@ namespace Ani{
             auto colon_pos = input.find(traits.interval_delimiter, pos);
             if (colon_pos == std::string::npos || colon_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.interval_delimiter + "\" separator");
-            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+1);
+            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+traits.interval_delimiter.size());
             if (arrow_pos == std::string::npos || arrow_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.map_delimiter + "\" operator");
             
@@ -278,13 +278,13 @@ namespace Ani{
             else
                 left_st = std::max(colon_pos, left_ed+1);
     
-            auto right_st = colon_pos+1, right_ed = colon_pos;
-            right_st = input.find_first_not_of(spaces, colon_pos+1);
+            auto right_st = colon_pos+traits.interval_delimiter.size(), right_ed = colon_pos;
+            right_st = input.find_first_not_of(spaces, right_st);
             if (right_st < arrow_pos)
                 right_ed = input.find_last_not_of(spaces, arrow_pos - 1);
             
-            auto value_st = arrow_pos+2, value_ed = arrow_pos+1;
-            value_st = input.find_first_not_of(spaces, arrow_pos+2);
+            auto value_st = arrow_pos+traits.map_delimiter.size(), value_ed = arrow_pos;
+            value_st = input.find_first_not_of(spaces, value_st);
             if (value_st == std::string::npos || value_st >= lend)
                 throw std::invalid_argument("Missing mapping value");
             value_ed = input.find_last_not_of(spaces, lend - 1);
@@ -301,7 +301,7 @@ namespace Ani{
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
-            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+1);
+            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+traits.elem_delimiter.size());
         }
     
         return m;
-- 
2.43.0


From c6652d378075535ec93c7ad8ec5fe4f9959bd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 52/76] fix: insertion of all keys into interval_map that
 failed for lack of memory spoils the map

---
 anifem++/interval/interval_map.inl | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index bf78148..37894b8 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -117,11 +117,10 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::insert(infinite_t, infinite_t, const mapped_type& value){
         for (auto it = m_map_list.begin(); it != m_map_list.end(); ++it) if (it->second != value)
             return {iterator{it, this}, false};
-        m_map_list.resize(1);
-        m_map_list[0].second = std::move(value);
-        m_map_list[0].first.m_start = key_type(0);
-        // m_map_list[0].first.m_end = key_type(0) + 1;
-        m_map_list[0].first.m_end = key_type(0);
+        std::vector<std::pair<interval<key_type>, mapped_type>, allocator_type> map_list;
+        // map_list.emplace_back(interval<key_type>{key_type(0), key_type(0) + 1}, value);
+        map_list.emplace_back(interval<key_type>{key_type(0), key_type(0)}, value);
+        m_map_list.swap(map_list);
         boundary_status = 1|2;
         return {iterator{m_map_list.begin(), this}, true};
     }
-- 
2.43.0


From 5defe9a6822dc7a96893831c3e38d194c5e50c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 53/76] fix: iterators of range enumerations: comparison, step
 back and subtraction

---
 anifem++/interval/ext_array_enum.h   | 8 ++++----
 anifem++/interval/ext_array_enum.inl | 5 ++---
 anifem++/interval/interval_enum.h    | 2 +-
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..907aa04 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -113,7 +113,7 @@ public:
     bool contains(const std::array<UInt, N+1>& i) const;
     std::size_t count(const std::array<UInt, N+1>& i) const { return contains(i) ? 1 : 0; }
     iterator begin(GInt i = 0) const;
-    iterator end() const{ iterator x; x.id.first = m_size; return x; }
+    iterator end() const{ iterator x; x.ptr = this; x.id.first = m_size; return x; }
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..3743a6f 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -875,10 +875,9 @@ typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator& ext_array_enum<N,
     auto x = (it2 != ptr->m_arr_enum.end()) ? it2->second[m] : UInt(-1);
     --it2;
     auto v2 = *it2;
-    auto v1 = *it1;
-    if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(v1.first))
+    if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(it1->first))
         --it1;
-    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(v1.first))
+    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(it1->first))
         it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
     val = std::move(v2);
     val.second[n] = it1->second;
diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..1e78ebf 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -74,7 +74,7 @@ struct interval_external_memory{
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-- 
2.43.0


From 62dac2d71e1a13b423113653dfa832002cdf4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 54/76] fix: containment in range enumerations depends on
 garbage

---
 anifem++/interval/ext_array_enum.h   | 2 +-
 anifem++/interval/ext_array_enum.inl | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 907aa04..cc6a11a 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -205,7 +205,7 @@ public:
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
-    void clear() { m_arr_enum.clear(); m_int_enum.clear(); }
+    void clear() { m_arr_enum.clear(); for (auto& v: m_int_enum) v.clear(); }
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 3743a6f..d98f850 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -727,10 +727,8 @@ bool ext_range_array_enum<N, RangeFunc, UInt, GInt>::contains(const std::array<U
     std::copy(i.data(), i.data() + insert_pos, id.data());
     std::copy(i.data() + insert_pos+1, i.data() + i.size(), id.data()+insert_pos);
     GInt beta = i[insert_pos];
-    if (!(beta < rg_size(id[depends_on])))
-        return false;
     auto it = std::lower_bound(m_ord.begin(), m_ord.end(), id, compare_arr);
-    return it != m_ord.end() && *it == id; 
+    return it != m_ord.end() && *it == id && beta < rg_size(id[depends_on]); 
 }
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
@@ -913,7 +911,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
-- 
2.43.0


From 5def6cf47d06c3e59d6bf5ef78deca42f6879be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 55/76] fix: lower_bound of ext_range_array_enum reads behind
 the end of the set

---
 anifem++/interval/ext_array_enum.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index d98f850..41208b9 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -743,6 +743,8 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     auto compare_arr_key = [compare_arr](const auto& a, const auto& b) { return compare_arr(a.first, b); };
 
+    if (empty())
+        return end();
     auto res = i;
     auto beta = [&id = res, n = insert_pos]() -> UInt& { return id[n]; };
     auto alpha = [&id = res, n = insert_pos](UInt k) -> UInt& { return id[k + (k >= n ? 1 : 0)]; };
@@ -826,7 +828,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
             if (beta() >= rg_size(it->first[m])) continue;
             if (!compare_arr(it->first, jd)){
                 auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
+                if(kt != m_ord.end() && check_ed(*kt, it->first)){
                     for (unsigned k = 0; k < N; ++k)
                         alpha(k) = (*kt)[k];
                     return begin(this->operator[](res));    
-- 
2.43.0


From 7f295d22189bad8482fb846ae730a2fdf0723306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 56/76] fix: ext_range_array_enum mishandles arrays with empty
 range of the extension and an empty set of arrays

---
 anifem++/interval/ext_array_enum.h   |  4 +++-
 anifem++/interval/ext_array_enum.inl | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index cc6a11a..eeff4d5 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -44,6 +44,8 @@ class ext_range_array_enum{
 public:
     /// Enumerator of initial array set
     std::vector<std::array<UInt, N>> m_ord;
+    /// Arrays from initial set those have empty range
+    std::vector<std::array<UInt, N>> m_skip;
     /// Inserted rangable value
     RangeFunc m_range_func;
     UInt insert_pos = 0, depends_on = 0;
@@ -125,7 +127,7 @@ public:
     ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
     void debug_print_state(std::ostream& out = std::cout) const;
-    void clear() { m_ord.clear(); insert_pos = 0, depends_on = 0; m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear(); m_size = 0; }
+    void clear() { m_ord.clear(); m_skip.clear(); insert_pos = 0, depends_on = 0; m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear(); m_size = 0; }
 private:
     void _setBaseSet(std::vector<std::array<UInt, N>> from_set);
     GInt rg_size(UInt v) const { return m_range_func(v); }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 41208b9..19c7ffe 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -71,6 +71,20 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     };
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     UInt n = insert_pos, m = depends_on;
+    if (!m_skip.empty()){
+        m_ord.reserve(m_ord.size() + m_skip.size());
+        m_ord.insert(m_ord.end(), m_skip.begin(), m_skip.end());
+        m_skip.clear();
+        std::sort(m_ord.begin(), m_ord.end(), compare_arr);
+    }
+    for (auto& v: m_ord) if (!(rg_size(v[m]) > 0))
+        m_skip.push_back(v);
+    m_ord.erase(std::remove_if(m_ord.begin(), m_ord.end(), [this, m](const auto& v) { return !(rg_size(v[m]) > 0); }), m_ord.end());
+    if (m_ord.empty()){
+        m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear();
+        m_size = 0;
+        return *this;
+    }
     
     std::map<std::array<UInt, N>, GInt> _r, _w, _p, _q;
     std::map<std::array<UInt, N>, std::map<GInt, GInt>> _qr; 
@@ -718,6 +732,7 @@ void ext_range_array_enum<N, RangeFunc, UInt, GInt>::_setBaseSet(std::vector<std
     std::sort(from_set.begin(), from_set.end(), [](const auto& a, const auto& b){ return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); });
     from_set.erase( std::unique( from_set.begin(), from_set.end() ), from_set.end() );
     m_ord = std::move(from_set);  
+    m_skip.clear();
 }
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
-- 
2.43.0


From e330888de47d8a418a101639d2e0b815f9b095ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:33 +0000
Subject: [PATCH 57/76] fix: ext_range_array_enum::setup failing for lack of
 memory loses or duplicates arrays with empty range

---
 anifem++/interval/ext_array_enum.inl | 53 +++++++++++++---------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 19c7ffe..3425aa1 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -71,16 +71,17 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     };
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     UInt n = insert_pos, m = depends_on;
+    auto ord = m_ord;
+    decltype(m_skip) skip;
     if (!m_skip.empty()){
-        m_ord.reserve(m_ord.size() + m_skip.size());
-        m_ord.insert(m_ord.end(), m_skip.begin(), m_skip.end());
-        m_skip.clear();
-        std::sort(m_ord.begin(), m_ord.end(), compare_arr);
+        ord.insert(ord.end(), m_skip.begin(), m_skip.end());
+        std::sort(ord.begin(), ord.end(), compare_arr);
     }
-    for (auto& v: m_ord) if (!(rg_size(v[m]) > 0))
-        m_skip.push_back(v);
-    m_ord.erase(std::remove_if(m_ord.begin(), m_ord.end(), [this, m](const auto& v) { return !(rg_size(v[m]) > 0); }), m_ord.end());
-    if (m_ord.empty()){
+    for (auto& v: ord) if (!(rg_size(v[m]) > 0))
+        skip.push_back(v);
+    ord.erase(std::remove_if(ord.begin(), ord.end(), [this, m](const auto& v) { return !(rg_size(v[m]) > 0); }), ord.end());
+    if (ord.empty()){
+        m_ord.swap(ord); m_skip.swap(skip);
         m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear();
         m_size = 0;
         return *this;
@@ -90,7 +91,7 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     std::map<std::array<UInt, N>, std::map<GInt, GInt>> _qr; 
 
     std::map<std::array<UInt, N>, GInt> &r = _r;
-    for (auto it = m_ord.begin(), ed = m_ord.end(); it != ed; ){
+    for (auto it = ord.begin(), ed = ord.end(); it != ed; ){
         auto a = *it;
         for (unsigned i = m+1; i < N; ++i) a[i] = 0;
         auto b = a;
@@ -139,9 +140,9 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
         _q = r;
     }
 
-    m_size = 0;
+    GInt size = 0;
     for (auto& v: _q)
-        m_size += rg_size(v.first[m]) * v.second;
+        size += rg_size(v.first[m]) * v.second;
     
     if (n <= m && !_q.empty()){
         if (n > 0){
@@ -194,26 +195,22 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
         }
     }  
 
-    m_r.resize(0); m_w.resize(0); m_p.resize(0); m_q.resize(0);
-    m_qr.resize(0); m_qrb.resize(0);
-    m_r.reserve(_r.size()); m_w.reserve(_w.size()); m_p.reserve(_p.size()); m_q.reserve(_q.size());
-    m_qr.reserve(_qr.size());
-    std::size_t _qrb_sz = 0;
-    for (auto& v: _qr) _qrb_sz += v.second.size();
-    m_qrb.reserve(_qrb_sz);
-
-    for (auto it = _r.begin(); it != _r.end(); ++it)  m_r.push_back(*it);
-    for (auto it = _w.begin(); it != _w.end(); ++it)  m_w.push_back(*it);
-    for (auto it = _p.begin(); it != _p.end(); ++it)  m_p.push_back(*it);
-    for (auto it = _q.begin(); it != _q.end(); ++it)  m_q.push_back(*it);
+    decltype(m_r) nr(_r.begin(), _r.end()), nw(_w.begin(), _w.end()), np(_p.begin(), _p.end()), nq(_q.begin(), _q.end());
+    decltype(m_qr) nqr;
+    decltype(m_qrb) nqrb;
+    nqr.reserve(_qr.size());
     for (auto it = _qr.begin(); it != _qr.end(); ++it)  {
-        auto st = m_qrb.size();
-        for (auto jt = it->second.begin(); jt != it->second.end(); ++jt)
-            m_qrb.push_back(*jt);
-        auto ed = m_qrb.size();   
-        m_qr.push_back({it->first, std::pair<std::size_t, std::size_t>{st, ed}});
+        auto st = nqrb.size();
+        nqrb.insert(nqrb.end(), it->second.begin(), it->second.end());
+        auto ed = nqrb.size();   
+        nqr.push_back({it->first, std::pair<std::size_t, std::size_t>{st, ed}});
     }
 
+    m_ord.swap(ord); m_skip.swap(skip);
+    m_r.swap(nr); m_w.swap(nw); m_p.swap(np); m_q.swap(nq);
+    m_qr.swap(nqr); m_qrb.swap(nqrb);
+    m_size = size;
+
     return *this;
 }
 
-- 
2.43.0


From ab8cd00007191c2a63661dcac6830a088ff3cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 58/76] fix: matrix-vector product of the KINSOL interface
 wrote into a copy of the result

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index fd5a428..19e46a5 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -780,7 +780,7 @@ int SUNMatCopy_Inmost(SUNMatrix A, SUNMatrix B) {
 
 int SUNMatMatvec_Inmost(SUNMatrix A, N_Vector x, N_Vector y) {
     INMOST::Sparse::Matrix& m = *SM_DATA_P(A);
-    INMOST::Sparse::Vector& xv = *NV_DATA_P(x), yv = *NV_DATA_P(y);
+    INMOST::Sparse::Vector &xv = *NV_DATA_P(x), &yv = *NV_DATA_P(y);
 #if defined(USE_MPI)
     INMOST::Solver::OrderInfo info;
     info.PrepareMatrix(m, SM_CONTENT_P(A)->overlap);
-- 
2.43.0


From 21167ce32b6aeef9e01fee6be60bf2fbc75c4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 59/76] fix: linear solver of the KINSOL interface swapped the
 codes for a reduced and for a larger residual

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 19e46a5..95cc4c5 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -938,8 +938,8 @@ int SUNLinSolSolve_Inmost(SUNLinearSolver S, SUNMatrix A, N_Vector x, N_Vector b
         if (resid <= tol) return SUNLS_SUCCESS;
         else {
             realtype init_resid = std::sqrt(N_VDotProd_Inmost(b, b));
-            if (init_resid >= resid) return SUNLS_CONV_FAIL;
-            else return SUNLS_RES_REDUCED;
+            if (init_resid >= resid) return SUNLS_RES_REDUCED;
+            else return SUNLS_CONV_FAIL;
         }
     }
 
-- 
2.43.0


From b459d42824b7e90dc6a3e4019fd48ea5f6123b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 60/76] fix: length and root mean square norms of distributed
 vectors used the length of the local part

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 95cc4c5..adfe273 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -144,7 +144,11 @@ N_Vector_ID N_VGetVectorID_Inmost(N_Vector v) {
     (void) v; return SUNDIALS_NVEC_CUSTOM;
 }
 sunindextype N_VGetLength_Inmost(N_Vector v){
-    return NV_DATA_P(v)->Size();
+    long size = NV_DATA_P(v)->Size();
+#ifdef USE_MPI
+    MPI_Allreduce(MPI_IN_PLACE, &size, 1, MPI_LONG, MPI_SUM, NV_DATA_P(v)->GetCommunicator());
+#endif
+    return size;
 }
 
 void N_VDestroy_Inmost(N_Vector v) {
@@ -376,13 +380,12 @@ realtype N_VWSqrSumLocal_Inmost(N_Vector x, N_Vector w) {
 
 realtype N_VWrmsNorm_Inmost(N_Vector x, N_Vector w) {
     realtype lsum = N_VWSqrSumLocal_Inmost(x, w), gsum = 0;
-    auto xv = NV_DATA_P(x);
 #ifdef USE_MPI
-    MPI_Allreduce(&lsum, &gsum, 1, MPI_DOUBLE, MPI_SUM, xv->GetCommunicator());
+    MPI_Allreduce(&lsum, &gsum, 1, MPI_DOUBLE, MPI_SUM, NV_DATA_P(x)->GetCommunicator());
 #else
     gsum = lsum;
 #endif    
-    return std::sqrt(gsum / xv->Size());
+    return std::sqrt(gsum / N_VGetLength_Inmost(x));
 }
 
 realtype N_VWSqrSumMaskLocal_Inmost(N_Vector x, N_Vector w, N_Vector id) {
@@ -399,13 +402,12 @@ realtype N_VWSqrSumMaskLocal_Inmost(N_Vector x, N_Vector w, N_Vector id) {
 
 realtype N_VWrmsNormMask_Inmost(N_Vector x, N_Vector w, N_Vector id) {
     realtype lsum = N_VWSqrSumMaskLocal_Inmost(x, w, id), gsum = 0;
-    auto xv = NV_DATA_P(x);
 #ifdef USE_MPI    
-    MPI_Allreduce(&lsum, &gsum, 1, MPI_DOUBLE, MPI_SUM, xv->GetCommunicator());
+    MPI_Allreduce(&lsum, &gsum, 1, MPI_DOUBLE, MPI_SUM, NV_DATA_P(x)->GetCommunicator());
 #else
     gsum = lsum;
 #endif    
-    return std::sqrt(gsum / xv->Size());
+    return std::sqrt(gsum / N_VGetLength_Inmost(x));
 }
 
 realtype N_VMinLocal_Inmost(N_Vector x) {
-- 
2.43.0


From 653d68577570f51f881b39dcde4531d3bfa758c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 61/76] fix: exceptions left the C interface of vectors and
 matrices and leaked the unfinished object

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index adfe273..05679cc 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -128,7 +128,8 @@ N_Vector N_VNew_Inmost(SUN_TYPED_CTX_COMMA(ctx) std::string name) {
     if (v == NULL) return NULL;
     auto content = static_cast<N_VectorContent_Inmost>(v->content);
 
-    content->data = new INMOST::Sparse::Vector(name);
+    try { content->data = new INMOST::Sparse::Vector(name); }
+    catch (...) { N_VDestroy_Inmost(v); return NULL; }
     content->own_data = true;
 
     return v;
@@ -201,7 +202,7 @@ N_Vector N_VClone_Inmost(N_Vector w) {
     auto wdat = NV_DATA_P(w);
     auto content = NV_CONTENT_P(v);
     static int id = 0;
-    if (wdat){
+    if (wdat) try {
         std::string wname = wdat->GetName();
         std::regex re("_cln[0-9]+");
         std::smatch m;
@@ -218,7 +219,7 @@ N_Vector N_VClone_Inmost(N_Vector w) {
         content->data = new INMOST::Sparse::Vector(name, wdat->GetFirstIndex(), wdat->GetLastIndex(), wdat->GetCommunicator());
         assert(!content->data->Empty());
         content->own_data = true;
-    }
+    } catch (...) { N_VDestroy_Inmost(v); return NULL; } // called from C
     return v;
 }
 
@@ -668,7 +669,8 @@ SUNMatrix SUNMatInmost(SUN_TYPED_CTX_COMMA(ctx) std::string name) {
     if (v == NULL) return NULL;
     auto content = static_cast<SUNMatrixContent_Inmost>(v->content);
 
-    content->data = new INMOST::Sparse::Matrix(name);
+    try { content->data = new INMOST::Sparse::Matrix(name); }
+    catch (...) { SUNMatDestroy_Inmost(v); return NULL; }
     content->own_data = true;
     content->overlap = 0;
 
@@ -730,7 +732,7 @@ SUNMatrix SUNMatClone_Inmost(SUNMatrix A) {
     auto wdat = SM_DATA_P(A);
     auto content = SM_CONTENT_P(v);
     static int id = 0;
-    if (wdat){
+    if (wdat) try {
         std::string wname = wdat->GetName();
         std::regex re("_cln[0-9]+");
         std::smatch m;
@@ -747,7 +749,7 @@ SUNMatrix SUNMatClone_Inmost(SUNMatrix A) {
         content->data = new INMOST::Sparse::Matrix(name, wdat->GetFirstIndex(), wdat->GetLastIndex(), wdat->GetCommunicator());
         content->own_data = true;
         content->overlap = SM_CONTENT_P(A)->overlap;
-    }
+    } catch (...) { SUNMatDestroy_Inmost(v); return NULL; } // called from C
     return v;
 }
 
-- 
2.43.0


From 6868df7ac2065c9e04c3e185429e6623e22a5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 62/76] fix: failed construction of SUNNonlinearSolver leaked
 the parts already made

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 05679cc..5c3752c 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -986,16 +986,12 @@ SUNNonlinearSolver::SUNNonlinearSolver(sundials::Context&& ctx): m_ctx(std::move
 #endif 
 
 SUNNonlinearSolver::SUNNonlinearSolver(SUNNonlinearSolver::Solver &s, SUNNonlinearSolver::Matrix &m,
-                                       SUNNonlinearSolver::Vector &x) {
-#if SUNDIALS_VERSION_MAJOR >= 6
-    m_ctx = sundials::Context(choose_void_internals(m.GetCommunicator()));
-#endif
+                                       SUNNonlinearSolver::Vector &x): SUNNonlinearSolver(choose_void_internals(m.GetCommunicator())) {
+    // the object is already constructed here: its destructor releases the parts if a step fails
     auto& m_x = SUNNonlinearSolver::x;
     LS = SUNLinSolInmost(SUNNLS_CTX_COMMA &s); if (!LS ) throw std::runtime_error("Error in initialization of SUNLinSolInmost");
     A   = SUNMatInmost(SUNNLS_CTX_COMMA &m);   if (!A  ) throw std::runtime_error("Error in initialization of SUNMatInmost");
     m_x = N_VNew_Inmost(SUNNLS_CTX_COMMA &x);  if (!m_x) throw std::runtime_error("Error in initialization of N_VNew_Inmost for x");
-
-    kin = KINCreate(SUNNLS_CTX); if (!kin) throw std::runtime_error("Error in initialization of KINCreate");
 }
 
 SUNNonlinearSolver::~SUNNonlinearSolver() {
-- 
2.43.0


From 695b7644ed07ffb35e0efe81267a80aaf153ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 63/76] fix: moved SUNNonlinearSolver shared the handles with
 its source and KINSOL kept the old address

---
 .../kinsol_interface/SUNNonlinearSolver.cpp   | 26 +++++++++++++++++--
 .../kinsol_interface/SUNNonlinearSolver.h     |  3 ++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 5c3752c..7813bc7 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -994,6 +994,28 @@ SUNNonlinearSolver::SUNNonlinearSolver(SUNNonlinearSolver::Solver &s, SUNNonline
     m_x = N_VNew_Inmost(SUNNLS_CTX_COMMA &x);  if (!m_x) throw std::runtime_error("Error in initialization of N_VNew_Inmost for x");
 }
 
+SUNNonlinearSolver::SUNNonlinearSolver(SUNNonlinearSolver&& other) noexcept:
+        assm(std::move(other.assm)), assmRHS(std::move(other.assmRHS)), assmMAT(std::move(other.assmMAT)),
+        x(other.x), A(other.A), LS(other.LS),
+#if SUNDIALS_VERSION_MAJOR >= 6
+        m_ctx(std::move(other.m_ctx)),
+#endif
+        kin(other.kin),
+        ihand(std::move(other.ihand)), ehand(std::move(other.ehand)), _ihand_set(other._ihand_set), _ehand_set(other._ehand_set),
+        u_scale(other.u_scale),
+        _lmat_assm_time(other._lmat_assm_time), _lrhs_assm_time(other._lrhs_assm_time),
+        _gmat_assm_time(other._gmat_assm_time), _grhs_assm_time(other._grhs_assm_time),
+        reason_flag(other.reason_flag), _egamma(other._egamma), _ealpha(other._ealpha), _wmin(other._wmin), _wmax(other._wmax)
+{
+    other.x = nullptr; other.A = nullptr; other.LS = nullptr; other.kin = nullptr; other.u_scale = nullptr;
+    other.reason_flag = KIN_MEM_NULL;
+    if (!kin) return;
+    // KINSOL keeps the address of the object
+    KINSetUserData(kin, this);
+    if (_ehand_set) KINSetErrHandlerFn(kin, errorHandler, this);
+    if (_ihand_set) KINSetInfoHandlerFn(kin, infoHandler, this);
+}
+
 SUNNonlinearSolver::~SUNNonlinearSolver() {
     KINFree(&kin);
     SUNLinSolFree_Inmost(LS); LS = nullptr;
@@ -1125,13 +1147,13 @@ SUNNonlinearSolver &SUNNonlinearSolver::SetAssemblerMAT(std::function<int(Vector
 }
 
 SUNNonlinearSolver &SUNNonlinearSolver::SetErrHandlerFn(SUNNonlinearSolver::ErrorHandler eh) {
-    ehand = std::move(eh);
+    ehand = std::move(eh); _ehand_set = true;
     KINSetErrHandlerFn(kin, errorHandler, this);
     return *this;
 }
 
 SUNNonlinearSolver &SUNNonlinearSolver::SetInfoHandlerFn(SUNNonlinearSolver::InfoHandler ih) {
-    ihand = std::move(ih);
+    ihand = std::move(ih); _ihand_set = true;
     KINSetInfoHandlerFn(kin, infoHandler, this);
     return *this;
 }
diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.h b/anifem++/kinsol_interface/SUNNonlinearSolver.h
index 22a57b5..592cd77 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.h
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.h
@@ -263,7 +263,7 @@ public:
 #if SUNDIALS_VERSION_MAJOR >= 6
     SUNNonlinearSolver(sundials::Context&& ctx);
 #endif 
-    SUNNonlinearSolver(SUNNonlinearSolver&&) noexcept = default;
+    SUNNonlinearSolver(SUNNonlinearSolver&& other) noexcept;
     SUNNonlinearSolver(Solver& s, Matrix& m, Vector& x);
     ~SUNNonlinearSolver();
 
@@ -362,6 +362,7 @@ private:
 
     InfoHandler ihand;
     ErrorHandler ehand;
+    bool _ihand_set = false, _ehand_set = false; ///< are the handlers registered in kin?
     N_Vector u_scale = nullptr;
     double _lmat_assm_time = 0, _lrhs_assm_time = 0;
     double _gmat_assm_time = 0, _grhs_assm_time = 0;
-- 
2.43.0


From eb1f0ccf4f416c90fa7829099d54308ba14f6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 64/76] fix: failed SUNNonlinearSolver::SetMatrix left the
 pointer to the destroyed matrix

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 7813bc7..698b5d2 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -1110,14 +1110,16 @@ std::string SUNNonlinearSolver::GetReason() {
 
 SUNNonlinearSolver &SUNNonlinearSolver::SetMatrix(SUNNonlinearSolver::Matrix &A) {
     auto& m_A = SUNNonlinearSolver::A;
-    SUNMatDestroy_Inmost(m_A); m_A = SUNMatInmost(SUNNLS_CTX_COMMA &A);
-    if (!m_A) throw std::runtime_error("Error in initialization of SUNMatInmost");
+    auto n_A = SUNMatInmost(SUNNLS_CTX_COMMA &A);
+    if (!n_A) throw std::runtime_error("Error in initialization of SUNMatInmost");
+    SUNMatDestroy_Inmost(m_A); m_A = n_A;
     return *this;
 }
 
 SUNNonlinearSolver &SUNNonlinearSolver::SetMatrix(std::string name) {
-    SUNMatDestroy_Inmost(A); A = SUNMatInmost(SUNNLS_CTX_COMMA name);
-    if (!A) throw std::runtime_error("Error in initialization of SUNMatInmost");
+    auto n_A = SUNMatInmost(SUNNLS_CTX_COMMA std::move(name));
+    if (!n_A) throw std::runtime_error("Error in initialization of SUNMatInmost");
+    SUNMatDestroy_Inmost(A); A = n_A;
     return *this;
 }
 
-- 
2.43.0


From 7e49ed477a78fbc92d5ce92be4f391f2616d51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:15 +0000
Subject: [PATCH 65/76] fix: SUNNonlinearSolver::SetConstraints hid failures
 and dropped the constraints when memory ran out

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 698b5d2..1f8b404 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -1183,8 +1183,10 @@ SUNNonlinearSolver &SUNNonlinearSolver::SetVerbosityLevel(int lvl) {
 
 SUNNonlinearSolver &SUNNonlinearSolver::SetConstraints(SUNNonlinearSolver::Vector &constraints) {
     auto constrs = N_VNew_Inmost(SUNNLS_CTX_COMMA &constraints);
-    KINSetConstraints(kin, constrs);
+    if (!constrs) throw std::runtime_error("Error in initialization of N_VNew_Inmost for constraints");
+    int ierr = KINSetConstraints(kin, constrs);
     N_VDestroy_Inmost(constrs);
+    if (ierr != KIN_SUCCESS) throw std::runtime_error("Error in KINSetConstraints: " + std::to_string(ierr));
     return *this;
 }
 
-- 
2.43.0


From b0b92cd8adc5011db5a89ecc154e3ac977b784ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 66/76] fix: print_linear_solver_status wrote before the string
 for four and more digits of iterations

---
 anifem++/utils/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 6ed79ec..6025b0c 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -89,8 +89,9 @@ void print_linear_solver_status(INMOST::Solver& s, const std::string& prob_name,
     else{
         if(pRank == 0) {
             std::cout << prob_name << ":\n";
-            std::string _s_its = std::to_string(s.Iterations()), s_its = "    ";
-            std::copy(_s_its.begin(), _s_its.end(), s_its.begin() + 3 - _s_its.size());
+            std::string s_its = std::to_string(s.Iterations());
+            if (s_its.size() < 3) s_its.insert(0, 3 - s_its.size(), ' ');
+            s_its += ' ';
 
             std::cout << "\tsolved_succesful: #lits " << s_its << " residual " << s.Residual() << ", "
                       << "preconding = " << s.PreconditionerTime() << "s, solving = " << s.IterationsTime() << "s" << std::endl;
-- 
2.43.0


From 1e574d73af0f6c59d7d776934d988f8ea56408a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 67/76] fix: eval_op_var_by_barycentric_points mixed up the
 d.o.f.'s of spaces with several symmetric d.o.f.'s on an element (e.g. P3)

---
 anifem++/utils/utils.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 6025b0c..45d9243 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -138,7 +138,14 @@ void eval_op_var_by_barycentric_points(Ani::DenseMatrix<> out/*Dim x N*/, Ani::D
     collectConnectivityInfo(c, nds.data(), eds.data(), fcs.data(), true, prep_ef);
 
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
-    const bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    for (unsigned etnum = 0; etnum < DofT::NGEOM_TYPES && !comp_node_perm; ++etnum){
+        auto etype = DofT::NumToGeomType(etnum);
+        if (dmap.NumDof(etype) > 0){
+            auto smask = dmap.SymComponents(etype);
+            comp_node_perm = (smask == DofT::DofSymmetries::MASK_UNDEF || (smask >> 1));
+        }
+    }
     if (comp_node_perm){
         std::array<long, 4> gni;
         for (int i = 0; i < 4; ++i)
-- 
2.43.0


From 9bf026aae841c36e45be5d9abbe0c63467b6515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 68/76] fix: integrate_vector_func passed barycentric
 coordinates in other node order than the evaluation of variables expects

---
 anifem++/utils/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 45d9243..e82c47e 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -196,11 +196,12 @@ void integrate_vector_func(double* out, unsigned dim, Mesh* m, const std::functi
         auto& mem = pools[static_cast<std::size_t>(nthread)];
         auto& lres = local_res[static_cast<std::size_t>(nthread)];
 
-        auto const& hc = m->HighConn(cell.GetHandle());
+        std::array<HandleType, 4> nds;
+        collectConnectivityInfo(cell, nds.data(), nullptr, nullptr, true, false); //< same node order as in eval_op_var_by_barycentric_points
         double XY_nodes[12]{};
         for (int n = 0; n < 4; ++n)
             for (int k = 0; k < 3; ++k)
-                XY_nodes[3*n + k] = Node(m, hc[n]).Coords()[k];
+                XY_nodes[3*n + k] = Node(m, nds[n]).Coords()[k];
         {
             auto work = mem.alloc(3*q + dim*q, 0, 0);
             DenseMatrix<> X(work.m_mem.ddata, 3, q);
-- 
2.43.0


From eed2f47ae52140d057edf5509dcf1a21f85cbd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 69/76] fix: solve_stationary_diffusion ignored Neumann
 conditions for spaces without d.o.f.'s on faces

---
 anifem++/utils/utils.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index e82c47e..9eca568 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -408,13 +408,16 @@ void solve_stationary_diffusion(
         if (geom_mask & DofT::EDGE)
             for (unsigned i = 0; i < 6U; ++i) if (is_dirichlet((*p.edges)[i]))
                 data.sp.setEdge(i);
-        if (geom_mask & DofT::FACE)
-            for (unsigned i = 0; i < 4U; ++i) {
-                if (is_dirichlet((*p.faces)[i]))
+        for (unsigned i = 0; i < 4U; ++i) {
+            const bool has_face_dofs = geom_mask & DofT::FACE, on_boundary = (*p.faces)[i].GetMarker(bmrk);
+            if (!has_face_dofs && !on_boundary)
+                continue;
+            if (is_dirichlet((*p.faces)[i])){
+                if (has_face_dofs)
                     data.sp.setFace(i);
-                else if ((*p.faces)[i].GetMarker(bmrk))
-                    data.is_neumann |= (1 << i);
-            }
+            } else if (on_boundary)
+                data.is_neumann |= (1 << i);
+        }
         if ((geom_mask & DofT::CELL) && is_dirichlet(*p.cell) )
             data.sp.setCell();
         data.node_permutation = p.node_permutation;
@@ -482,6 +485,7 @@ void solve_stationary_diffusion(
         discr.SetProbDescr(std::move(fed));
     }
     discr.SetDataGatherer(data_gatherer);
+    discr.m_assm_traits.prepare_faces = true; //< boundary conditions need faces for any space
     discr.PrepareProblem();
     Sparse::Matrix A("A");
     Sparse::Vector x("x"), b("b");
-- 
2.43.0


From 05c5767168525f59a42a57f10e6c755921cbafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 70/76] fix: failed solve_stationary_diffusion left its marker
 on the mesh

---
 anifem++/utils/utils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 9eca568..14564db 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -393,6 +393,14 @@ void solve_stationary_diffusion(
     auto bmrk = m->CreateMarker();
     if (bmrk == InvalidMarker())
         throw std::runtime_error("Can't create marker");
+    struct MarkerGuard{
+        INMOST::Mesh* m;
+        decltype(bmrk) mrk;
+        ~MarkerGuard(){
+            for (auto f = m->BeginFace(); f != m->EndFace(); ++f) f->RemMarker(mrk);
+            m->ReleaseMarker(mrk);
+        }
+    } marker_guard{m, bmrk};
     m->MarkBoundaryFaces(bmrk);
     auto data_gatherer = [geom_mask, is_dirichlet, bmrk](ElementalAssembler& p)->void{
         double *nn_p = p.get_nodes();
@@ -501,8 +509,6 @@ void solve_stationary_diffusion(
     discr.SaveSolution(x, res_tag);
     solver.Clear();
     discr.Clear();
-    for (auto f = m->BeginFace(); f != m->EndFace(); ++f) f->RemMarker(bmrk);
-    m->ReleaseMarker(bmrk);
 }
 
 void make_laplace(INMOST::Mesh* m, Ani::FemSpace fem, INMOST::Tag res_tag, const std::function<bool(INMOST::Element e)> is_dirichlet, const std::function<void(INMOST::Element e, std::array<double, 3> X, Ani::ArrayView<> dirichlet_value_out)> dirichlet_func, int order){
-- 
2.43.0


From f4369182e5a9be10d22a513abaf9037ba1542dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:44 +0000
Subject: [PATCH 71/76] fix: eval_op_var_at_point used other node order than
 GatherDataOnElement when reordering is off

---
 anifem++/utils/utils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.inl b/anifem++/utils/utils.inl
index 736a84e..01fbfc0 100644
--- a/anifem++/utils/utils.inl
+++ b/anifem++/utils/utils.inl
@@ -11,7 +11,7 @@ void eval_op_var_at_point(double* out, INMOST::Cell c, std::array<double, 3> x_p
     INMOST::Mesh* m = c.GetMeshLink();
     INMOST::ElementArray<INMOST::Node> nds(m, 4);
     INMOST::ElementArray<INMOST::Edge> eds(m); INMOST::ElementArray<INMOST::Face> fcs(m);
-    Ani::collectConnectivityInfo(c, nds, eds, fcs, true, false);
+    Ani::collectConnectivityInfo(c, nds, eds, fcs, discr.m_assm_traits.reorder_nodes, false); //< same node order as in GatherDataOnElement
     double X[12]{};
     for (int n = 0; n < 4; ++n)
         for (int k = 0; k < 3; ++k)
-- 
2.43.0


From 45a312fd6bab8087660f0dcd068e223df72b3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:49 +0000
Subject: [PATCH 72/76] fix: default DUDX operator overwrote the block
 structure of GRAD while still reading it

---
 anifem++/fem/fem_space.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 17d6b1f..2f1d610 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -351,13 +351,15 @@ namespace Ani{
             }
         };
         int upart = 0, ushift = 0;
+        auto stRow = Vx.stRow[0], stCol = Vx.stCol[0]; //< begin of the p-th block of GRAD, Vx.stRow[p] and Vx.stCol[p] are already overwritten
         for (std::size_t p = 0; p < Vx.nparts; ++p){
-            int dst = align_to_3(Vx.stRow[p], true), dend = align_to_3(Vx.stRow[p+1]-1, false);
+            int dst = align_to_3(stRow, true), dend = align_to_3(Vx.stRow[p+1]-1, false);
             int nd = ( (dend >= dst) ? (dend - dst) / 3 + 1 : 0);
-            int nCol = Vx.stCol[p+1] - Vx.stCol[p], nRow = (Vx.stRow[p+1] - Vx.stRow[p]);
-            int rowShift = (dst - Vx.stRow[p]);
+            int nCol = Vx.stCol[p+1] - stCol, nRow = (Vx.stRow[p+1] - stRow);
+            int rowShift = (dst - stRow);
+            stRow = Vx.stRow[p+1], stCol = Vx.stCol[p+1];
             if (nd > 0){
-                DenseMatrix<> lU(U.data + ushift, mem.q * nd, mem.f*(Vx.stCol[p+1] - Vx.stCol[p]));
+                DenseMatrix<> lU(U.data + ushift, mem.q * nd, mem.f*nCol);
                 for (std::size_t r = 0; r < mem.f; ++r)
                 for (int i = 0; i < nCol; ++i)
                 for (std::size_t n = 0; n < mem.q; ++n)
-- 
2.43.0


From 25600d3fa7931f08fd50a4cdb5f348208e8687da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:05 +0000
Subject: [PATCH 73/76] fix: parts of a generated parallelepiped stay inside of
 it for any number of processes

---
 anifem++/utils/mesh_utils.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/anifem++/utils/mesh_utils.cpp b/anifem++/utils/mesh_utils.cpp
index f21a92a..3b85f00 100644
--- a/anifem++/utils/mesh_utils.cpp
+++ b/anifem++/utils/mesh_utils.cpp
@@ -91,20 +91,13 @@ std::unique_ptr<Mesh> GenerateParallelepiped(INMOST_MPI_Comm comm, std::array<un
     unsigned proc_coords[3] = {rank % procs_per_axis[0] , rank / procs_per_axis[0] % procs_per_axis[1], rank / (procs_per_axis[0] *procs_per_axis[1]) };
 
     unsigned localsize[3], localstart[3], localend[3];
-    unsigned avgsize[3] =
-            {
-                    (unsigned)ceil((double)sizes[0]/procs_per_axis[0]),
-                    (unsigned)ceil((double)sizes[1]/procs_per_axis[1]),
-                    (unsigned)ceil((double)sizes[2]/procs_per_axis[2])
-            };
 
+    // Parts of an axis differ by one step at most and may be empty if there are more parts than steps
     for(int j = 0; j < 3; j++)
     {
-        localstart[j] = avgsize[j] * proc_coords[j];
-        if( proc_coords[j] == procs_per_axis[j] - 1 )
-            localsize[j] = sizes[j] - avgsize[j] * (procs_per_axis[j]-1);
-        else localsize[j] = avgsize[j];
-        localend[j] = localstart[j] + localsize[j];
+        localstart[j] = static_cast<unsigned>(static_cast<unsigned long long>(sizes[j]) * proc_coords[j] / procs_per_axis[j]);
+        localend[j] = static_cast<unsigned>(static_cast<unsigned long long>(sizes[j]) * (proc_coords[j] + 1) / procs_per_axis[j]);
+        localsize[j] = localend[j] - localstart[j];
     }
 
     // Create i-j-k structure of nodes
-- 
2.43.0


From 2c0a8f5316f3a709b4e67a3d8ae00b199caa2a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:40 +0000
Subject: [PATCH 74/76] fix: bounded spectra of metrics do not depend on
 rounding errors

---
 anifem++/utils/adapt_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 21326d3..03a157e 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -184,7 +184,8 @@ inline bool clamp_evals(SpectrumInfo& s, const MetricsConstructTraits& tr) {
     sort_eigen_asc(s.eval, s.Q);
 
     const double R = std::max(tr.M_lambda_max_rel, 1.0);
-    if (s.eval[0] > kEigenEps && s.eval[2] / s.eval[0] > R) {
+    // A compressed spectrum has the ratio R up to rounding errors and must not be compressed again
+    if (s.eval[0] > kEigenEps && s.eval[2] / s.eval[0] > R * (1.0 + 1e-8)) {
         const double g = std::cbrt(s.eval[0] * s.eval[1] * s.eval[2]);
         const double lo = 1.0 / std::sqrt(R);
         const double hi = std::sqrt(R);
-- 
2.43.0


From 2e971fdf4fffc20eb1e11c8ea551e55f0d87efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 75/76] fix: metrics take degrees of freedom of edges and faces
 in the common order of nodes

---
 anifem++/utils/adapt_mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 03a157e..d520581 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -594,7 +594,14 @@ void construct_metrics(FemSpace fem, Tag var, Tag& metrics, MetricsConstructTrai
     const auto grad_op = fem.getOP(GRAD);
     const int quad_order = std::max(1, traits.max_quad_order);
     const bool prep_ef = dmap.GetGeomMask() & (DofT::EDGE | DofT::FACE);
-    const bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    for (unsigned etnum = 0; etnum < DofT::NGEOM_TYPES && !need_node_perm; ++etnum) {
+        const auto etype = DofT::NumToGeomType(etnum);
+        if (dmap.NumDof(etype) > 0) {
+            const auto smask = dmap.SymComponents(etype);
+            need_node_perm = (smask == DofT::DofSymmetries::MASK_UNDEF || (smask >> 1));
+        }
+    }
 
     {
         const char* tmp_name = "___tmp_cell_absH_svals";
-- 
2.43.0


From 6072633fb237318456aab1e3925678557615a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 76/76] fix: Jacobi eigensolver converges for matrices of any
 scale

---
 anifem++/fem/geometry.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 86468e2..61bc376 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -503,7 +503,10 @@ namespace Ani{
                 for (int i = 0; i < n; ++i)
                     evecs[i + j*n] = (i == j) ? 1 : 0;
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
+            Scalar scale = 0;
+            for (int i = 0; i < n*n; ++i)
+                scale = std::max(scale, std::fabs(sym[i]));
+            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon() * scale;
             int err = 1;
             for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
                 Scalar off = 0;
@@ -518,7 +521,7 @@ namespace Ani{
                 for (int p = 0; p < n; ++p){
                     for (int q = p + 1; q < n; ++q){
                         Scalar apq = sym[p + q*n];
-                        if (std::fabs(apq) <= tol)
+                        if (std::fabs(apq) * n <= tol) // then the sum of squares is below tol * tol
                             continue;
                         Scalar app = sym[p + p*n];
                         Scalar aqq = sym[q + q*n];
-- 
2.43.0

