import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
M="anifem++/fem/fem_memory.h"; PM="anifem++/fem/fem_memory_parallel.h"; MT="anifem++/fem/mutex_type.h"; FW="anifem++/inmost_interface/func_wrap.h"; FI="anifem++/inmost_interface/func_wrap.inl"
mkseed("pool-header-slots","C01",[(M,"(lchk->mbusy == 0 || lchk->mdata.size() >= lchk->mbusy + msize)","(lchk->ibusy == 0 || lchk->mdata.size() >= lchk->mbusy + msize)")],
 "a live block with matrix headers and no integers in the chunk chosen for a later request with headers",
 "the later block's matrix headers lie outside the storage of the pool","""
#include <cstdio>
#include "anifem++/fem/fem_memory.h"
int main() {
    Ani::DynMem<double, int> m;
    auto a = m.alloc(8, 0, 2);
    auto b = m.alloc(0, 0, 3);
    auto x = b.getPlainMemoryX();
    for (auto& c : m.m_chunks)
        if (!c.mdata.empty() && x.mdata >= c.mdata.data() && x.mdata + 3 <= c.mdata.data() + c.mdata.size()) return 0;
    printf("headers outside of the pool\\n");
    return 1;
}
""")
mkseed("pool-move-over-live","C02",[(M,"""                if (&a == this) return *this;
                clear();
                m_mem = a.m_mem;""","""                if (&a == this) return *this;
                if (m_link != a.m_link) clear();
                m_mem = a.m_mem;""")],
 "a live block is overwritten by moving another block of the same pool over it",
 "the overwritten block is never released, the pool never becomes idle again","""
#include <cstdio>
#include "anifem++/fem/fem_memory.h"
int main() {
    Ani::DynMem<double, int> m;
    {
        auto a = m.alloc(8, 2, 0);
        auto b = m.alloc(20, 2, 0);
        a = std::move(b);
    }
    try { m.defragment(); } catch (const std::exception& e) { printf("idle pool refuses compaction: %s\\n", e.what()); return 1; }
    return 0;
}
""")
mkseed("registry-unlocked-check","C03",[(PM,"""        std::lock_guard<MutexType> lock(m_mutex);
        if (m_unused.empty()){
            m_mem.emplace_back(std::make_unique<DynMem<Real, Int>>());""","""        bool make_new = m_unused.empty();
        std::lock_guard<MutexType> lock(m_mutex);
        if (make_new){
            m_mem.emplace_back(std::make_unique<DynMem<Real, Int>>());""")],
 "two tasks acquire a slot at the same time while exactly one released slot is available, the second one overtaking the first between its check and its lock",
 "both tasks are served from the single released slot: the same slot is handed out twice or the list of released slots is read past its end","""
#include <cstdio>
#include <mutex>
#include <functional>
#include "anifem++/fem/fem_memory_parallel.h"
static std::function<void()> before_lock; // what another task does just before this one gets the lock
struct Lock {
    void lock() { if (before_lock) { auto f = before_lock; before_lock = nullptr; f(); } }
    void unlock() {}
    bool try_lock() { return true; }
};
int main() {
    Ani::DynMemParallel<double, int, Lock> r;
    int a = r.alloc(), b = r.alloc();
    r.release(b);
    int other = -1;
    before_lock = [&] { other = r.alloc(); };
    int mine = r.alloc();
    printf("%d %d %d\\n", a, other, mine);
    return mine == other || mine == a || other == a || mine < 0 || mine > 2 ? 1 : 0;
}
""")
mkseed("wrapper-flags-swapped","C04",[(FI,"""f, size_t nRow, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
""","""f, size_t nRow, size_t nw, size_t niw, bool use_dyn_mem, bool with_user_data){
""")],
 "a right-hand side function generated from an aggregated callback that needs user data but no pool, or the other way round",
 "the function reports the wrong requirements and its callback gets no pool although it asked for one","""
#include <cstdio>
#include <iostream>
#include <functional>
#include "anifem++/inmost_interface/func_wrap.h"
int main() {
    using D = Ani::MatFuncWrapDynamic<ThreadPar::Type::NONE, double, long>;
    bool pool = false;
    auto f = Ani::GenerateElemRhs<ThreadPar::Type::NONE, double, long>(std::function<void(D::IOData)>([&](D::IOData x) { pool = x.allocator != nullptr; }), 4, 0, 0, false, true);
    long id = f.setup_and_alloc_memory();
    const double* args[4] = {0, 0, 0, 0}; double out[4]; double* res[1] = {out};
    f(args, res, nullptr, nullptr, nullptr, id);
    printf("%d %d\\n", (int)pool, (int)f.is_user_data_required());
    return pool && !f.is_user_data_required() ? 0 : 1;
}
""")
mkseed("parloop-worker-number","C05",[(MT,"f(beg+i, omp_get_thread_num(), args...);","f(beg+i, static_cast<int>(i % nthreads), args...);")],
 "an OpenMP loop whose number of workers differs from the one in the chunking of the runtime, two bodies overlapping in time",
 "two bodies running at the same time get the same worker number (or, with the automatic number of workers, numbers out of range)","""
#include <atomic>
#include <cstdio>
#include <vector>
#include <chrono>
#include "anifem++/fem/mutex_type.h"
int main() {
    std::vector<int> data(64);
    std::vector<std::atomic<int>> busy(64); for (auto& b : busy) b = 0;
    std::atomic<int> bad{0};
    auto body = [&](std::vector<int>::iterator it, int th) {
        if (th < 0 || th >= 4) { bad++; return; }
        if (busy[th].fetch_add(1) != 0) bad++;
        std::this_thread::sleep_for(std::chrono::milliseconds(3));
        busy[th].fetch_sub(1);
    };
    ThreadPar::parallel_for<ThreadPar::Type::OMP>(4, body, data.begin(), data.end());
    printf("%d\\n", bad.load());
    return bad ? 1 : 0;
}
""",flags="-DWITH_OPENMP -fopenmp")
mkseed("parloop-native-remainder","C05",[(MT,"perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);","perform_for_on_thread(0, f, beg + (batch_size > 0 ? batch_size*(nthreads - 1) + batch_remainder : 0), end, args...);")],
 "native threads, a range shorter than the number of workers",
 "elements that a worker has taken are processed a second time by the calling thread","""
#include <atomic>
#include <cstdio>
#include <vector>
#include "anifem++/fem/mutex_type.h"
int main() {
    for (int nt = 1; nt < 7; ++nt) for (int n = 0; n < 15; ++n) {
        std::vector<std::atomic<int>> cnt(20); for (auto& c : cnt) c = 0;
        std::vector<int> d(20);
        auto body = [&](std::vector<int>::iterator it, int) { cnt[it - d.begin()]++; };
        ThreadPar::parallel_for<ThreadPar::Type::STD>(nt, body, d.begin(), d.begin() + n);
        for (int i = 0; i < 20; ++i) if (cnt[i] != (i < n)) { printf("%d workers, %d elements: element %d ran %d times\\n", nt, n, i, cnt[i].load()); return 1; }
    }
    return 0;
}
""")
