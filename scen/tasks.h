#ifndef VERIF_SCEN_TASKS_H
#define VERIF_SCEN_TASKS_H
#include "common.h"
#include <thread>
#ifdef WITH_OPENMP
#include <omp.h>
#endif
// Runs the operations of the plan: task t executes those with th == t, in order. kind 0: in the calling task (one after
// another), 1: native threads, 2: an OpenMP team
template <class F> void run_tasks(const sim::Plan& p, int kind, F f) {
    int nt = p.threads();
    auto body = [&](int t) { sim::Quiet q; for (const sim::Op& o : p.ops) if (o.th == t) { sim::op_begin(o); f(o); sim::op_end(); } };
    if (nt <= 1 || kind == 0) { for (const sim::Op& o : p.ops) { sim::op_begin(o); f(o); sim::op_end(); } return; }
    sim::nontrivial();
#ifdef WITH_OPENMP
    if (kind == 2) {
        sim::Loud l;
        #pragma omp parallel num_threads(nt)
        { int n = omp_get_num_threads(); for (int t = omp_get_thread_num(); t < nt; t += n) body(t); }
        return;
    }
#endif
    sim::Loud l;
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back([&body, t] { body(t); });
    for (auto& x : th) x.join();
}
#endif
