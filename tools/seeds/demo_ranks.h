// ranks as threads that take turns; a system of equations
#include "inmost.h"
#include "anifem++/kinsol_interface/SUNNonlinearSolver.h"
#include <thread>
#include <unistd.h>
#include <functional>
using INMOST::Sparse::Vector; using INMOST::Sparse::Matrix; using INMOST::Solver;
double Timer() { static double t = 0; return t += 0.125; }
inline void run_ranks(int n, std::function<void(int)> f) {
    alarm(30); SimComm c(n); std::vector<std::thread> th;
    for (int q = 0; q < n; ++q) th.emplace_back([&, q] { std::unique_lock<std::mutex> lk(c.m); SimComm::mine() = &c; SimComm::rank() = q; SimComm::lock() = &lk; f(q); });
    for (auto& t : th) t.join();
}
// u_i^3 + 2 u_i = 12, solution 2
inline int residual(Vector& x, Vector& b) { for (unsigned i = x.GetFirstIndex(); i < x.GetLastIndex(); ++i) b[i] = x[i] * x[i] * x[i] + 2 * x[i] - 12; return 0; }
inline int jacobian(Vector& x, Matrix& A) { for (unsigned i = x.GetFirstIndex(); i < x.GetLastIndex(); ++i) A[i][i] = 3 * x[i] * x[i] + 2; return 0; }
