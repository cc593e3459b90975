// A small tetrahedral mesh (a fan of cells around one edge) on one or several ranks, over the stand-in mesh library beside this file.
#pragma once
#include <set>
#include <thread>
#include <atomic>
#include <chrono>
#include <cstdio>
#include "inmost.h"
#include "anifem++/inmost_interface/fem.h"
double Timer() { return 0; }
struct Fan {
    int nc, nr; std::vector<std::array<double, 3>> x; std::vector<std::vector<int>> ent[4]; std::map<std::vector<int>, int> find[4];
    std::vector<int> owner[4], gid[4]; std::vector<std::vector<char>> local[4];
    std::unique_ptr<INMOST::Comm> comm; std::vector<std::unique_ptr<INMOST::Mesh>> m; std::vector<std::map<int, int>> g2l[4]; std::vector<std::vector<int>> l2g[4];
    int add(std::vector<int> v) { std::sort(v.begin(), v.end()); int d = (int)v.size() - 1; auto it = find[d].find(v); if (it != find[d].end()) return it->second; ent[d].push_back(v); return find[d][v] = (int)ent[d].size() - 1; }
    // rank(c): owner of cell c
    Fan(int ncells, int ranks = 1, std::function<int(int)> rank = [](int) { return 0; }) : nc(ncells), nr(ranks) {
        x.push_back({0, 0, -1}); x.push_back({0, 0, 1});
        for (int k = 0; k <= nc; ++k) { double a = 6.0 * k / (nc + 1); x.push_back({cos(a), sin(a), 0.1 * (k % 3)}); }
        for (size_t k = 0; k < x.size(); ++k) add({(int)k});
        for (int c = 0; c < nc; ++c) { std::vector<int> v{0, 1, 2 + c, 3 + c}; add(v); for (int i = 0; i < 4; ++i) { std::vector<int> f; for (int j = 0; j < 4; ++j) if (j != i) f.push_back(v[j]); add(f); for (int j = i + 1; j < 4; ++j) add({v[i], v[j]}); } }
        comm.reset(new INMOST::Comm(nr));
        std::vector<std::set<int>> near(nr);
        for (int c = 0; c < nc; ++c) for (int v : ent[3][c]) near[rank(c)].insert(v);
        auto each = [&](int c, std::function<void(int, int)> f) { auto& v = ent[3][c]; f(3, c); for (int i = 0; i < 4; ++i) { f(0, v[i]); std::vector<int> t; for (int j = 0; j < 4; ++j) if (j != i) t.push_back(v[j]); f(2, find[2].at(t)); for (int j = i + 1; j < 4; ++j) f(1, find[1].at({v[i], v[j]})); } };
        for (int d = 0; d < 4; ++d) { owner[d].assign(ent[d].size(), nr); local[d].assign(ent[d].size(), std::vector<char>(nr, 0)); gid[d].resize(ent[d].size()); }
        for (int c = 0; c < nc; ++c) { each(c, [&](int d, int e) { owner[d][e] = std::min(owner[d][e], rank(c)); }); for (int q = 0; q < nr; ++q) { bool s = rank(c) == q; for (int v : ent[3][c]) s |= near[q].count(v) > 0; if (s) each(c, [&](int d, int e) { local[d][e][q] = 1; }); } }
        for (int d = 0; d < 4; ++d) { int n = 0; for (int q = 0; q < nr; ++q) for (size_t e = 0; e < ent[d].size(); ++e) if (owner[d][e] == q) gid[d][e] = n++; }
        for (int d = 0; d < 4; ++d) g2l[d].resize(nr), l2g[d].resize(nr);
        for (int q = 0; q < nr; ++q) {
            m.emplace_back(new INMOST::Mesh); auto& M = *m.back(); M.rank = q; if (nr > 1) M.comm = comm.get();
            // entities with odd numbers come last on every other rank
            for (int d = 0; d < 4; ++d) for (size_t k = 0, e; k < ent[d].size(); ++k) if (e = q % 2 ? (2 * k < ent[d].size() ? 2 * k : 2 * (k - (ent[d].size() + 1) / 2) + 1) : k, local[d][e][q]) { g2l[d][q][(int)e] = (int)l2g[d][q].size(); l2g[d][q].push_back((int)e); }
            auto H = [&](int d, int e) { return INMOST::ComposeHandle(d, g2l[d][q].at(e)); };
            M.high.resize(l2g[3][q].size()); M.xyz.resize(3 * l2g[0][q].size());
            for (int d = 0; d < 4; ++d) {
                size_t n = l2g[d][q].size(); M.alive[d].assign(n, 1); M.hidden[d].assign(n, 0); M.status[d].assign(n, 0); M.owner[d].assign(n, 0); M.owner_lid[d].assign(n, 0); M.gids[d].assign(n, 0); M.nodes_of[d].resize(n); M.low[d].resize(n);
                for (size_t k = 0; k < n; ++k) {
                    int e = l2g[d][q][k], seen = 0; for (char c : local[d][e]) seen += c; auto& v = ent[d][e];
                    M.owner[d][k] = owner[d][e]; M.gids[d][k] = gid[d][e]; M.status[d][k] = owner[d][e] != q ? INMOST::Element::Ghost : seen > 1 ? INMOST::Element::Shared : INMOST::Element::Owned;
                    for (int i : v) M.nodes_of[d][k].push_back(H(0, i));
                    if (d == 0) for (int j = 0; j < 3; ++j) M.xyz[3 * k + j] = x[e][j];
                    if (d == 1) M.low[1][k] = {H(0, v[0]), H(0, v[1])};
                    if (d == 2) M.low[2][k] = {H(1, find[1].at({v[0], v[1]})), H(1, find[1].at({v[0], v[2]})), H(1, find[1].at({v[1], v[2]}))};
                    if (d == 3) { M.high[k] = M.nodes_of[3][k]; for (int f = 0; f < 4; ++f) { std::vector<int> t; for (int j = 0; j < 4; ++j) if (j != f) t.push_back(v[j]); M.low[3][k].push_back(H(2, find[2].at(t))); } }
                }
            }
            M.finish();
        }
        for (int q = 0; q < nr; ++q) for (int d = 0; d < 4; ++d) for (size_t k = 0; k < l2g[d][q].size(); ++k) { int e = l2g[d][q][k]; m[q]->owner_lid[d][k] = g2l[d][owner[d][e]].at(e); }
    }
    // runs f(rank) on every rank; the ranks take turns between collective operations
    void run(std::function<void(int)> f) {
        std::vector<std::thread> t; std::vector<std::unique_lock<std::mutex>> lk; for (int q = 0; q < nr; ++q) lk.emplace_back(comm->m, std::defer_lock);
        for (int q = 0; q < nr; ++q) t.emplace_back([&, q] { lk[q].lock(); m[q]->lk = &lk[q]; f(q); lk[q].unlock(); });
        for (auto& x : t) x.join();
    }
};
template <class As, class T> Ani::FemExprDescr describe(T map) { Ani::FemExprDescr d; d.PushTrialFunc(map, "u"); d.PushTestFunc(map, "w"); return d; }
