// Finite element functions of the harness: values on global nodes, edges, faces and cells, evaluated in barycentric
// coordinates. Independent of the code under test.
#ifndef VERIF_FEFUN_H
#define VERIF_FEFUN_H
#include "asm_model.h"
namespace {
using namespace sim; using namespace asmm;
// value and gradient
struct D { double v = 0, g[3] = {0, 0, 0}; D() {} D(double x) : v(x) {} };
D operator+(const D& a, const D& b) { D r(a.v + b.v); for (int k = 0; k < 3; ++k) r.g[k] = a.g[k] + b.g[k]; return r; }
D operator*(const D& a, const D& b) { D r(a.v * b.v); for (int k = 0; k < 3; ++k) r.g[k] = a.g[k] * b.v + a.v * b.g[k]; return r; }
D operator-(const D& a, const D& b) { return a + D(-1) * b; }
double num(uint64_t seed, uint64_t a, uint64_t b, uint64_t c) { Rng r(mix(mix(mix(seed, a), b), c)); return (double)r.in(-32, 32) / 8; }
struct Geo { // of a cell, in the order of its global nodes
    std::array<int, 4> n; P3 x[4]; double gl[4][3], vol;
    Geo(const GMesh& g, int c) : n(g.cells[(size_t)c]) {
        for (int k = 0; k < 4; ++k) x[k] = g.x[(size_t)n[(size_t)k]];
        double det = g.det(n); vol = std::fabs(det) / 6;
        for (int k = 0; k < 4; ++k) for (int j = 0; j < 3; ++j) { std::array<int, 4> t; double d = 0; P3 y[4]; for (int i = 0; i < 4; ++i) y[i] = x[i]; P3 z = y[k]; z[(size_t)j] += 1; P3 q = y[k]; y[k] = z; double a = det4(y[0], y[1], y[2], y[3]); y[k] = q; gl[k][j] = (a - det) / det; (void)t; (void)d; }
    }
    void bary(const double* p, double* l) const { for (int k = 0; k < 4; ++k) { l[k] = 0.25; for (int j = 0; j < 3; ++j) { double m = (x[0][(size_t)j] + x[1][(size_t)j] + x[2][(size_t)j] + x[3][(size_t)j]) / 4; l[k] += gl[k][j] * (p[j] - m); } } }
};
struct Kind { const char* name; int deg; bool bubble, cr; };
const Kind KINDS[] = {{"P0", 0, 0, 0}, {"P1", 1, 0, 0}, {"P2", 2, 0, 0}, {"P3", 3, 0, 0}, {"MINI", 1, 1, 0}, {"MINI1", 1, 1, 0}, {"MINI2", 2, 1, 0}, {"MINI3", 3, 1, 0}, {"CR1", 1, 0, 1}, {"MINI_CR", 1, 1, 1}, {"MINI_CR1", 1, 1, 1}};
const int NKIND = 11;
// component c of the function with the given seed
D eval(const GMesh& g, const Kind& k, int cell, const double* p, uint64_t seed, int comp) {
    Geo q(g, cell); double lv[4]; q.bary(p, lv); D l[4]; for (int i = 0; i < 4; ++i) { l[i].v = lv[i]; for (int j = 0; j < 3; ++j) l[i].g[j] = q.gl[i][j]; }
    seed = mix(seed, (uint64_t)comp); D r;
    if (k.deg == 0) return D(num(seed, 3, (uint64_t)cell, 0));
    auto fid = [&](int a, int b, int c) { std::vector<int> t{q.n[(size_t)a], q.n[(size_t)b], q.n[(size_t)c]}; std::sort(t.begin(), t.end()); return (uint64_t)g.find[2].at(t); };
    if (k.cr) { for (int f = 0; f < 4; ++f) { int o[3], m = 0; for (int i = 0; i < 4; ++i) if (i != f) o[m++] = i; r = r + D(num(seed, 2, fid(o[0], o[1], o[2]), 0)) * (D(1) - D(3) * l[f]); } }
    else for (int i = 0; i < 4; ++i) r = r + D(num(seed, 0, (uint64_t)q.n[(size_t)i], 0)) * l[i];
    if (k.deg > 1) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) {
        std::vector<int> t{q.n[(size_t)i], q.n[(size_t)j]}; std::sort(t.begin(), t.end()); uint64_t e = (uint64_t)g.find[1].at(t); r = r + D(num(seed, 1, e, 0)) * l[i] * l[j];
        if (k.deg > 2) { double s = q.n[(size_t)i] < q.n[(size_t)j] ? 1 : -1; r = r + D(s * num(seed, 1, e, 1)) * l[i] * l[j] * (l[i] - l[j]); }
    }
    if (k.deg > 2) for (int f = 0; f < 4; ++f) { int o[3], m = 0; for (int i = 0; i < 4; ++i) if (i != f) o[m++] = i; r = r + D(8 * num(seed, 2, fid(o[0], o[1], o[2]), 1)) * l[o[0]] * l[o[1]] * l[o[2]]; }
    if (k.bubble) r = r + D(32 * num(seed, 3, (uint64_t)cell, 1)) * l[0] * l[1] * l[2] * l[3];
    return r;
}
} // namespace
#endif
