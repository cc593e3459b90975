#ifndef VERIF_SCEN_COMMON_H
#define VERIF_SCEN_COMMON_H
#include "sim.h"
#include <cstring>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>
// harness code runs inside sim::Quiet; code under test inside LOUD
#define LOUD(...) do { sim::Loud l__; __VA_ARGS__; } while (0)
inline uint64_t bits(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }
#endif
