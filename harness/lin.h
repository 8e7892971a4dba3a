// Brute-force linearizability check of a small operation history against a sequential model.
// Model: copyable, `bool apply(const Op&)` applies the operation and tells whether its recorded result fits.
#pragma once
#include <string>
#include <vector>
#include <cstdint>

struct LinOp { int kind; int a, b; long res, res2; uint64_t call, ret; int tid; LinOp() : kind(0), a(0), b(0), res(0), res2(0), call(0), ret(0), tid(0) {} };

template <class Model>
bool lin_search(const std::vector<LinOp>& h, std::vector<char>& done, size_t left, const Model& m) {
    if (!left) return true;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!done[i] && h[i].ret < minret) minret = h[i].ret;
    for (size_t i = 0; i < h.size(); i++) if (!done[i] && h[i].call <= minret) {
        Model n = m;
        if (!n.apply(h[i])) continue;
        done[i] = 1;
        if (lin_search(h, done, left - 1, n)) return true;
        done[i] = 0;
    }
    return false;
}
template <class Model>
bool linearizable(const std::vector<LinOp>& h, const Model& m) { std::vector<char> d(h.size(), 0); return lin_search(h, d, h.size(), m); }
