#pragma once
#include "layerutil.hpp"
inline void bn_cap(std::vector<int>& s) {
    if (!pbt::big()) return;
    for (int i : {0, 2, 3}) while (i < int(s.size()) && ref::total(s) > std::min<int64_t>(300000, 12000000 / s[1]) && s[i] > 1) s[i] = (s[i] + 1) / 2;
}
inline std::vector<int> bn_shape(Case& c, bool two) {
    if (pbt::big()) {
        // the gradient's cost is quadratic (for few rows cubic) in the features: many features or many rows, not both
        auto s = two ? large_shape(c, 3000, 300000, 4, 4) : large_shape(c, 2000, 200000, 2, 2);
        if (s[1] > 300) { if (!two) s[0] *= std::min(20, s[1] / 300); s[1] = 300; }
        bn_cap(s); return s;
    }
    if (!two) return {int(c.sized(1, 8, 60)), int(c.sized(1, 5, 30))};
    return {int(c.sized(1, 4, 10)), int(c.sized(1, 4, 12)), int(c.sized(1, 4, 9)), int(c.sized(1, 4, 9))};
}
inline Rig bn_make(Case& c, bool two, const std::vector<int>& s, float& eps, float& alpha) {
    eps = c.hyper({1e-5f, 1e-3f, 1e-2f, 0.5f}, 1e-8, 10); alpha = c.hyper({0.1f, 0.9f, 0.5f, 0.f, 1.f, 0.3f}, 0, 1);
    if (c.flag(10)) { eps = 1e-5f; alpha = 0.1f; return two ? Rig::make(dw::BatchNorm2D(), s) : Rig::make(dw::BatchNorm1D(), s); }
    return two ? Rig::make(dw::BatchNorm2D(eps, alpha, "l"), s) : Rig::make(dw::BatchNorm1D(eps, alpha, "l"), s);
}
