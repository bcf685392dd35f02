#pragma once
#include "layerutil.hpp"
namespace convsetup {
struct Setup { Geo g; int ic, oc; std::vector<int> s; };
inline Setup gen(Case& c, bool big) {
    Setup u; u.g = gen_geo(c, false);
    u.ic = int(c.sized(1, 3, big ? 12 : 6)); u.oc = int(c.sized(1, 3, big ? 12 : 6));
    u.s = {int(c.sized(1, 3, big ? 12 : 6)), u.ic, gen_side(c, u.g, 0, big ? 24 : 12), gen_side(c, u.g, 1, big ? 24 : 12)};
    if (pbt::big()) {             // realistic: up to 96 channels, sides up to 100, batches up to 300; bounded work
        u.ic = int(c.sized(1, 16, 96, 40)); u.oc = int(c.sized(1, 16, 96, 40));
        u.s = {int(c.sized(1, 32, 300, 30)), u.ic, gen_side(c, u.g, 0, 100), gen_side(c, u.g, 1, 100)};
        if (c.flag(12)) { u.s[2] = int(c.integer(60, 220)); u.s[3] = int(c.integer(60, 220)); for (int a = 0; a < 2; ++a) u.s[2 + a] = std::max(u.s[2 + a], u.g.k[a] - 2 * u.g.p[a]); }
        auto work = [&] { auto o = ref::conv_shape(u.s, u.oc, u.g.w); return double(ref::total(o)) * u.ic * u.g.k[0] * u.g.k[1]; };
        while (work() > 4e6) { int* p[] = {&u.s[0], &u.ic, &u.oc}; int& v = *p[c.draw(3)]; v = (v + 1) / 2; u.s[1] = u.ic; if (u.s[0] * u.ic * u.oc == 1) break; }
    }
    return u;
}
inline std::vector<int> out_shape(const Setup& u) { return ref::conv_shape(u.s, u.oc, u.g.w); }
inline void next_size(Case& c, Setup& u, bool big) {
    if (c.flag(50)) u.s[0] = int(c.sized(1, 3, big ? 12 : 6));
    if (c.flag(25)) { u.s[2] = gen_side(c, u.g, 0, 12); u.s[3] = gen_side(c, u.g, 1, 12); }
    if (c.flag(10)) {          // same number of elements, other aspect ratio
        std::swap(u.s[2], u.s[3]);
        for (int a = 0; a < 2; ++a) u.s[2 + a] = std::max(u.s[2 + a], std::max(1, u.g.k[a] - 2 * u.g.p[a]));
    }
}
}
