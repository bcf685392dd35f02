// C07: softmax.
#include "layerutil.hpp"
namespace {
RT soft(const RT& x) {
    int N = x.shape[0], C = x.shape[1]; RT y(x.shape);
    for (int n = 0; n < N; ++n) {
        double m = -ref::INF; for (int k = 0; k < C; ++k) m = std::max(m, x[size_t(n) * C + k].v);
        std::vector<E> ex(C); ref::Sum s;
        for (int k = 0; k < C; ++k) {
            double d = x[size_t(n) * C + k].v - m;
            ex[k] = d < -100 ? E(0.0, 1e-37) : ref::eexp(E(d, ref::R * std::fabs(d)));
            s.add(ex[k]);
        }
        for (int k = 0; k < C; ++k) y[size_t(n) * C + k] = ex[k] / s.get();
    }
    return y;
}
void run(Case& c) {
    set_threads(c);
    auto rows = [&] { return int(c.sized(1, pbt::sz(6, 1000), pbt::sz(64, 6000))); };
    auto classes = [&](int N) { return int(pbt::big() ? c.integer(1, std::max(2, 400000 / N)) : c.sized(1, 8, 300)); };
    int N = rows(), C = std::min(classes(N), 20000);
    Rig r = Rig::make(dw::Softmax("l"), std::vector<int>{N, C});
    int calls = int(c.integer(1, pbt::sz(4, 2))); bool nt = false;
    for (int k = 0; k < calls; ++k) {
        if (k && c.flag(60)) { N = rows(); if (pbt::big()) N = std::min(N, std::max(1, 600000 / C)); if (c.flag(40)) C = std::min(classes(N), 20000); }
        std::vector<int> s{N, C};
        int st = gen_style(c, {UNIT, INTS, WIDE, SAT, LOGU, EXTREME, NEG, POS, TIES, CONST, OFFSET, SPARSE, TINY});
        auto x = gen_tensor(c, s, st);
        if (c.flag(15)) for (int n = 0; n < N; ++n) { float sh = float(int(c.draw(9)) - 4) * 250.f; for (int q = 0; q < C; ++q) x.data()[n * C + q] += sh; }
        if (c.flag(8)) { x.data()[c.draw(N * C)] = c.pick({3e38f, -3e38f}); }
        if (c.flag(12)) {                     // whole rows around one offset, far enough for exp() to leave the float range when summed
            float sh = float(c.real(55, 108)) * (c.flag(30) ? -1.f : 1.f); bool each = c.flag(30); pbt::Expand e(c.seed32());
            for (int n = 0; n < N; ++n) { float o = each ? float(55 + e.unit() * 53) * (e.below(2) ? -1.f : 1.f) : sh; for (int q = 0; q < C; ++q) x.data()[size_t(n) * C + q] = o + float(e.unit()); }
            c.label("offset-rows");
        }
        c.desc << str(s) << style_name(st) << " "; c.publish();
        Call f; f.forward(c, r, {x}, s);
        compare(c, f.y.t, soft(to_ref(x.t)), "softmax output");
        for (int n = 0; n < N; ++n) {
            double sum = 0;
            for (int q = 0; q < C; ++q) { float v = f.y.data()[n * C + q]; c.check(v >= 0 && v <= 1.0001f, "output " + fstr(v) + " is not a probability"); sum += v; }
            c.check(std::fabs(sum - 1) < 1e-6 * (C + 10), "row " + std::to_string(n) + " sums to " + fstr(sum));
        }
        nt |= N > 1 && C > 1;
        c.label(style_name(st));
        int passes = int(c.draw(3));
        for (int q = 0; q < passes; ++q) {
            f.backward(c, r, gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY}));
            RT y = to_ref(f.y.t), go = to_ref(f.go.t), g(s);
            for (int n = 0; n < N; ++n) {
                ref::Sum d; for (int i = 0; i < C; ++i) d.add(y[size_t(n) * C + i] * go[size_t(n) * C + i]);
                for (int i = 0; i < C; ++i) {
                    E v = y[size_t(n) * C + i] * (go[size_t(n) * C + i] - d.get());
                    // room for y*g - y*sum instead of y*(g - sum)
                    g[size_t(n) * C + i] = E(v.v, v.e + 8 * ref::R * y[size_t(n) * C + i].v * (std::fabs(go[size_t(n) * C + i].v) + d.a));
                }
            }
            compare(c, f.gi[0].t, plus(f.gi0[0], g), "softmax input gradient");
            c.label("backward");
        }
    }
    c.nontrivial(nt);
}
}
PBT_PROPERTY("C07", "random 2-D inputs (mostly up to 64x300, a few far larger) incl. entries up to 3e38 and large row offsets, 1-4 calls per layer object with 0-2 backward passes each; non-trivial = more than one row and class") {
    pbt::large_facet("large", 120, run);
    pbt::facet("softmax", 40000, run, 15, 100);
}
