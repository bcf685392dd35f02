// C06: activation gradients: gi = gi0 + go * f'(x).
#include "activations.hpp"
namespace {
E deriv(const Act& a, E x) {
    switch (a.kind) {
    case 0: return ref::drelu(x);
    case 1: return ref::dleaky(x, a.alpha);
    default: return ref::delu(x, a.alpha);
    }
}
void run(Case& c, int kind) {
    set_threads(c);
    Act a = gen_act(c, kind);
    auto s = any_shape(c, 3000);
    Rig r = make_act(a, s);
    int calls = int(c.integer(1, pbt::sz(4, 2))); bool nt = false;
    c.desc << act_name(kind) << (kind == 1 || kind == 2 ? " alpha=" + fstr(a.alpha) : "");
    for (int k = 0; k < calls; ++k) {
        if (k && c.flag(60)) { if (c.flag()) s[0] = int(c.integer(1, pbt::sz(9, std::max(9, s[0])))); else s = any_shape(c, 3000); }
        int st = gen_style(c, {UNIT, INTS, WIDE, MIXED, EXTREME, SAT, NEG, POS, TIES, SPARSE, TINY});
        auto x = gen_tensor(c, s, st);
        int gs = gen_style(c, {UNIT, INTS, WIDE, MIXED, LOGU, SPARSE, TINY});
        c.desc << " " << str(s) << style_name(st); c.publish();
        Call f; f.forward(c, r, {x}, s);
        int passes = c.flag(15) ? 2 : 1;
        for (int q = 0; q < passes; ++q) {
            f.backward(c, r, gs);
            RT w(s); bool neg = false, pos = false, prior = false;
            for (size_t i = 0; i < w.size(); ++i) {
                E x0(x.data()[i]), d;
                if (kind == 3) { E y = ref::sigmoid(x0); d = y * (E(1.0) - y); }   // documented derivative at x
                else d = deriv(a, x0);
                w[i] = E(f.go.data()[i]) * d;
                neg |= x0.v < 0; pos |= x0.v > 0; prior |= f.gi0[0][i] != 0;
            }
            compare(c, f.gi[0].t, plus(f.gi0[0], w), std::string(act_name(kind)) + " input gradient");
            nt |= (neg && pos); c.label(prior ? "prior-gradient" : "zero-gradient");
        }
    }
    c.nontrivial(nt);
}
}
PBT_PROPERTY("C06", "random shapes/values/output gradients, input gradients with and without prior content, 1-4 forward/backward rounds per layer object; non-trivial = inputs of both signs in one call") {
    for (int k = 0; k < 4; ++k) pbt::large_facet(std::string(act_name(k)) + "-large", 60, [k](Case& c) { run(c, k); });
    for (int k = 0; k < 4; ++k) pbt::facet(act_name(k), 10000, [k](Case& c) { run(c, k); }, 15, 100);
}
