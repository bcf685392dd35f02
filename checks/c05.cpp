// C05: activation outputs, elementwise reference with error bounds, over several
// calls with changing shapes on one layer object.
#include "activations.hpp"
namespace {
E want(const Act& a, E x) {
    switch (a.kind) {
    case 0: return ref::relu(x);
    case 1: return ref::leaky(x, a.alpha);
    case 2: return ref::elu(x, a.alpha);
    default: return ref::sigmoid(x);
    }
}
void run(Case& c, int kind) {
    set_threads(c);
    Act a = gen_act(c, kind);
    auto s = any_shape(c, 6000);
    Rig r = make_act(a, s);
    c.check(r.out_shape == s, "announced output shape differs from the input shape");
    int calls = int(c.integer(1, pbt::sz(4, 2))); bool nt = false;
    c.desc << act_name(kind) << (kind == 1 || kind == 2 ? " alpha=" + fstr(a.alpha) : "");
    for (int k = 0; k < calls; ++k) {
        if (k && c.flag(60)) { if (c.flag()) s[0] = int(c.integer(1, pbt::sz(9, std::max(9, s[0])))); else s = any_shape(c, 6000); }
        int st = gen_style(c, {UNIT, INTS, WIDE, MIXED, EXTREME, SAT, LOGU, NEG, POS, TIES});
        auto x = gen_tensor(c, s, st);
        c.desc << " " << str(s) << style_name(st); c.publish();
        Call f; f.forward(c, r, {x}, s);
        RT w(s); bool neg = false, pos = false;
        for (size_t i = 0; i < w.size(); ++i) { E e(x.data()[i]); w[i] = want(a, e); neg |= e.v < 0; pos |= e.v > 0; }
        compare(c, f.y.t, w, std::string(act_name(kind)) + " output");
        nt |= neg && pos; c.label(style_name(st));
    }
    c.nontrivial(nt);
}
// up to the largest float, where the reference bounds of the other facets end
void extremes(Case& c) {
    int kind = int(c.draw(4)); Act a = gen_act(c, kind); if (kind == 1 || kind == 2) a.alpha = float(c.pick({0.01, 0.1, 0.5, 0.9, 1.0, 0.0}));
    auto s = any_shape(c, 300); Rig r = make_act(a, s); GT x(c, s); pbt::Expand e(c.seed32());
    const float top = std::numeric_limits<float>::max(), low = std::numeric_limits<float>::min();
    for (size_t i = 0; i < x.size(); ++i) { float m = e.below(4) == 0 ? top : e.below(3) ? float(top * std::exp(-e.unit() * 4)) : e.below(2) ? low : float(low * std::exp(e.unit() * 4)); x.data()[i] = e.below(2) ? m : -m; }
    x.take(); c.desc << act_name(kind) << " alpha=" << a.alpha << " " << str(s) << " up to the largest float"; c.publish();
    Call f; f.forward(c, r, {x}, s);
    for (size_t i = 0; i < x.size(); ++i) {
        double v = x.data()[i], w = kind == 0 ? std::max(v, 0.0) : v >= 0 && kind < 3 ? v : kind == 1 ? a.alpha * v : kind == 2 ? a.alpha * std::expm1(v) : 1 / (1 + std::exp(-v));
        double g = f.y.data()[i], tol = 1e-6 * std::fabs(w) + (kind == 2 ? 2e-7 * a.alpha : kind == 3 ? 1.3e-38 : 2e-42);
        c.check(std::fabs(g - w) <= tol, std::string(act_name(kind)) + "(" + fstr(float(v)) + ") is " + fstr(float(g)) + ", expected " + fstr(float(w)));
    }
    c.nontrivial(x.size() > 1);
}
}
PBT_PROPERTY("C05", "random shapes (rank 1-5; a few cases of 10^5 elements and more), value styles incl. saturating, tiny and huge magnitudes, 1-4 calls per layer object; non-trivial = some call has both negative and positive inputs") {
    for (int k = 0; k < 4; ++k) pbt::large_facet(std::string(act_name(k)) + "-large", 60, [k](Case& c) { run(c, k); });
    for (int k = 0; k < 4; ++k) pbt::facet(act_name(k), 12000, [k](Case& c) { run(c, k); }, 15, 100);
    pbt::facet("extremes", 6000, extremes, 10, 100);
}
