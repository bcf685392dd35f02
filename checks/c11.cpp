// C11: max pooling.
#include "layerutil.hpp"
namespace {
std::vector<int> gen_in(Case& c, const Geo& g) {
    std::vector<int> s{int(c.sized(1, 3, pbt::sz(6, 200))), int(c.sized(1, 3, pbt::sz(6, 128))), gen_side(c, g, 0, int(pbt::sz(14, 400))), gen_side(c, g, 1, int(pbt::sz(14, 400)))};
    while (ref::total(s) > 300000) { if (s[0] >= s[1]) s[0] = (s[0] + 1) / 2; else s[1] = (s[1] + 1) / 2; }
    return s;
}
void run(Case& c) {
    set_threads(c);
    Geo g = gen_geo(c, true);
    auto s = gen_in(c, g);
    Rig r = Rig::make(dw::MaxPooling(g.k, g.p, g.s, "l"), s);
    c.desc << "MaxPool " << str(g);
    c.check(r.out_shape == ref::conv_shape(s, s[1], g.w), "announced shape");
    int calls = int(c.integer(1, pbt::sz(4, 2))); bool nt = false;
    for (int k = 0; k < calls; ++k) {
        if (k) { if (c.flag(50)) s = gen_in(c, g); else if (c.flag()) s[0] = int(c.sized(1, 3, pbt::sz(6, std::max(6, s[0])))); }
        int st = gen_style(c, {UNIT, NEG, INTS, WIDE, TIES, MIXED, CONST, POS, LOGU, EXTREME, SPARSE, TINY});
        auto x = gen_tensor(c, s, st);
        c.desc << " " << str(s) << style_name(st); c.publish();
        Call f; auto os = ref::conv_shape(s, s[1], g.w);
        f.forward(c, r, {x}, os);
        RT rx = to_ref(x.t);
        compare(c, f.y.t, ref::maxpool(rx, g.w), "max pooling output");
        c.label(std::string(style_name(st)) + (g.p[0] + g.p[1] ? "-padded" : ""));
        int passes = int(c.draw(3));
        for (int q = 0; q < passes; ++q) {
            f.backward(c, r, gen_style(c, {UNIT, INTS, WIDE, SPARSE, TINY}));
            long ties = 0;
            RT dx = ref::maxpool_dx(rx, to_ref(f.go.t), g.w, &ties);
            compare(c, f.gi[0].t, plus(f.gi0[0], dx, double(g.k[0]) * g.k[1]), "max pooling input gradient");
            // nothing gets lost where a maximum is attained twice: per plane, the added gradient sums to the output gradient
            size_t P = size_t(s[2]) * s[3], Q = size_t(os[2]) * os[3];
            for (size_t pl = 0; pl < size_t(s[0]) * s[1]; ++pl) {
                double got = 0, want = 0, mag = 0;
                for (size_t i = 0; i < P; ++i) { double d = double(f.gi[0].data()[pl * P + i]) - f.gi0[0][pl * P + i]; got += d; mag += std::fabs(d) + std::fabs(f.gi0[0][pl * P + i]); }
                for (size_t i = 0; i < Q; ++i) { want += f.go.data()[pl * Q + i]; mag += std::fabs(f.go.data()[pl * Q + i]); }
                c.check(std::fabs(got - want) <= 1e-5 * mag + 1e-30, "plane " + std::to_string(pl) + ": added gradient sums to " + fstr(got) + ", output gradient to " + fstr(want));
            }
            if (ties) c.label("ties"); c.label("backward");
        }
        nt |= g.k[0] * g.k[1] > 1 && s[2] * s[3] > 1;
    }
    c.nontrivial(nt);
}
// One output gradient at a time: it must land, whole, on one cell attaining the maximum.
void single(Case& c) {
    Geo g = gen_geo(c, true);
    auto s = gen_in(c, g); s[0] = int(c.integer(1, 2)); s[1] = int(c.integer(1, 3));
    Rig r = Rig::make(dw::MaxPooling(g.k, g.p, g.s, "l"), s);
    int st = gen_style(c, {TIES, CONST, INTS, NEG, UNIT});
    auto x = gen_tensor(c, s, st); auto os = ref::conv_shape(s, s[1], g.w);
    c.desc << "single gradient " << str(g) << " " << str(s) << style_name(st); c.publish();
    Call f; f.forward(c, r, {x}, os);
    f.go = GT(c, os); std::fill_n(f.go.data(), f.go.size(), 0.f);
    size_t o = c.draw(f.go.size()); f.go.data()[o] = 2.5f;
    f.run_backward(c, r);
    int ow = int(o % os[3]), oh = int(o / os[3] % os[2]), ch = int(o / os[3] / os[2] % os[1]), n = int(o / os[3] / os[2] / os[1]);
    float best = -std::numeric_limits<float>::infinity(); int attain = 0;
    auto cell = [&](int kh, int kw) -> long {
        int ih = oh * g.s[0] - g.p[0] + kh, iw = ow * g.s[1] - g.p[1] + kw;
        return ih < 0 || iw < 0 || ih >= s[2] || iw >= s[3] ? -1 : long(ref::at4(s, n, ch, ih, iw));
    };
    std::set<long> ok;
    for (int a = 0; a < g.k[0]; ++a) for (int b = 0; b < g.k[1]; ++b) { long i = cell(a, b); if (i >= 0) best = std::max(best, x.data()[i]); }
    for (int a = 0; a < g.k[0]; ++a) for (int b = 0; b < g.k[1]; ++b) { long i = cell(a, b); if (i >= 0 && x.data()[i] == best) { ok.insert(i); ++attain; } }
    int hits = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        float d = f.gi[0].data()[i] - f.gi0[0][i];
        if (d == 0) continue;
        c.check(ok.count(long(i)), "cell " + std::to_string(i) + " does not attain the maximum but received " + fstr(d));
        c.check(d == 2.5f, "cell received " + fstr(d) + " instead of 2.5");
        ++hits;
    }
    c.check(hits == 1, std::to_string(hits) + " cells received the gradient of one output");
    if (attain > 1) c.label("tied-window");
    c.nontrivial(g.k[0] * g.k[1] > 1);
}
}
PBT_PROPERTY("C11", "random kernel/stride/padding (padding<kernel), value styles incl. all-negative, constant and tied values, changing sizes over 1-4 calls, prior gradients; non-trivial = window larger than one cell over more than one pixel") {
    pbt::facet("history", 16000, run, 12, 80);
    pbt::large_facet("large", 120, run);
    pbt::facet("single-gradient", 16000, single, 12, 200);
}
