// C12: global average pooling and Add.
#include "layerutil.hpp"
namespace {
void gap(Case& c) {
    set_threads(c);
    auto gs = [&] { if (pbt::big()) return large_shape(c, 5000, 500000, 4, 4); return std::vector<int>{int(c.sized(1, 4, 12)), int(c.sized(1, 4, 40)), int(c.sized(1, 5, 20)), int(c.sized(1, 5, 20))}; };
    auto s = gs(); Rig r = Rig::make(dw::GlobalAvgPooling("l"), s);
    c.check(r.out_shape == std::vector<int>({s[0], s[1], 1, 1}), "announced shape");
    c.desc << "GlobalAvgPooling"; int calls = int(c.integer(1, 3));
    for (int k = 0; k < calls; ++k) {
        if (k && c.flag(60)) s = gs();
        int st = pbt::big() && c.flag(25) ? SPARSE : gen_style(c, {UNIT, INTS, WIDE, MIXED, NEG, LOGU, SPARSE, TINY});
        auto x = gen_tensor(c, s, st); c.desc << " " << str(s) << style_name(st); c.publish();
        Call f; f.forward(c, r, {x}, {s[0], s[1], 1, 1});
        compare(c, f.y.t, ref::gap(to_ref(x.t)), "global average");
        for (int q = int(c.draw(3)); q-- > 0;) {
            f.backward(c, r, gen_style(c, {UNIT, INTS, WIDE, SPARSE, TINY}));
            compare(c, f.gi[0].t, plus(f.gi0[0], ref::gap_dx(to_ref(f.go.t), s)), "global average gradient"); c.label("backward");
        }
    }
    c.nontrivial(s[2] * s[3] > 1);
}
void add(Case& c) {
    set_threads(c);
    auto s = any_shape(c, 4000); Rig r = Rig::make(dw::Add("l"), s, s);
    c.check(r.out_shape == s, "announced shape");
    c.desc << "Add"; int calls = int(c.integer(1, 3)); bool same_seen = false;
    for (int k = 0; k < calls; ++k) {
        if (k && c.flag(60)) s = any_shape(c, 4000);
        bool same = c.flag(25); same_seen |= same;
        int st = gen_style(c, {UNIT, INTS, WIDE, MIXED, LOGU, EXTREME});
        auto a = gen_tensor(c, s, st), b = same ? a : gen_tensor(c, s, st);
        c.desc << " " << str(s) << style_name(st) << (same ? "(same)" : ""); c.publish();
        Call f; f.forward(c, r, {a, b}, s);
        RT w(s); for (size_t i = 0; i < w.size(); ++i) w[i] = E(a.data()[i]) + E(b.data()[i]);
        compare(c, f.y.t, w, "sum");
        for (int q = int(c.draw(3)); q-- > 0;) {
            f.backward(c, r, gen_style(c, {UNIT, INTS, WIDE, SPARSE, TINY}), same);
            RT g(s); for (size_t i = 0; i < g.size(); ++i) g[i] = same ? E(f.go.data()[i]) + E(f.go.data()[i]) : E(f.go.data()[i]);
            compare(c, f.gi[0].t, plus(f.gi0[0], g), "first Add gradient");
            compare(c, f.gi[1].t, plus(f.gi0[1], g), "second Add gradient"); c.label(same ? "backward-same" : "backward");
        }
    }
    c.nontrivial(ref::total(s) > 1);
}
}
PBT_PROPERTY("C12", "random shapes/values, prior gradients, 1-3 calls with changing sizes, Add also with both inputs the same tensor; non-trivial = more than one pixel / element") {
    pbt::large_facet("gap-large", 100, gap);
    pbt::large_facet("add-large", 100, add);
    pbt::facet("gap", 16000, gap, 15, 100);
    pbt::facet("add", 16000, add, 15, 100);
}
