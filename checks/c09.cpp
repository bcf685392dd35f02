// C09: convolution forward.
#include "convsetup.hpp"
using namespace convsetup;
namespace {
void run(Case& c, bool big) {
    set_threads(c);
    Setup u = gen(c, big);
    Rig r = Rig::make(dw::Convolution(u.oc, u.g.k, u.g.p, u.g.s, "l"), u.s);
    c.desc << "Conv " << str(u.s) << "->" << u.oc << " " << str(u.g);
    c.check(r.out_shape == out_shape(u), "announced shape " + str(r.out_shape) + " expected " + str(out_shape(u)));
    auto W = r.param("weight"), b = r.param("bias");
    int calls = int(c.integer(1, big ? 2 : 4)); bool ints = c.flag(25);      // whole numbers throughout: exact in any order of summation
    for (int k = 0; k < calls; ++k) {
        if (k == 0 || c.flag(40)) { randomize(c, W.data(), ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY})); randomize(c, b.data(), ints ? INTS : gen_style(c, {UNIT, INTS, WIDE})); }
        if (k == 0 ? c.flag(15) : c.flag(10)) { W.train(c.flag()); b.train(c.flag()); }      // a frozen parameter takes part all the same; its gradient is not looked at
        if (k) next_size(c, u, big);
        int st = ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, POS, SPARSE, TINY});
        auto x = gen_tensor(c, u.s, st);
        c.desc << " " << str(u.s) << style_name(st); c.publish();
        ParamSnap snap(r);
        Call f; f.forward(c, r, {x}, out_shape(u));
        compare(c, f.y.t, ref::conv(to_ref(x.t), to_ref(W.data()), to_ref(b.data()), u.g.w), "convolution output");
        snap.same(c, r, "forward");
        if (c.flag(20)) f.backward(c, r, UNIT);           // a backward in between must not disturb later calls
    }
    if (u.g.p[0] || u.g.p[1]) c.label("padded");
    if (u.g.k[0] != u.g.k[1] || u.g.s[0] != u.g.s[1] || u.g.p[0] != u.g.p[1]) c.label("asymmetric");
    if (calls > 1) c.label("several-calls");
    c.nontrivial(u.g.k[0] * u.g.k[1] > 1 || u.ic > 1);
}
}
PBT_PROPERTY("C09", "random kernel/padding/stride per axis, channels, batch and image sizes (changing between calls), parameters changed in place between calls; non-trivial = kernel larger than 1x1 or several input channels") {
    pbt::facet("small", 14000, [](Case& c) { run(c, false); }, 12, 50);
    pbt::large_facet("realistic", 90, [](Case& c) { run(c, true); });
    pbt::facet("large", 250, [](Case& c) { run(c, true); }, 10, 4);
}
