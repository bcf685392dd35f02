// C10: convolution gradients.
#include "convsetup.hpp"
using namespace convsetup;
namespace {
void run(Case& c, bool big) {
    set_threads(c);
    Setup u = gen(c, big);
    Rig r = Rig::make(dw::Convolution(u.oc, u.g.k, u.g.p, u.g.s, "l"), u.s);
    c.desc << "Conv " << str(u.s) << "->" << u.oc << " " << str(u.g);
    auto W = r.param("weight"), b = r.param("bias");
    int calls = int(c.integer(1, big ? 2 : 3)); bool ints = c.flag(25);      // whole numbers throughout: exact in any order of summation
    for (int k = 0; k < calls; ++k) {
        if (k == 0 || c.flag(40)) { randomize(c, W.data(), ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY})); randomize(c, b.data(), ints ? INTS : UNIT); }
        if (k == 0 ? c.flag(15) : c.flag(10)) { W.train(c.flag()); b.train(c.flag()); }      // a frozen parameter takes part all the same; its gradient is not looked at
        if (k) next_size(c, u, big);
        int st = ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY});
        auto x = gen_tensor(c, u.s, st);
        c.desc << " " << str(u.s) << style_name(st); c.publish();
        Call f; f.forward(c, r, {x}, out_shape(u));
        int passes = c.flag(20) ? 2 : 1;
        ParamSnap snap(r);
        for (int q = 0; q < passes; ++q) {
            dirty_grads(c, r);
            f.backward(c, r, ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY}));
            RT dx, dW, db;
            ref::conv_back(to_ref(x.t), to_ref(W.data()), to_ref(f.go.t), u.g.w, dx, dW, db);
            compare(c, f.gi[0].t, plus(f.gi0[0], dx, double(u.g.k[0]) * u.g.k[1] * (f.go.t.shape()[1] + 1)), "convolution input gradient");
            if (W.is_trainable()) compare(c, W.grad(), dW, "convolution weight gradient");
            if (b.is_trainable()) compare(c, b.grad(), db, "convolution bias gradient");
        }
        snap.same(c, r, "backward");
    }
    if (u.g.s[0] > u.g.k[0] || u.g.s[1] > u.g.k[1]) c.label("stride>kernel");
    if ((u.s[2] + 2 * u.g.p[0] - u.g.k[0]) % u.g.s[0]) c.label("ragged");
    if (u.s[0] > 1) c.label("batch>1");
    c.nontrivial((u.g.k[0] * u.g.k[1] > 1 || u.ic > 1) && u.s[2] * u.s[3] > 1);
}
}
PBT_PROPERTY("C10", "random geometry as C09, random output gradients, prior input-gradient content, dirty parameter gradients, 1-3 rounds on one layer object with changing sizes; non-trivial = kernel larger than 1x1 or several channels, and more than one pixel") {
    pbt::facet("small", 9000, [](Case& c) { run(c, false); }, 12, 50);
    pbt::large_facet("realistic", 90, [](Case& c) { run(c, true); });
    pbt::facet("large", 150, [](Case& c) { run(c, true); }, 10, 3);
}
