// C14: batch normalisation gradients.
#include "bnsetup.hpp"
namespace {
void run(Case& c, bool two) {
    set_threads(c);
    auto s = bn_shape(c, two);
    float eps, alpha; Rig r = bn_make(c, two, s, eps, alpha);
    auto gamma = r.param("gamma"), beta = r.param("beta");
    int C = s[1], steps = int(c.integer(1, pbt::sz(5, 2))); bool nt = false;
    c.desc << (two ? "BN2D" : "BN1D") << " eps=" << eps << " alpha=" << alpha;
    for (int k = 0; k < steps; ++k) {
        if (k == 0 || c.flag(40)) { randomize(c, gamma.data(), gen_style(c, {UNIT, INTS, POS})); randomize(c, beta.data(), gen_style(c, {UNIT, INTS})); }
        if (k && c.flag(50)) { s = bn_shape(c, two); s[1] = C; bn_cap(s); }
        int st = pbt::big() && c.flag(25) ? SPARSE : gen_style(c, {UNIT, INTS, WIDE, NEG, TIES, POS, SPARSE, TINY});
        auto x = gen_tensor(c, s, st);
        if (c.flag(12)) {                              // an evaluation call in between
            r.train(false); c.desc << " eval" << str(s); c.publish();
            Call e; e.forward(c, r, {x}, s); x = gen_tensor(c, s, st);
        }
        r.train(true);
        c.desc << " train" << str(s) << style_name(st); c.publish();
        ref::BNState state{to_ref(r.buffer("running_mean")), to_ref(r.buffer("running_var"))}; ref::BNCache ca;
        ref::batchnorm(to_ref(x.t), to_ref(gamma.data()), to_ref(beta.data()), eps, alpha, true, state, ca);
        Call f; f.forward(c, r, {x}, s);
        int passes = c.flag(20) ? 2 : 1;
        ParamSnap snap(r);
        for (int q = 0; q < passes; ++q) {
            dirty_grads(c, r);
            f.backward(c, r, gen_style(c, {UNIT, INTS, WIDE, SPARSE, TINY}));
            RT dx, dg, db;
            ref::batchnorm_back(to_ref(f.go.t), to_ref(gamma.data()), ca, dx, dg, db);
            compare(c, f.gi[0].t, plus(f.gi0[0], dx, 4), "batch norm input gradient");
            compare(c, gamma.grad(), dg, "gamma gradient");
            compare(c, beta.grad(), db, "beta gradient");
            bool prior = false; for (float v : f.gi0[0]) prior |= v != 0;
            c.label(prior ? "prior-gradient" : "zero-gradient");
        }
        snap.same(c, r, "backward");
        nt |= ref::total(s) / C > 1;
    }
    c.nontrivial(nt);
}
}
PBT_PROPERTY("C14", "random forward/backward rounds (1-5 per layer object) with changing sizes, prior input gradients, dirty parameter gradients; non-trivial = more than one sample per feature") {
    pbt::large_facet("BatchNorm1D-large", 40, [](Case& c) { run(c, false); });
    pbt::large_facet("BatchNorm2D-large", 90, [](Case& c) { run(c, true); });
    pbt::facet("BatchNorm1D", 16000, [](Case& c) { run(c, false); }, 12, 80);
    pbt::facet("BatchNorm2D", 10000, [](Case& c) { run(c, true); }, 12, 80);
}
