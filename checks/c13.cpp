// C13: batch normalisation forward and running statistics over histories.
#include "bnsetup.hpp"
namespace {
void run(Case& c, bool two) {
    set_threads(c);
    auto s = bn_shape(c, two);
    float eps, alpha; Rig r = bn_make(c, two, s, eps, alpha);
    auto gamma = r.param("gamma").data(), beta = r.param("beta").data();
    auto rm = r.buffer("running_mean"), rv = r.buffer("running_var");
    int C = s[1]; bool train = true; int steps = int(c.integer(1, pbt::sz(7, 3))); int nt = 0, ne = 0, sw = 0, resz = 0;
    c.desc << (two ? "BN2D" : "BN1D") << " eps=" << eps << " alpha=" << alpha;
    for (int k = 0; k < steps; ++k) {
        if (k == 0 || c.flag(30)) { randomize(c, gamma, gen_style(c, {UNIT, INTS, POS})); randomize(c, beta, gen_style(c, {UNIT, INTS})); }
        if (k && c.flag(55)) { auto t = bn_shape(c, two); t[1] = C; bn_cap(t); if (t != s) ++resz; s = t; }
        bool m = c.flag(65); sw += m != train; train = m; r.train(m);
        int st = pbt::big() && c.flag(25) ? SPARSE : gen_style(c, {UNIT, INTS, WIDE, NEG, POS, TIES, CONST, OFFSET, SPARSE, TINY});
        auto x = gen_tensor(c, s, st);
        c.desc << (m ? " train" : " eval") << str(s) << style_name(st); c.publish();
        ref::BNState state{to_ref(rm), to_ref(rv)}; ref::BNCache ca;
        ParamSnap params(r, true, false), bufs(r, false, true);
        RT rx = to_ref(x.t);
        RT want = ref::batchnorm(rx, to_ref(gamma), to_ref(beta), eps, alpha, m, state, ca);
        Call f; f.forward(c, r, {x}, s);
        compare(c, f.y.t, want, "batch norm output");
        params.same(c, r, "forward");
        if (m) { compare(c, rm, state.rmean, "running mean"); compare(c, rv, state.rvar, "running variance"); ++nt; }
        else { bufs.same(c, r, "evaluation"); ++ne; }
        if (m && c.flag(25)) { ParamSnap all(r); f.backward(c, r, UNIT); all.same(c, r, "backward"); }
    }
    c.label("train", nt); c.label("eval", ne); c.label("switches", sw); c.label("resizes", resz);
    c.nontrivial(nt > 0 && steps > 1);
}
}
PBT_PROPERTY("C13", "random histories of 1-7 training/evaluation calls on one layer with changing batch and image sizes and in-place parameter changes, compared after every call; non-trivial = at least two calls, one of them training") {
    pbt::large_facet("BatchNorm1D-large", 90, [](Case& c) { run(c, false); });
    pbt::large_facet("BatchNorm2D-large", 90, [](Case& c) { run(c, true); });
    pbt::facet("BatchNorm1D", 16000, [](Case& c) { run(c, false); }, 12, 80);
    pbt::facet("BatchNorm2D", 12000, [](Case& c) { run(c, true); }, 12, 80);
}
