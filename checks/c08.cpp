// C08: Linear.
#include "layerutil.hpp"
namespace {
void run(Case& c, bool big) {
    set_threads(c);
    std::vector<int> s;
    int units;
    if (pbt::big()) {           // batches of hundreds, thousands of features; bounded work
        double work = 3e6; s = any_shape(c, 400, 2, 5); s[0] = int(c.sized(1, 64, 600, 40)); if (c.flag(20)) s = {int(c.integer(1000, 9000)), int(c.integer(1, 40))};
        long F = std::max(1L, ref::total(s) / s[0]); while (double(F) * s[0] > work / 4 && F > 1) { size_t i = 1 + c.draw(s.size() - 1); s[i] = (s[i] + 1) / 2; F = ref::total(s) / s[0]; }
        units = int(c.integer(1, std::max(1L, std::min(1200L, long(work / (double(F) * s[0]))))));
    }
    else if (big) { s = {int(c.integer(1, 70)), int(c.integer(1, 200))}; units = int(c.integer(1, 90)); }
    else { s = any_shape(c, 400, 2, 5); s[0] = int(c.sized(1, 4, 20)); units = int(c.sized(1, 5, 40)); }
    Rig r = Rig::make(dw::Linear(units, "l"), s);
    int F = int(ref::total(s) / s[0]);
    c.check(r.out_shape == std::vector<int>({s[0], units}), "announced shape");
    auto W = r.param("weight"), b = r.param("bias");
    c.check(W.data().shape() == std::vector<int>({units, F}) && b.data().shape() == std::vector<int>({units}), "parameter shapes");
    c.desc << "Linear " << str(s) << "->" << units; 
    int calls = int(c.integer(1, big ? 2 : 4)); bool ints = c.flag(25);      // whole numbers throughout: exact in any order of summation
    for (int k = 0; k < calls; ++k) {
        if (k == 0 || c.flag(50)) { randomize(c, W.data(), ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY})); randomize(c, b.data(), ints ? INTS : gen_style(c, {UNIT, INTS, WIDE})); }
        if (k && c.flag(50)) s[0] = int(c.sized(1, 4, big ? 70 : 20));
        int st = ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, LOGU, SPARSE, TINY});
        auto x = gen_tensor(c, s, st);
        c.desc << " N=" << s[0] << style_name(st); c.publish();
        if (k == 0 ? c.flag(15) : c.flag(10)) { W.train(c.flag()); b.train(c.flag()); }      // a frozen parameter takes part all the same; its gradient is not looked at
        ParamSnap snap(r);
        Call f; f.forward(c, r, {x}, {s[0], units});
        RT rx = to_ref(x.t), rW = to_ref(W.data()), rb = to_ref(b.data());
        compare(c, f.y.t, ref::linear(rx, rW, rb), "linear output");
        snap.same(c, r, "forward");
        int passes = int(c.draw(3)); if (k + 1 == calls && passes == 0) passes = 1;
        for (int q = 0; q < passes; ++q) {
            dirty_grads(c, r);
            f.backward(c, r, ints ? INTS : gen_style(c, {UNIT, INTS, WIDE, MIXED, SPARSE, TINY}));
            RT go = to_ref(f.go.t);
            compare(c, f.gi[0].t, plus(f.gi0[0], ref::linear_dx(go, rW, s), rW.shape[0]), "linear input gradient");
            if (W.is_trainable()) compare(c, W.grad(), ref::linear_dW(go, rx, rW.shape), "linear weight gradient");
            if (b.is_trainable()) compare(c, b.grad(), ref::linear_db(go), "linear bias gradient");
            snap.same(c, r, "backward");
            c.label("backward");
        }
        c.label("rank" + std::to_string(s.size()));
    }
    c.nontrivial(F > 1 && units > 1);
}
}
PBT_PROPERTY("C08", "random input ranks 2-5, feature/unit counts and batch sizes (changing between calls), parameters changed in place between calls, dirty parameter gradients; non-trivial = at least 2 features and 2 units") {
    pbt::facet("small", 24000, [](Case& c) { run(c, false); }, 12, 100);
    pbt::large_facet("realistic", 80, [](Case& c) { run(c, true); });
    pbt::facet("large", 300, [](Case& c) { run(c, true); }, 10, 5);
}
