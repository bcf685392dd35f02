// C20: SGD and SGD with momentum.
#include "opt.hpp"
namespace {
float gen_lr(Case& c) { return c.hyper({0.1f, 1.f, 0.01f, 1e-3f, 0.5f, 2.f, 0.f, 0.037f, -0.1f}, 1e-7, 20); }
template <class Opt> struct Run { World W; std::unique_ptr<Opt> o; float lr, gamma; };
template <bool Mom> void history(Case& c, int max_steps) {
    using Opt = std::conditional_t<Mom, dw::optimizer::SGDMomentum, dw::optimizer::SGD>;
    int n = max_steps > 60 ? 1 : int(c.integer(1, 2)); std::vector<std::unique_ptr<Run<Opt>>> R;
    for (int i = 0; i < n; ++i) {
        auto r = std::make_unique<Run<Opt>>(); gen_world(c, r->W, "t" + std::to_string(i));
        r->lr = gen_lr(c); r->gamma = 0.9f;
        if constexpr (Mom) {
            if (c.flag(30)) r->o = std::make_unique<Opt>(r->W.map, r->lr);
            else { r->gamma = c.hyper({0.9f, 0.5f, 0.f, 0.99f, 1.f, 0.3f}, 0, 1.2); r->o = std::make_unique<Opt>(r->W.map, r->lr, r->gamma); }
        } else r->o = std::make_unique<Opt>(r->W.map, r->lr);
        c.desc << "lr=" << r->lr << " gamma=" << r->gamma << "; ";
        R.push_back(std::move(r));
    }
    int steps = max_steps > 60 ? int(c.integer(60, max_steps)) : int(c.sized(1, pbt::sz(6, 4), pbt::sz(max_steps, 6), 10)), frozen_then_thawed = 0;
    for (int s = 0; s < steps; ++s) {
        auto& r = *R[c.draw(n)];
        if (c.flag(20)) { r.lr = gen_lr(c); r.o->set_lr(r.lr); c.desc << "lr:=" << r.lr << "; "; }
        c.check(r.o->get_lr() == r.lr, "get_lr returns " + fstr(r.o->get_lr()) + ", last set " + fstr(r.lr));
        if (c.flag(6)) {                                              // a new optimizer over the same parameters starts afresh
            r.lr = gen_lr(c); if constexpr (Mom) { r.gamma = c.hyper({0.9f, 0.5f, 0.f, 0.99f}, 0, 1.2); r.o = std::make_unique<Opt>(r.W.map, r.lr, r.gamma); for (auto& p : r.W.ps) p.ev.assign(p.w.total(), E(0.0)); } else r.o = std::make_unique<Opt>(r.W.map, r.lr);
            c.desc << "new optimizer lr=" << r.lr << " gamma=" << r.gamma << "; "; c.label("re-created");
        }
        if (c.flag(30)) toggle(c, r.W);
        new_grads(c, r.W);
        if (c.flag(15)) { auto& p = r.W.ps[c.draw(r.W.ps.size())]; randomize(c, p.w, UNIT); }   // weights changed from outside (e.g. loaded)
        if (steps < 60) c.desc << "step; "; c.publish();
        std::vector<World*> others; for (auto& q : R) if (q.get() != &r) others.push_back(&q->W);
        checked_step(c, r.W, [&] { r.o->step(); }, [&](Par& p, size_t i, float w) {
            E upd = E(r.lr) * E(p.g.data()[i]);
            if (Mom) { p.ev[i] = E(r.gamma) * p.ev[i] + upd; upd = p.ev[i]; }
            return E(w) - upd;
        }, others);
    }
    c.nontrivial(steps > 1);
}
}
PBT_PROPERTY("C20", "training histories over one or two independent parameter sets with changing gradients, learning rates and frozen subsets, every element checked after every step; non-trivial = more than one step") {
    pbt::facet("sgd", 10000, [](Case& c) { history<false>(c, 40); }, 10, 40);
    pbt::large_facet("sgd-large", 60, [](Case& c) { history<false>(c, 40); });
    pbt::large_facet("momentum-large", 60, [](Case& c) { history<true>(c, 40); });
    pbt::facet("momentum", 16000, [](Case& c) { history<true>(c, 40); }, 10, 40);
    pbt::facet("momentum-long", 200, [](Case& c) { history<true>(c, 400); }, 10, 4);
    pbt::facet("sgd-long", 100, [](Case& c) { history<false>(c, 400); }, 10, 4);
}
