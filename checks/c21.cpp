// C21: Adam.
#include "opt.hpp"
namespace {
float gen_lr(Case& c) { return c.hyper({0.1f, 1.f, 0.01f, 1e-3f, 0.5f, 0.f, 0.037f, -0.1f}, 1e-6, 10); }
struct Run { World W; std::unique_ptr<dw::optimizer::Adam> o; float lr, b1 = 0.9f, b2 = 0.999f, eps = 0.001f; size_t t = 0; };
void history(Case& c, int max_steps, bool start) {
    int n = max_steps > 60 ? 1 : int(c.integer(1, 2)); std::vector<std::unique_ptr<Run>> R;
    for (int i = 0; i < n; ++i) {
        auto r = std::make_unique<Run>(); gen_world(c, r->W, "t" + std::to_string(i)); r->lr = gen_lr(c);
        int form = start ? 4 : int(c.draw(5));
        if (form >= 1) { r->b1 = c.hyper({0.9f, 0.5f, 0.f, 0.99f, 0.3f}, 0, 0.999); r->b2 = c.hyper({0.999f, 0.9f, 0.5f, 0.f, 0.99f}, 0, 0.9999); }
        if (form >= 2) r->eps = c.hyper({1e-3f, 1e-8f, 0.1f, 1.f}, 1e-9, 2);
        if (form >= 3) r->t = start ? (c.flag(10) ? (size_t(1) << c.pick({15, 16, 24, 31, 32})) + size_t(c.integer(0, 20)) - 3 : size_t(c.sized(1, 20, 100000))) : size_t(c.integer(0, 3));
        auto& m = r->W.map; std::array<float, 2> b{r->b1, r->b2};
        switch (form) {
        case 0: r->o = std::make_unique<dw::optimizer::Adam>(m, r->lr); break;
        case 1: r->o = std::make_unique<dw::optimizer::Adam>(m, r->lr, b); break;
        case 2: r->o = std::make_unique<dw::optimizer::Adam>(m, r->lr, b, r->eps); break;
        default: r->o = std::make_unique<dw::optimizer::Adam>(m, r->lr, b, r->eps, r->t); break;
        }
        c.desc << "lr=" << r->lr << " b=" << r->b1 << "," << r->b2 << " eps=" << r->eps << " t0=" << r->t << "; ";
        R.push_back(std::move(r));
    }
    int steps = max_steps > 60 ? int(c.integer(60, max_steps)) : int(c.sized(1, 6, max_steps, 10));
    for (int s = 0; s < steps; ++s) {
        auto& r = *R[c.draw(n)];
        if (c.flag(10)) { r.lr = gen_lr(c); r.o->set_lr(r.lr); c.desc << "lr:=" << r.lr << "; "; }
        c.check(r.o->get_lr() == r.lr, "get_lr returns " + fstr(r.o->get_lr()) + ", last set " + fstr(r.lr));
        if (c.flag(6)) {                                              // a new optimizer over the same parameters starts afresh
            r.t = size_t(c.integer(0, 3)); r.lr = gen_lr(c); r.o = std::make_unique<dw::optimizer::Adam>(r.W.map, r.lr, std::array<float, 2>{r.b1, r.b2}, r.eps, r.t);
            for (auto& p : r.W.ps) { p.em.assign(p.w.total(), E(0.0)); p.evv = p.em; } c.desc << "new optimizer lr=" << r.lr << " t0=" << r.t << "; "; c.label("re-created");
        }
        if (c.flag(20)) toggle(c, r.W);
        new_grads(c, r.W);
        if (c.flag(10)) { auto& p = r.W.ps[c.draw(r.W.ps.size())]; randomize(c, p.w, UNIT); }
        if (steps < 60) c.desc << "step; "; c.publish();
        std::vector<World*> others; for (auto& q : R) if (q.get() != &r) others.push_back(&q->W);
        r.t += 1;
        double k1 = 1 - std::pow(double(r.b1), double(r.t)), k2 = 1 - std::pow(double(r.b2), double(r.t));
        E K1(k1, 4 * ref::R), K2(k2, 4 * ref::R);
        checked_step(c, r.W, [&] { r.o->step(); }, [&](Par& p, size_t i, float w) {
            E g(p.g.data()[i]);
            p.em[i] = E(r.b1) * p.em[i] + (E(1.0) - E(r.b1)) * g;
            p.evv[i] = E(r.b2) * p.evv[i] + (E(1.0) - E(r.b2)) * (g * g);
            E mh = p.em[i] / K1, vh = p.evv[i] / K2;
            E den = ref::esqrt(vh) + E(r.eps);
            E upd = E(r.lr) * mh / den;
            if (!upd.known()) c.label("oracle-abstains");
            return E(w) - upd;
        }, others);
    }
    c.nontrivial(steps > 1); if (steps > 10) c.label("more-than-10-steps");
}
}
PBT_PROPERTY("C21", "training histories over one or two independent parameter sets with random hyper-parameters, starting iteration, gradients, learning rates and frozen subsets, every element checked after every step; non-trivial = more than one step") {
    pbt::facet("histories", 16000, [](Case& c) { history(c, 30, false); }, 10, 40);
    pbt::facet("started-later", 6000, [](Case& c) { history(c, 12, true); }, 10, 40);
    pbt::large_facet("large", 80, [](Case& c) { history(c, 5, false); });
    pbt::facet("long", 300, [](Case& c) { history(c, 250, false); }, 10, 4);
}
