// Shared by the optimizer checks: parameter sets, histories.
#pragma once
#include <deepworks/optimizer.hpp>
#include <deepworks/parameter.hpp>
#include "layerutil.hpp"
struct Par { std::string name; dw::Tensor w, g; bool train; std::vector<double> v, m, vv; std::vector<E> ev, em, evv; };
struct World { dw::ParamMap map; std::vector<Par> ps; };
inline void gen_world(Case& c, World& W, const std::string& tag) {
    int n = int(c.sized(1, pbt::sz(3, 2), pbt::sz(7, 30)));
    bool many = !pbt::big() && c.flag(1); if (many) n = int(c.integer(200, 400));
    int alike = c.flag(15) ? int(c.draw(3)) + 1 : 0; std::string common(alike ? size_t(c.integer(1, 120)) : 0, 'p');      // names that differ late, early, or in one letter's case
    for (int i = 0; i < n; ++i) {
        Par p; p.name = c.pick(std::vector<std::string>{"l.weight", "l.bias", "a.b", "x", ""}) + std::to_string(i) + (c.flag(20) ? tag : "");
        if (alike == 1) p.name = common + p.name; else if (alike == 2) p.name = p.name + "." + common; else if (alike == 3) { p.name = common; for (size_t b = 0; b < p.name.size() && b < 10; ++b) if ((i >> b) & 1) p.name[b] = 'P'; p.name += i >= (1 << std::min<size_t>(10, p.name.size())) ? std::to_string(i) : ""; }
        auto s = many ? std::vector<int>{1 + int(c.draw(3))} : pbt::big() ? large_shape(c, 1, n > 3 ? 20000 : 150000, 1, 4) : any_shape(c, 300, 1, 4);
        p.w = dw::Tensor(s); randomize(c, p.w, gen_style(c, {UNIT, WIDE, INTS, MIXED}));
        p.train = !c.flag(20);
        W.map.emplace(p.name, dw::Parameter(dw::Tensor(p.w), p.train));
        p.g = W.map.at(p.name).grad();
        c.check(p.g.shape() == s, "gradient of a new parameter has shape " + str(p.g.shape()) + " for data " + str(s));
        p.ev.assign(p.w.total(), E(0.0)); p.em = p.evv = p.ev;
        c.desc << p.name << str(s) << (p.train ? "" : "(frozen)") << " ";
        W.ps.push_back(p);
    }
}
inline void new_grads(Case& c, World& W) {
    for (auto& p : W.ps) {
        switch (c.draw(6)) {
        case 0: break;                                        // keep
        case 1: std::fill_n(p.g.data(), p.g.total(), 0.f); break;
        default: randomize(c, p.g, gen_style(c, {UNIT, WIDE, MIXED, LOGU, INTS, SPARSE, TINY})); break;
        }
    }
}
inline void toggle(Case& c, World& W) {
    for (auto& p : W.ps) if (c.flag(10)) { p.train = !p.train; W.map.at(p.name).train(p.train); c.desc << (p.train ? "thaw " : "freeze ") << p.name << "; "; }
}
// run step() and check every parameter against next(par, i): the new weight
template <class Step, class Next> void checked_step(Case& c, World& W, Step step, Next next, std::vector<World*> others) {
    std::vector<std::vector<float>> w0, g0, o0;
    for (auto& p : W.ps) { w0.push_back(flat(p.w)); g0.push_back(flat(p.g)); }
    for (auto* o : others) for (auto& p : o->ps) { o0.push_back(flat(p.w)); o0.push_back(flat(p.g)); }
    step();
    size_t k = 0;
    for (auto* o : others) for (auto& p : o->ps) { c.check(flat(p.w) == o0[k++], "a step changed a parameter of another set"); c.check(flat(p.g) == o0[k++], "a step changed a gradient of another set"); }
    for (size_t j = 0; j < W.ps.size(); ++j) {
        auto& p = W.ps[j];
        dw::Parameter q = W.map.at(p.name);
        c.check(q.data().data() == p.w.data() && q.grad().data() == p.g.data(), "a step replaced the storage of " + p.name);
        c.check(q.is_trainable() == p.train, "a step changed whether " + p.name + " is trainable");
        c.check(!memcmp(p.g.data(), g0[j].data(), 4 * g0[j].size()), "a step modified the gradient of " + p.name);
        if (!p.train) { c.check(!memcmp(p.w.data(), w0[j].data(), 4 * w0[j].size()), "a step changed the frozen parameter " + p.name); continue; }
        for (size_t i = 0; i < w0[j].size(); ++i) {
            E want = next(p, i, w0[j][i]);
            if (!ref::close(p.w.data()[i], want))
                c.fail("element " + std::to_string(i) + " of " + p.name + " is " + fstr(p.w.data()[i]) + " after the step, expected " + fstr(want.v) + " +- " + fstr(want.e) + " (was " + fstr(w0[j][i]) + ", gradient " + fstr(g0[j][i]) + ")");
        }
    }
}
