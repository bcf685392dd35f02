// C30: training runs.
#include <deepworks/loss.hpp>
#include <deepworks/optimizer.hpp>
#include "refnet.hpp"
namespace {
bool is_mask(const std::string& s) { return s.size() >= 4 && s.substr(s.size() - 4) == "mask"; }
// A classifier: a random graph, then Linear and Softmax.
Net classifier(Case& c) {
    NetOpt o; o.drop_p = 0; o.odd_outputs = false; o.max_nodes = 6;
    bool large = pbt::big(); if (large && c.flag()) pbt::big() = false;      // deep networks, or a small one with a wide classifier
    Net n = gen_net(c, o); n.outs.clear(); pbt::big() = large;
    int v = int(n.vs.size()) - 1;
    if (n.vs[v].size() < 2) { n.vs.clear(); return n; }
    Spec l; l.kind = K_LINEAR; l.n = int(c.integer(2, pbt::sz(5, 100))); v = add_node(c, n, l, {v});
    Spec s; s.kind = K_SOFTMAX; v = add_node(c, n, s, {v});
    n.outs = {v}; return n;
}
struct Mem { std::vector<E> v, m, q; };
void run(Case& c) {
    Net n = classifier(c); if (n.vs.empty()) return;
    int v = n.outs[0], N = n.vs[v][0], C = n.vs[v][1]; Built b = build(c, n); if (c.flag(70)) randomize_model(c, b, n);
    b.model.compile(); RefNet R(n);
    int kind = int(c.draw(3)); float lr = c.hyper({0.1f, 0.01f, 0.5f, 1e-3f}, 1e-4, 0.5), gamma = c.hyper({0.9f, 0.5f}, 0, 0.99), b1 = c.hyper({0.9f, 0.5f}, 0, 0.99), b2 = c.hyper({0.999f, 0.9f}, 0.3, 0.999), eps = c.hyper({1e-3f, 0.1f}, 1e-3, 1); size_t t = 0;
    c.desc << n.str() << (kind == 0 ? "SGD" : kind == 1 ? "SGDMomentum" : "Adam") << " lr=" << lr << "; "; c.publish();
    dw::optimizer::SGD sgd(b.model.params(), lr); dw::optimizer::SGDMomentum mom(b.model.params(), lr, gamma); dw::optimizer::Adam adam(b.model.params(), lr, {b1, b2}, eps);
    dw::loss::CrossEntropyLoss L; std::map<std::string, Mem> mem;
    for (auto& kv : b.model.params()) { auto& m = mem[kv.first]; m.v.assign(kv.second.data().total(), E(0.0)); m.m = m.q = m.v; }
    auto state = [&] { std::map<std::string, std::vector<float>> s; for (auto& kv : b.model.state()) if (!is_mask(kv.first)) s[kv.first] = flat(kv.second); return s; };
    auto same = [&](const std::map<std::string, std::vector<float>>& s, const std::string& w, bool params, bool buffers) { for (auto& kv : s) { bool p = b.model.params().count(kv.first); if (p ? !params : !buffers) continue; auto now = flat(b.model.state().at(kv.first)); c.check(!memcmp(now.data(), kv.second.data(), 4 * now.size()), w + " changed " + kv.first); } };
    dw::Tensor pred(n.vs[v]), target({N, 1}), go(n.vs[v]); std::vector<GT> keep; std::vector<dw::Tensor> in;
    int steps = pbt::repeats(c, 4, int(pbt::sz(14, 5)), 60, 250), trained = 0;
    for (int s = 0; s < steps; ++s) {
        if (s == 0 || c.flag(60)) in = gen_inputs(c, n, keep, true);
        for (int i = 0; i < N; ++i) target.data()[i] = float(c.draw(C));
        // what this step is: training, evaluation, frozen training, part of the weights frozen
        int mode = int(c.draw(10)); bool train = mode <= 6 || mode == 9;
        b.model.train(train);
        std::set<std::string> frozen;
        if (mode == 9) for (size_t k = 0; k < n.nodes.size(); ++k) if (R.need[k] && (n.nodes[k].sp.kind == K_LINEAR || n.nodes[k].sp.kind == K_CONV) && c.flag(60)) { int f = int(c.draw(3)); for (int q = 0; q < 2; ++q) if (f == 2 || f == q) { auto nm = layer_name(b, n.nodes[k]) + "." + (q ? "weight" : "bias"); b.model.params().at(nm).train(false); frozen.insert(nm); } }
        c.desc << (mode == 7 ? "eval; " : mode == 8 ? "frozen; " : mode == 9 ? "partly frozen; " : "train; "); c.publish();
        auto st0 = state();
        R.sync(b); R.forward(in, train);
        std::vector<dw::Tensor> out{pred}; b.model.forward(in, out);
        compare(c, pred, R.val[v], "step " + std::to_string(s) + ": prediction");
        same(st0, "forward", true, !train);
        if (train) for (size_t k = 0; k < n.nodes.size(); ++k) if (R.need[k]) for (auto& kv : R.buf[k]) compare(c, info_of(b.ph[n.nodes[k].out]).buffers().at(kv.first), kv.second, "step " + std::to_string(s) + ": " + kv.first);
        if (mode == 7) { same(st0, "an evaluation run", true, true); continue; }
        // loss
        float loss = L.forward(pred, target); ref::Sum ls; for (int i = 0; i < N; ++i) ls.add(-ref::elog(E(pred.data()[size_t(i) * C + int(target.data()[i])])));
        E want = ls.get() / E(double(N)); c.check(ref::close(loss, want), "step " + std::to_string(s) + ": loss is " + fstr(loss) + ", expected " + fstr(want.v) + " +- " + fstr(want.e));
        L.backward(pred, target, go);
        RT g({N, C}); bool tiny = false;
        for (int i = 0; i < N; ++i) { size_t k = size_t(i) * C + int(target.data()[i]); tiny |= !(pred.data()[k] > 1e-30f); g[k] = E(-1.0) / (E(pred.data()[k]) * E(double(N))); g[k].e *= 2; }
        if (tiny) { c.label("vanishing-probability"); break; }
        compare(c, go, g, "step " + std::to_string(s) + ": loss gradient");
        auto st1 = state();
        b.model.backward(in, out, {go});
        same(st1, "backward", true, true);
        if (train) {
            R.backward({go});
            for (size_t k = 0; k < n.nodes.size(); ++k) if (R.need[k]) for (auto& kv : R.dpar[k]) { auto nm = layer_name(b, n.nodes[k]) + "." + kv.first; if (frozen.count(nm)) continue; compare(c, b.model.params().at(nm).grad(), kv.second, "step " + std::to_string(s) + ": gradient of " + nm); }
        }
        // optimizer
        if (kind == 0) sgd.step(); else if (kind == 1) mom.step(); else { adam.step(); ++t; }
        same(st1, "an optimizer step", !train, true);
        bool overflow = false;
        for (auto& kv : st1) {
            if (!b.model.params().count(kv.first)) continue;
            auto p = b.model.params().at(kv.first); auto& m = mem[kv.first];
            if (!p.is_trainable()) { c.check(!memcmp(p.data().data(), kv.second.data(), 4 * kv.second.size()), "step " + std::to_string(s) + " changed the frozen " + kv.first); continue; }
            RT w(p.data().shape());
            for (size_t i = 0; i < w.size(); ++i) {
                E gr(p.grad().data()[i]), w0(kv.second[i]); if (!(std::fabs(gr.v) < 1e18)) overflow = true;
                if (kind == 0) w[i] = w0 - E(lr) * gr;
                else if (kind == 1) { m.v[i] = E(gamma) * m.v[i] + E(lr) * gr; w[i] = w0 - m.v[i]; }
                else {
                    m.m[i] = E(b1) * m.m[i] + (E(1.0) - E(b1)) * gr; m.q[i] = E(b2) * m.q[i] + (E(1.0) - E(b2)) * (gr * gr);
                    E k1(1 - std::pow(double(b1), double(t)), 4 * ref::R), k2(1 - std::pow(double(b2), double(t)), 4 * ref::R);
                    w[i] = w0 - E(lr) * (m.m[i] / k1) / (ref::esqrt(m.q[i] / k2) + E(eps));
                }
            }
            if (overflow) break;
            compare(c, p.data(), w, "step " + std::to_string(s) + ": " + kv.first + " after the update");
        }
        if (overflow) { c.label("diverged"); break; }
        if (train) ++trained; c.label(mode == 8 ? "frozen-step" : mode == 9 ? "partly-frozen-step" : "train-step");
    }
    c.nontrivial(trained >= 2);
}
}
PBT_PROPERTY("C30", "random classifiers trained for up to 14 steps with SGD, momentum or Adam, mixed with evaluation, frozen and partly frozen steps; predictions, loss, gradients, updates and running statistics checked at every step; non-trivial = at least two training steps") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::Registry::get().assumptions.push_back("the reference starts every stage from the values the previous stage really produced, so rounding does not accumulate; dropout with p > 0 is excluded; a history ends when a probability vanishes or a gradient overflows");
    pbt::large_facet("large", 200, run);
    pbt::marathon_facet("marathon", 40, run);
    pbt::facet("training", 16000, run, 12, 40);
}
