// C26: model backward.
#include "refnet.hpp"
namespace {
bool is_mask(const std::string& s) { return s.size() >= 5 && s.substr(s.size() - 5) == ".mask"; }
void run(Case& c) {
    NetOpt o; o.drop_p = 0; o.deep = true; Net n = gen_net(c, o); c.desc << n.str(); c.publish();
    Built b = build(c, n); randomize_model(c, b, n);
    Twin t(n); t.sync(b); RefNet R(n);
    b.model.compile(); b.model.train(true); t.train(true);
    int rounds = pbt::repeats(c, 2, int(pbt::sz(5, 3)), 40, 200); bool any = false;
    std::vector<GT> keep; std::vector<dw::Tensor> in, out, gos;
    for (int r = 0; r < rounds; ++r) {
        bool fresh = r == 0 || c.flag(75);
        if (c.flag(15)) { randomize_model(c, b, n); t.sync(b); t.train(true); fresh = true; }
        if (fresh) {
            in = gen_inputs(c, n, keep, true);
            out.clear(); for (int v : n.outs) out.emplace_back(n.vs[v]);
            R.sync(b); R.forward(in, true); t.forward(in); b.model.forward(in, out);
        }
        bool same_gos = !fresh && r && c.flag();                     // the very same gradient tensors again
        if (!same_gos) { gos.clear(); for (int v : n.outs) { dw::Tensor g(n.vs[v]); randomize(c, g, gen_style(c, {UNIT, INTS, TIES, SPARSE, TINY})); gos.push_back(g); } }
        std::vector<std::vector<float>> g0; for (auto& g : gos) g0.push_back(flat(g));
        // frozen layers: what is in front of them still gets its gradients; their own are not looked at
        if (fresh) { bool some = c.flag(25), all = c.flag(15); for (auto& kv : b.model.params()) kv.second.train(true);
            for (size_t k = 0; k < n.nodes.size(); ++k) if (n.nodes[k].sp.kind == K_LINEAR || n.nodes[k].sp.kind == K_CONV) { int f = some ? (all ? 3 : int(c.draw(4))) : 0; auto ps = info_of(b.ph[n.nodes[k].out]).params(); ps.at("weight").train(!(f & 1)); ps.at("bias").train(!(f & 2)); if (f && t.need[k]) c.label(f == 3 ? "frozen-layer" : "frozen-parameter"); } }
        if (!same_gos && c.flag(40)) for (auto& kv : b.model.params()) randomize(c, kv.second.grad(), UNIT);
        c.desc << (fresh ? "fwd+bwd; " : same_gos ? "bwd again; " : "bwd; "); c.publish();
        t.backward(gos); R.backward(gos);
        // backward works on the tensors it is given: copies will do, the buffers of the forward pass may hold something else by then
        std::vector<dw::Tensor> bin = in, bout = out; std::vector<std::pair<dw::Tensor, std::vector<float>>> away;
        if (c.flag(20)) {
            c.label("copied-for-backward");
            for (auto* l : {&bin, &bout}) for (auto& x : *l) { dw::Tensor y(x.shape()); x.copyTo(y); away.push_back({x, flat(x)}); x = y; }
            for (auto& a : away) for (int64_t k = 0, e = int64_t(a.second.size()); k < e; ++k) a.first.data()[k] = std::numeric_limits<float>::quiet_NaN();
        }
        if (in.size() == 1 && out.size() == 1 && c.flag()) b.model.backward(bin[0], bout[0], gos[0]); else b.model.backward(bin, bout, gos);
        for (auto a = away.rbegin(); a != away.rend(); ++a) std::copy(a->second.begin(), a->second.end(), a->first.data());
        for (size_t i = 0; i < gos.size(); ++i) c.check(flat(gos[i]) == g0[i], "backward modified the given gradient of output " + std::to_string(i));
        for (auto& g : keep) c.check(g.unchanged(), "backward modified an input");
        for (size_t k = 0; k < n.nodes.size(); ++k) if (t.need[k]) {
            auto info = info_of(b.ph[n.nodes[k].out]);
            for (auto& kv : t.rigs[k].info.impl().params) if (kv.first != "mask" && info.params().at(kv.first).is_trainable()) {
                any = true; std::string w = "round " + std::to_string(r) + ", gradient of " + kv.first + " of v" + std::to_string(n.nodes[k].out);
                compare(c, info.params().at(kv.first).grad(), R.dpar[k].at(kv.first), w + " (definition)");
                near(c, info.params().at(kv.first).grad(), kv.second.grad(), "round " + std::to_string(r) + ", gradient of " + kv.first + " of v" + std::to_string(n.nodes[k].out), 1e-3);
                c.check(b.model.params().count(info.name() + "." + kv.first) && b.model.params().at(info.name() + "." + kv.first).grad().data() == info.params().at(kv.first).grad().data(), "the model does not expose the gradient of " + kv.first);
            }
        }
    }
    label_net(c, n); if (!any) c.nontrivial(false);
}
}
PBT_PROPERTY("C26", "random layer graphs, several forward/backward rounds, repeated backward passes with the same gradients; non-trivial = has parameters, at least two layers and a fan-out, several inputs or outputs, or four layers") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::Registry::get().assumptions.push_back("two oracles: reverse differentiation of the layer definitions in double precision with rounding bounds (loose where a value is within rounding of a kink), and separate layer objects chained by the harness (1e-3); dropout with p > 0 is excluded");
    pbt::large_facet("large", 250, run);
    pbt::marathon_facet("marathon", 40, run);
    pbt::facet("graphs", 14000, run, 12, 40);
}
