// C25: model forward.
#include "refnet.hpp"
namespace {
void run(Case& c) {
    NetOpt o; o.deep = true; Net n = gen_net(c, o); c.desc << n.str(); c.publish();
    Built b = build(c, n); randomize_model(c, b, n);
    Twin t(n); t.sync(b); RefNet R(n);
    b.model.compile(); if (c.flag(10)) b.model.compile();
    bool train = true;
    int rounds = pbt::repeats(c, 2, int(pbt::sz(5, 3)), 40, 200);
    for (int r = 0; r < rounds; ++r) {
        if (r == 0 || c.flag(40)) { train = !has_random_dropout(n) && c.flag(); b.model.train(train); t.train(train); }
        if (c.flag(15)) { randomize_model(c, b, n); t.sync(b); t.train(train); }
        bool single = c.flag(20); std::fill(R.fixed.begin(), R.fixed.end(), 0);
        if (single || r) { b.model.train(train); t.train(train); }
        if (single) for (size_t k = 0; k < n.nodes.size(); ++k) {       // single layers switched to evaluation mode in a training model
            auto kd = n.nodes[k].sp.kind; if (kd != K_BN1 && kd != K_BN2 && kd != K_LINEAR && kd != K_CONV) continue;
            if (!c.flag()) continue;
            R.fixed[k] = 1; t.rigs[k].train(false); for (auto& kv : info_of(b.ph[n.nodes[k].out]).impl().params) kv.second.train(false);
            if (train && R.need[k]) c.label("layer-in-eval-mode");
        }
        std::vector<GT> keep; auto in = gen_inputs(c, n, keep);
        std::vector<GT> og; std::vector<dw::Tensor> out; for (int v : n.outs) { og.emplace_back(c, n.vs[v]); out.push_back(og.back().t); }
        std::vector<std::pair<std::string, std::vector<float>>> before;
        for (auto& kv : b.model.params()) if (kv.first.size() < 5 || kv.first.substr(kv.first.size() - 5) != ".mask") before.emplace_back(kv.first, flat(kv.second.data()));
        R.sync(b); t.forward(in); R.forward(in, train);
        if (in.size() == 1 && out.size() == 1 && c.flag()) b.model.forward(in[0], out[0]); else b.model.forward(in, out);
        for (size_t i = 0; i < out.size(); ++i) {
            c.check(out[i].data() == og[i].data(), "forward replaced an output tensor");
            near(c, out[i], t.val[n.outs[i]], "round " + std::to_string(r) + (train ? " (train)" : " (eval)") + ", output " + std::to_string(i), 1e-3);
            compare(c, out[i], R.val[n.outs[i]], "round " + std::to_string(r) + (train ? " (train)" : " (eval)") + ", output " + std::to_string(i) + " (definition)");
            c.check(og[i].guards_ok(), "forward wrote outside an output");
        }
        for (auto& g : keep) c.check(g.unchanged() && g.guards_ok(), "forward modified an input");
        for (auto& kv : before) c.check(flat(b.model.params().at(kv.first).data()) == kv.second, "forward modified parameter " + kv.first);
        for (size_t k = 0; k < n.nodes.size(); ++k) if (t.need[k]) for (auto& kv : t.rigs[k].info.impl().buffers) {
            compare(c, info_of(b.ph[n.nodes[k].out]).buffers().at(kv.first), R.buf[k].at(kv.first), "running statistic " + kv.first + " (definition)");
            near(c, info_of(b.ph[n.nodes[k].out]).buffers().at(kv.first), kv.second, "running statistic " + kv.first, 1e-3);
        }
    }
    label_net(c, n);
}
}
PBT_PROPERTY("C25", "random layer graphs (branches, re-use, several inputs and outputs, outputs that are intermediates, inputs or repeated) run for several rounds in both modes; non-trivial = at least two layers and a fan-out, several inputs or outputs, or four layers") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface and a depth-first topological sort takes its place");
    pbt::large_facet("large", 250, run);
    pbt::marathon_facet("marathon", 40, run);
    pbt::facet("graphs", 14000, run, 12, 40);
}
