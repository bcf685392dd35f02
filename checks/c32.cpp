// C32: misuse of a model is rejected and leaves no trace.
#include <set>
#include "refnet.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
using Bits = std::map<std::string, std::vector<float>>;
Bits snap(dw::Model& m) { Bits b; for (auto& kv : m.state()) b["s:" + kv.first] = flat(kv.second); for (auto& kv : m.params()) { b["p:" + kv.first] = flat(kv.second.data()); b["g:" + kv.first] = flat(kv.second.grad()); } return b; }
void same(Case& c, const Bits& a, const Bits& b, const std::string& w) {
    for (auto& kv : a) { auto& o = b.at(kv.first); c.check(o.size() == kv.second.size() && (o.empty() || !memcmp(o.data(), kv.second.data(), 4 * o.size())), w + " changed " + kv.first); }
}
// a shape that is not s
dw::Shape other_shape(Case& c, const dw::Shape& s, std::string& how) {
    dw::Shape r = s;
    switch (c.draw(7)) {
    case 0: r[0] += int(c.integer(1, 3)); how = "larger batch"; break;
    case 1: r[0] -= 1; if (r[0] == 0) { r = s; r.back() += 1; } how = "smaller"; break;
    case 2: r.back() += 1; how = "wider"; break;
    case 3: { int t = 1; for (int d : s) t *= d; r = {t}; if (r == s) r = {t, 1}; how = "flattened"; break; }
    case 4: r.push_back(1); how = "extra axis"; break;
    case 5: std::reverse(r.begin(), r.end()); if (r == s) r.insert(r.begin(), 1); how = "reversed"; break;
    default: if (r.back() > 1) r.back() -= 1; else r[0] += 1; how = "narrower"; break;
    }
    return r;
}
std::string spoil(Case& c, std::vector<dw::Tensor>& v) {
    switch (c.draw(5)) {
    case 0: if (!v.empty()) { v.pop_back(); return "one tensor missing"; } [[fallthrough]];
    case 1: v.push_back(v.empty() ? dw::Tensor::zeros({1, 1}) : dw::Tensor::zeros(v.back().shape())); return "one tensor too many";
    case 2: { size_t i = c.draw(v.size()); v[i] = dw::Tensor(); return "tensor " + std::to_string(i) + " unallocated"; }
    default: { size_t i = c.draw(v.size()); std::string how; auto s = other_shape(c, v[i].shape(), how); v[i] = dw::Tensor::constant(s, 0.5f); return "tensor " + std::to_string(i) + " " + how + " " + str(s); }
    }
}
void run(Case& c) {
    NetOpt o; o.max_nodes = 6; o.drop_p = 0; Net n = gen_net(c, o); c.desc << n.str(); c.publish();
    Built b = build(c, n); randomize_model(c, b, n);
    bool train = c.flag(); b.model.train(train);
    bool compiled = false; int rounds = int(c.integer(1, 5)), rejected = 0;
    for (int r = 0; r <= rounds; ++r) {
        std::vector<GT> ki, ko, kg; auto in = gen_inputs(c, n, ki, true); std::vector<dw::Tensor> out, go;
        for (int v : n.outs) { GT y; y.t = dw::Tensor::constant(n.vs[v], 3.25f); y.take(); ko.push_back(y); out.push_back(y.t); GT g; g.t = dw::Tensor(n.vs[v]); randomize(c, g.t, INTS); g.take(); kg.push_back(g); go.push_back(g.t); }
        bool last = r == rounds;
        if (!compiled && (last || c.flag(50))) { b.model.compile(); compiled = true; }
        auto before = snap(b.model); std::string what;
        if (!last && (!compiled || c.flag(65))) {
            bool back = c.flag(50); std::vector<dw::Tensor> i2 = in, o2 = out, g2 = go; std::string why = "not compiled";
            if (compiled) switch (c.draw(back ? 3 : 2)) { case 0: why = "inputs: " + spoil(c, i2); break; case 1: why = "outputs: " + spoil(c, o2); break; default: why = "output gradients: " + spoil(c, g2); }
            what = std::string(back ? "backward" : "forward") + " (" + why + ")"; c.desc << what << "; "; c.publish();
            bool one = i2.size() == 1 && o2.size() == 1 && g2.size() == 1 && c.flag();
            c.check(throws([&] { if (one) { if (back) b.model.backward(i2[0], o2[0], g2[0]); else b.model.forward(i2[0], o2[0]); } else if (back) b.model.backward(i2, o2, g2); else b.model.forward(i2, o2); }), what + " did not raise an exception");
            ++rejected;
            same(c, before, snap(b.model), "the rejected " + what);
            for (auto& k : ki) c.check(k.unchanged(), "the rejected " + what + " modified an input");
            for (auto& k : ko) c.check(k.unchanged(), "the rejected " + what + " wrote an output");
            for (auto& k : kg) c.check(k.unchanged(), "the rejected " + what + " modified an output gradient");
            continue;
        }
        c.desc << "run; "; c.publish();
        Twin t(n); t.sync(b); t.train(train); RefNet R(n); R.sync(b);
        b.model.forward(in, out); t.forward(in); R.forward(in, train);
        for (size_t i = 0; i < out.size(); ++i) compare(c, out[i], R.val[n.outs[i]], "output " + std::to_string(i) + " of a correct call after " + std::to_string(rejected) + " rejected ones");
        if (train) {
            b.model.backward(in, out, go); R.backward(go);
            for (size_t k = 0; k < n.nodes.size(); ++k) if (R.need[k]) for (auto& kv : R.dpar[k]) compare(c, info_of(b.ph[n.nodes[k].out]).params().at(kv.first).grad(), kv.second, "gradient of " + kv.first + " after " + std::to_string(rejected) + " rejected calls");
        }
    }
    if (rejected) c.nontrivial(); if (train) c.label("train");
}
// outputs that depend on a placeholder the model does not list
void unlisted(Case& c) {
    NetOpt o; o.cuts = false; o.force_inputs = int(c.integer(1, 3)); Net n = gen_net(c, o); auto need = n.needed(); std::set<int> used;
    for (int v : n.outs) if (v < n.n_in) used.insert(v);
    for (size_t k = 0; k < n.nodes.size(); ++k) if (need[k]) for (int v : n.nodes[k].in) if (v < n.n_in) used.insert(v);
    std::vector<int> u(used.begin(), used.end()); int gone = c.pick(u);
    Net m = n; m.ins.erase(std::find(m.ins.begin(), m.ins.end(), gone)); c.desc << m.str() << "without v" << gone; c.publish();
    c.check(throws([&] { build(c, m); }), "a model whose output depends on a placeholder that is not its input was accepted");
    if (c.flag(30)) { Built b = build(c, n); c.check(b.model.inputs().size() == n.ins.size(), "the complete model is wrong"); }
    c.nontrivial();
}
}
PBT_PROPERTY("C32", "random layer graphs called before compile, with missing, surplus, unallocated or wrongly shaped tensors, mixed with correct calls compared with the layer definitions; models over placeholders they do not list; non-trivial = at least one rejected call or model") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::facet("calls", 8000, run, 12, 40);
    pbt::large_facet("calls-large", 150, run);
    pbt::facet("unlisted", 3000, unlisted, 12, 40);
}
