// C35: building models from configurations.
#include <set>
#include "files.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
using Cfg = dw::Model::Config;
Cfg::OperationInfo* some_op(Case& c, Cfg& g, bool with_attrs = false) {
    std::vector<size_t> k; for (size_t i = 0; i < g.sorted_ops.size(); ++i) if (!with_attrs || !g.sorted_ops[i].attrs.empty()) k.push_back(i);
    return k.empty() ? nullptr : &g.sorted_ops[c.pick(k)];
}
int fresh_id(Case& c, const Cfg& g) { int id; do id = c.pick({-1, 1000, 7777, -5}) + int(c.draw(50)); while (g.ph_map.count(id)); return id; }
// the same graph described differently: other ids, another order of producers-before-consumers, other iteration order of the maps
Cfg redescribe(Case& c, const Cfg& g) {
    Cfg r; std::map<int, int> to; std::set<int> used;
    int how = int(c.draw(3));
    for (auto& kv : std::map<int, Cfg::PlaceholderInfo>(g.ph_map.begin(), g.ph_map.end())) { int n; do n = how == 0 ? int(c.draw(40 + g.ph_map.size())) : how == 1 ? int(c.draw(100000)) : -int(c.draw(300 + g.ph_map.size())); while (!used.insert(n).second); to[kv.first] = n; }
    auto map = [&](std::vector<int> v) { for (auto& i : v) i = to.at(i); return v; };
    r.input_ids = map(g.input_ids); r.output_ids = map(g.output_ids);
    for (auto& kv : g.ph_map) r.ph_map.emplace(to.at(kv.first), Cfg::PlaceholderInfo{kv.second.shape, to.at(kv.first)});
    std::set<int> ready(g.input_ids.begin(), g.input_ids.end()); std::vector<char> done(g.sorted_ops.size(), 0);
    for (size_t n = 0; n < g.sorted_ops.size(); ++n) {
        std::vector<size_t> can; for (size_t i = 0; i < g.sorted_ops.size(); ++i) if (!done[i]) { bool ok = true; for (int id : g.sorted_ops[i].in_ids) ok &= ready.count(id) > 0; if (ok) can.push_back(i); }
        size_t i = c.pick(can); done[i] = 1; auto o = g.sorted_ops[i]; ready.insert(o.out_ids.begin(), o.out_ids.end()); o.in_ids = map(o.in_ids); o.out_ids = map(o.out_ids); r.sorted_ops.push_back(o);
    }
    return r;
}
void consistent(Case& c) {
    NetOpt o; o.deep = true; Net n = gen_net(c, o); c.desc << n.str(); c.publish(); Built b = build(c, n); randomize_model(c, b, n);
    Cfg g = redescribe(c, b.model.cfg()); std::string where = "Build";
    Rm rm; if (c.flag(30)) { auto p = rm("cfg"); dw::save_cfg(g, p); g = dw::load_cfg(p); where = "Build of the loaded configuration"; }
    dw::Model m = dw::Model::Build(g);
    c.check(m.layers().size() == b.model.layers().size(), where + ": " + std::to_string(m.layers().size()) + " layers, expected " + std::to_string(b.model.layers().size()));
    c.check(m.state().size() == b.model.state().size(), where + ": another number of parameters and buffers");
    for (auto& kv : b.model.state()) { c.check(m.state().count(kv.first) && m.state().at(kv.first).shape() == kv.second.shape(), where + ": state entry " + kv.first + " is missing or has another shape"); kv.second.copyTo(m.state().at(kv.first)); }
    for (auto& l : b.model.layers()) { auto k = m.getLayer(l.name()); c.check(k.type() == l.type() && k.inputs().size() == l.inputs().size(), where + ": layer '" + l.name() + "' differs"); }
    c.check(m.inputs().size() == n.ins.size() && m.outputs().size() == n.outs.size(), where + ": another number of inputs or outputs");
    b.model.compile(); m.compile(); bool train = !has_random_dropout(n) && c.flag(40); b.model.train(train); m.train(train);
    std::vector<GT> keep; auto in = gen_inputs(c, n, keep, true); std::vector<dw::Tensor> x, y; for (int v : n.outs) { x.emplace_back(n.vs[v]); y.emplace_back(n.vs[v]); }
    b.model.forward(in, x); m.forward(in, y);
    for (size_t i = 0; i < x.size(); ++i) near(c, y[i], x[i], where + ": output " + std::to_string(i), 1e-5);
    label_net(c, n);
}
void inconsistent(Case& c) {
    NetOpt o; o.max_nodes = 6; Net n = gen_net(c, o); c.desc << n.str(); c.publish(); Built b = build(c, n); Cfg g = b.model.cfg(); std::string w;
    if (c.flag(30)) g = redescribe(c, g);
    switch (c.draw(12)) {
    case 0: { auto* p = some_op(c, g); if (!p) return; p->type = c.pick(std::vector<std::string>{"", "linear", "Conv2D", p->type + " ", "Unknown"}); w = "unknown type '" + p->type + "'"; break; }
    case 1: { auto* p = some_op(c, g, true); if (!p) return; std::map<std::string, int> s; for (auto& kv : p->attrs) s[kv.first]; std::vector<std::string> k; for (auto& kv : s) k.push_back(kv.first); auto a = c.pick(k); p->attrs.erase(a); w = "'" + p->name + "' lacks attribute " + a; break; }
    case 2: {
        auto* p = some_op(c, g, true); if (!p) return; std::map<std::string, int> s; for (auto& kv : p->attrs) s[kv.first]; std::vector<std::string> k; for (auto& kv : s) k.push_back(kv.first); auto a = c.pick(k); auto& at = p->attrs.at(a);
        bool arr = at.shape() == dw::AttrShape::ARRAY2, isint = at.type() == dw::AttrType::INT; dw::Attribute other;
        switch (c.draw(3)) { case 0: other = arr ? dw::Attribute(1) : dw::Attribute(std::array<int, 2>{1, 1}); break; case 1: other = arr ? dw::Attribute(std::array<float, 2>{1.f, 1.f}) : isint ? dw::Attribute(1.f) : dw::Attribute(1); break; default: other = arr ? dw::Attribute(0.5f) : dw::Attribute(std::array<float, 2>{1.f, 1.f}); }
        p->attrs.erase(a); p->attrs.emplace(a, std::move(other)); w = "'" + p->name + "' has attribute " + a + " of another type"; break;
    }
    case 3: { auto* p = some_op(c, g); if (!p) return; if (c.flag()) p->in_ids.pop_back(); else p->in_ids.push_back(p->in_ids.back()); w = "'" + p->name + "' has " + std::to_string(p->in_ids.size()) + " inputs"; break; }
    case 4: { auto* p = some_op(c, g); if (!p) return; p->out_ids.clear(); w = "'" + p->name + "' has no output"; break; }
    case 5: { auto* p = some_op(c, g); if (!p) return; p->in_ids[c.draw(p->in_ids.size())] = fresh_id(c, g); w = "'" + p->name + "' reads a value that does not exist"; break; }
    case 6: { auto* p = some_op(c, g); if (!p) return; int id = p->out_ids[0]; bool self = c.flag(); p->in_ids[c.draw(p->in_ids.size())] = self ? id : g.sorted_ops.back().out_ids[0]; w = "'" + p->name + "' reads its own or a later result"; break; }
    case 7: { if (g.input_ids.empty()) return; g.ph_map.erase(g.input_ids[c.draw(g.input_ids.size())]); w = "an input is not described"; break; }
    case 8: { g.output_ids[c.draw(g.output_ids.size())] = fresh_id(c, g); w = "an output does not exist"; break; }
    case 9: { if (g.sorted_ops.size() < 2) return; size_t i = c.draw(g.sorted_ops.size()), j = c.draw(g.sorted_ops.size()); if (i == j) return; g.sorted_ops[i].name = g.sorted_ops[j].name; w = "two layers are named '" + g.sorted_ops[j].name + "'"; break; }
    case 10: {                                         // a consumer before its producer
        std::vector<std::pair<size_t, size_t>> dep; for (size_t j = 0; j < g.sorted_ops.size(); ++j) for (size_t i = 0; i < j; ++i) if (std::count(g.sorted_ops[j].in_ids.begin(), g.sorted_ops[j].in_ids.end(), g.sorted_ops[i].out_ids[0])) dep.push_back({i, j});
        if (dep.empty()) return; auto d = c.pick(dep); std::swap(g.sorted_ops[d.first], g.sorted_ops[d.second]); w = "a layer precedes its producer"; break;
    }
    default: {                                         // an input of a rank the layers on it cannot take
        std::set<int> ins(g.input_ids.begin(), g.input_ids.end()); std::vector<std::pair<int, std::string>> can;
        for (auto& op : g.sorted_ops) for (int id : op.in_ids) if (ins.count(id) && (op.type == "Linear" || op.type == "Convolution" || op.type == "MaxPooling" || op.type == "BatchNorm1D" || op.type == "BatchNorm2D" || op.type == "GlobalAvgPooling")) can.push_back({id, op.type});
        if (can.empty()) return; auto d = c.pick(can); dw::Shape s; int rank;
        do rank = int(c.integer(0, 6)); while (d.second == "Linear" ? rank >= 2 : d.second == "BatchNorm1D" ? rank == 2 : rank == 4);
        s.assign(size_t(rank), 2); g.ph_map.at(d.first).shape = s; w = d.second + " on an input of shape " + str(s);
    }
    }
    c.desc << "| " << w; c.publish();
    Rm rm; bool file = c.flag(40);
    if (file) {
        auto p = rm("cfg"), q = rm("model"); dw::save_cfg(g, p); 
        c.check(throws([&] { dw::Model::Build(dw::load_cfg(p)); }), "a loaded configuration in which " + w + " was built");
        dw::save_state(b.model.state(), q); spit(q, slurp(p) + slurp(q));               // a model file is a configuration and a state
        c.check(throws([&] { dw::load(q); }), "a model file in which " + w + " was loaded");
    } else c.check(throws([&] { dw::Model::Build(g); }), "a configuration in which " + w + " was built");
    c.nontrivial();
}
}
PBT_PROPERTY("C35", "configurations of random models described anew (other ids, other valid order), which must build the same model, and with one inconsistency injected, which must be rejected, in memory and through files; non-trivial = at least two layers and a fan-out, several inputs or outputs, or four layers (or: an inconsistency was injected)") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::facet("consistent", 5000, consistent, 12, 40);
    pbt::large_facet("consistent-large", 150, consistent);
    pbt::facet("inconsistent", 9000, inconsistent, 12, 40);
}
