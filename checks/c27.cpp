// C27: model structure.
#include <set>
#include <deepworks/layer.hpp>
#include "graph.hpp"
namespace {
using Impl = const dw::Placeholder::Impl*;
Impl id(const dw::Placeholder& p) { return &const_cast<dw::Placeholder&>(p).impl(); }
std::string lower(std::string s) { for (auto& ch : s) ch = char(::tolower(ch)); return s; }

void inspect(Case& c, const Net& n, Built& b, const std::map<int, std::string>& given) {
    auto need = n.needed(); auto& m = b.model;
    std::map<Impl, int> value; for (size_t v = 0; v < b.ph.size(); ++v) value[id(b.ph[v])] = int(v);
    // model inputs / outputs: as given, positionally
    c.check(m.inputs().size() == n.ins.size() && m.outputs().size() == n.outs.size(), "wrong number of model inputs or outputs");
    for (size_t i = 0; i < n.ins.size(); ++i) c.check(id(m.inputs()[i]) == id(b.ph[n.ins[i]]) && m.inputs()[i].shape() == n.vs[n.ins[i]], "model input " + std::to_string(i) + " is another placeholder");
    for (size_t i = 0; i < n.outs.size(); ++i) c.check(id(m.outputs()[i]) == id(b.ph[n.outs[i]]) && m.outputs()[i].shape() == n.vs[n.outs[i]], "model output " + std::to_string(i) + " is another placeholder");
    // layers
    size_t want = size_t(std::count(need.begin(), need.end(), 1));
    c.check(m.layers().size() == want, "the model lists " + std::to_string(m.layers().size()) + " layers, the expression has " + std::to_string(want));
    std::set<int> seen; std::set<std::string> names; std::set<int> ready(n.ins.begin(), n.ins.end());
    std::map<std::string, const float*> params, grads, state;
    for (auto& l : m.layers()) {
        c.check(l.outputs().size() == 1 && value.count(id(l.outputs()[0])), "layer '" + l.name() + "' has no output of the expression");
        int v = value[id(l.outputs()[0])], k = n.producer[v]; std::string w = "layer '" + l.name() + "' (v" + std::to_string(v) + ")";
        c.check(k >= 0 && need[k], w + " does not belong to the model");
        c.check(seen.insert(k).second, w + " is listed twice");
        const Node& nd = n.nodes[k];
        c.check(l.type() == nd.sp.type(), w + " has type " + l.type());
        c.check(names.insert(l.name()).second, w + ": the name is not unique");
        if (given.count(k)) c.check(l.name() == given.at(k), w + " was named '" + given.at(k) + "'");
        else c.check(l.name().substr(0, nd.sp.type().size()) == lower(nd.sp.type()) && l.name().size() > nd.sp.type().size(), w + ": generated name is not the type and a number");
        c.check(l.inputs().size() == nd.in.size(), w + " has " + std::to_string(l.inputs().size()) + " inputs");
        for (size_t i = 0; i < nd.in.size(); ++i) {
            c.check(id(l.inputs()[i]) == id(b.ph[nd.in[i]]), w + ": input " + std::to_string(i) + " is another value");
            c.check(ready.count(nd.in[i]), w + " is listed before the producer of its input v" + std::to_string(nd.in[i]));
        }
        ready.insert(v);
        auto by = m.getLayer(l.name());
        c.check(by.name() == l.name() && id(by.outputs()[0]) == id(l.outputs()[0]), w + ": lookup by name finds another layer");
        auto ps = nd.sp.params(n.vs[nd.in[0]]), bs = nd.sp.buffers(n.vs[nd.in[0]]);
        c.check(l.params().size() == ps.size() && l.buffers().size() == bs.size(), w + " has a wrong number of parameters or buffers");
        for (auto& kv : ps) {
            c.check(l.params().count(kv.first) && by.params().count(kv.first), w + " has no parameter " + kv.first);
            auto& p = l.params().at(kv.first);
            c.check(p.data().shape() == kv.second && p.grad().shape() == kv.second, w + ": wrong shape of " + kv.first);
            c.check(by.params().at(kv.first).data().data() == p.data().data() && by.params().at(kv.first).grad().data() == p.grad().data(), w + ": lookup by name shows other storage");
            params[l.name() + "." + kv.first] = state[l.name() + "." + kv.first] = p.data().data(); grads[l.name() + "." + kv.first] = p.grad().data();
        }
        for (auto& kv : bs) { c.check(l.buffers().count(kv.first) && l.buffers().at(kv.first).shape() == kv.second, w + ": wrong buffer " + kv.first); state[l.name() + "." + kv.first] = l.buffers().at(kv.first).data(); }
    }
    // collections
    c.check(m.params().size() == params.size(), "params() has " + std::to_string(m.params().size()) + " entries, the layers have " + std::to_string(params.size()));
    for (auto& kv : params) { c.check(m.params().count(kv.first), "params() lacks " + kv.first); c.check(m.params().at(kv.first).data().data() == kv.second && m.params().at(kv.first).grad().data() == grads[kv.first], "params() does not share storage with the layer for " + kv.first); }
    c.check(m.state().size() == state.size(), "state() has " + std::to_string(m.state().size()) + " entries, the layers have " + std::to_string(state.size()));
    for (auto& kv : state) { c.check(m.state().count(kv.first), "state() lacks " + kv.first); c.check(m.state().at(kv.first).data() == kv.second, "state() does not share storage with the layer for " + kv.first); }
    // training mode reaches every parameter, through every handle
    for (int r = 0; r < 3; ++r) {
        bool mode = r == 1; m.train(mode);
        for (auto& kv : m.params()) c.check(kv.second.is_trainable() == mode, "train() did not reach " + kv.first);
        for (auto& l : m.layers()) for (auto& kv : l.params()) c.check(kv.second.is_trainable() == mode, "train() did not reach " + kv.first + " of layer '" + l.name() + "'");
        for (size_t k = 0; k < n.nodes.size(); ++k) if (need[k]) for (auto& kv : info_of(b.ph[n.nodes[k].out]).impl().params) c.check(kv.second.is_trainable() == mode, "train() did not reach the expression's parameter " + kv.first);
    }
    // unknown names
    std::set<std::string> tried{"", "relu", "no such layer", "linear", "0"};
    for (auto& s : names) { tried.insert(s + "x"); tried.insert(s.substr(0, s.size() - 1)); tried.insert(s + ".weight"); }
    for (auto& s : tried) if (!names.count(s)) {
        bool threw = false; try { m.getLayer(s); } catch (const std::exception&) { threw = true; }
        c.check(threw, "looking up the unknown layer '" + s + "' did not raise an exception");
    }
    // the captured configuration
    auto& cfg = m.cfg();
    c.check(cfg.sorted_ops.size() == want, "the configuration has a wrong number of operations");
    std::map<int, int> idv; std::map<std::string, int> byname;   // config id -> value
    c.check(cfg.input_ids.size() == n.ins.size() && cfg.output_ids.size() == n.outs.size(), "the configuration has a wrong number of inputs or outputs");
    auto bind = [&](int cid, int v, const std::string& w) {
        c.check(cfg.ph_map.count(cid) && cfg.ph_map.at(cid).shape == n.vs[v] && cfg.ph_map.at(cid).id == cid, w + ": wrong placeholder in the configuration");
        c.check(!idv.count(cid) || idv[cid] == v, w + ": the configuration connects another value"); idv[cid] = v;
    };
    for (size_t i = 0; i < n.ins.size(); ++i) bind(cfg.input_ids[i], n.ins[i], "configured input " + std::to_string(i));
    for (size_t i = 0; i < want; ++i) {
        auto& o = cfg.sorted_ops[i]; auto& l = m.layers()[i]; const Node& nd = n.nodes[n.producer[value[id(l.outputs()[0])]]];
        c.check(o.name == l.name() && o.type == l.type(), "configured operation " + std::to_string(i) + " is another layer");
        c.check(o.in_ids.size() == nd.in.size() && o.out_ids.size() == 1, "configured operation '" + o.name + "' has a wrong number of connections");
        for (size_t j = 0; j < nd.in.size(); ++j) { c.check(idv.count(o.in_ids[j]), "configured operation '" + o.name + "' reads a value nothing has produced yet"); bind(o.in_ids[j], nd.in[j], "configured operation '" + o.name + "'"); }
        bind(o.out_ids[0], nd.out, "configured operation '" + o.name + "'");
        auto an = nd.sp.attr_names(); c.check(o.attrs.size() == an.size(), "configured operation '" + o.name + "' has a wrong number of attributes"); for (auto& a : an) c.check(o.attrs.count(a), "configured operation '" + o.name + "' lacks " + a);
    }
    for (size_t i = 0; i < n.outs.size(); ++i) { c.check(idv.count(cfg.output_ids[i]), "configured output nothing produces"); bind(cfg.output_ids[i], n.outs[i], "configured output " + std::to_string(i)); }
}
std::map<int, std::string> given_names(const Net& n) { std::map<int, std::string> g; for (size_t k = 0; k < n.nodes.size(); ++k) if (!n.nodes[k].name.empty()) g[int(k)] = n.nodes[k].name; return g; }

// names that a careless comparison takes for one
std::string close_name(Case& c) {
    std::string s = c.pick(std::vector<std::string>{"l", "conv", "Conv", "CONV", std::string(c.sized(10, 80, 400), 'n'), "", " ", std::string(1, '\0')});
    s += c.pick(std::vector<std::string>{"", " ", ".", "\n", std::string(1, '\0'), "_", "\t", "\x80", "\xc3\xa9"});
    s += c.pick(std::vector<std::string>{"a", "A", "b", "1", "01", "1 ", "+1", "1.0", ""});
    return s;
}
void structure(Case& c) {
    NetOpt o; o.deep = true; Net n = gen_net(c, o);
    if (c.flag(12)) {                                              // the first few generated names of one type are all taken by other layers
        auto& u = n.nodes[c.draw(n.nodes.size())]; u.name.clear(); std::string base = lower(u.sp.type()); int at = int(c.draw(3)), shift = int(c.draw(2));
        for (auto& k : n.nodes) { if (&k == &u) continue; if (c.flag(80)) k.name = base + std::to_string(at++); at += shift && c.flag(20); }
    } else if (c.flag(20)) for (auto& k : n.nodes) if (c.flag(25)) k.name = lower(c.flag() ? k.sp.type() : std::string("relu")) + std::to_string(c.draw(n.nodes.size()));   // looks generated
    else if (c.flag(20)) { for (auto& k : n.nodes) if (c.flag(70)) k.name = close_name(c); c.label("close-names"); }
    { std::set<std::string> s; for (auto& k : n.nodes) if (!k.name.empty() && !s.insert(k.name).second) k.name.clear(); }
    c.desc << n.str(); c.publish();
    Built b = build(c, n);
    inspect(c, n, b, given_names(n));
    if (c.flag(30)) { b.model.compile(); inspect(c, n, b, given_names(n)); }
    label_net(c, n);
}
// a second model over an overlapping part of the same expression
void overlapping(Case& c) {
    NetOpt no; no.cuts = false; Net n = gen_net(c, no); c.desc << n.str(); c.publish();
    Built a; a.ph = express(n, c.draw(1024));
    Net p = n; p.outs = {int(n.n_in + c.draw(n.nodes.size()))}; c.desc << " after a model -> v" << p.outs[0]; c.publish();
    a.model = dw::Model(select(a.ph, p.ins), select(a.ph, p.outs));
    std::map<int, std::string> names = given_names(n); auto pn = p.needed();
    inspect(c, p, a, names);
    for (size_t k = 0; k < n.nodes.size(); ++k) if (pn[k]) names[int(k)] = layer_name(a, n.nodes[k]);   // its name is fixed now
    Built b; b.ph = a.ph; b.model = dw::Model(select(b.ph, n.ins), select(b.ph, n.outs));
    inspect(c, n, b, names);
    label_net(c, n);
}
void duplicates(Case& c) {
    NetOpt o; o.deep = true; Net n = gen_net(c, o); auto need = n.needed(); std::vector<int> live; for (size_t k = 0; k < n.nodes.size(); ++k) if (need[k]) live.push_back(int(k));
    if (live.size() < 2) return;
    c.shuffle(live.begin(), live.end());
    n.nodes[live[0]].name = n.nodes[live[1]].name = c.flag(30) ? "d" + close_name(c) : c.pick(std::vector<std::string>{"dup", "a.b", "relu0", "x y"});
    c.desc << n.str(); c.publish();
    bool threw = false; try { build(c, n); } catch (const std::exception&) { threw = true; }
    c.check(threw, "two layers named '" + n.nodes[live[0]].name + "' were accepted");
    c.nontrivial();
}
}
PBT_PROPERTY("C27", "random layer graphs, partly named, inspected through every accessor; overlapping models over one expression; duplicated names; non-trivial = at least two layers and a fan-out, several inputs or outputs, or four layers (or: two live layers with one name)") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface and a depth-first topological sort takes its place");
    pbt::Registry::get().assumptions.push_back("calling one operation object twice is excluded");
    pbt::facet("structure", 8000, structure, 12, 40);
    pbt::large_facet("structure-large", 400, structure);
    pbt::large_facet("overlapping-large", 200, overlapping);
    pbt::facet("overlapping", 4000, overlapping, 12, 40);
    pbt::facet("duplicates", 3000, duplicates, 12, 40);
}
