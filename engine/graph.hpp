// Random networks: an explicit graph, the expression built from it, and the
// evaluation of that graph layer by layer with separate layer objects.
#pragma once
#include <deepworks/model.hpp>
#include "zoo.hpp"

struct Node { Spec sp; std::vector<int> in; int out; std::string name; };
struct Net {
    std::vector<ref::Shape> vs;          // value shapes; the first n_in are the inputs
    int n_in = 0;
    std::vector<int> producer;           // node producing a value, -1 for inputs
    std::vector<Node> nodes;             // in construction order = topological
    std::vector<int> ins, outs;          // values, in the order given to the model

    bool is_in(int v) const { return std::find(ins.begin(), ins.end(), v) != ins.end(); }
    std::vector<char> needed() const {   // nodes that lead to an output
        std::vector<char> n(nodes.size(), 0); std::vector<int> st(outs);
        while (!st.empty()) { int v = st.back(); st.pop_back(); if (is_in(v)) continue; int p = producer[v]; if (p < 0 || n[p]) continue; n[p] = 1; for (int i : nodes[p].in) st.push_back(i); }
        return n;
    }
    std::string str() const {
        std::ostringstream o; auto nd = needed();
        for (int i : ins) o << "v" << i << ::str(vs[i]) << " ";
        for (size_t k = 0; k < nodes.size(); ++k) { o << "v" << nodes[k].out << "=" << nodes[k].sp.str() << "("; for (size_t i = 0; i < nodes[k].in.size(); ++i) o << (i ? "," : "") << "v" << nodes[k].in[i]; o << ")"; if (!nodes[k].name.empty()) o << "'" << nodes[k].name << "'"; if (!nd[k]) o << "(unused)"; o << " "; }
        o << "-> "; for (int v : outs) o << "v" << v << " "; return o.str();
    }
};
struct NetOpt { int max_nodes = 9; bool dropout = true; float drop_p = -1; bool odd_outputs = true; bool names = true; int force_inputs = 0; bool cuts = true; bool deep = false; };
inline void fit(Spec& s, const ref::Shape& x) {
    for (int a = 0; a < 2; ++a) {
        auto &k = s.g.k[a], &p = s.g.p[a];
        if (s.kind == K_POOL) { k = std::min(k, x[2 + a]); p = std::min(p, k - 1); } else k = std::min(k, x[2 + a] + 2 * p);
        s.g.w.k[a] = k; s.g.w.p[a] = p; s.g.w.s[a] = s.g.s[a];
    }
}
inline ref::Shape small_shape(Case& c) {
    int N = int(c.integer(1, 4));
    if (pbt::big()) {
        N = int(c.sized(1, 16, 64, 30));
        switch (c.draw(5)) { case 0: case 1: return {N, int(c.sized(1, 3, 8)), int(c.integer(1, 28)), int(c.integer(1, 28))}; case 2: return {N, int(c.integer(1, 12)), int(c.integer(1, 30))}; default: return {N, int(c.sized(1, 40, 200, 30))}; }
    }
    switch (c.draw(5)) { case 0: case 1: return {N, int(c.integer(1, 4)), int(c.integer(1, 7)), int(c.integer(1, 7))}; case 2: return {N, int(c.integer(1, 4)), int(c.integer(1, 6))}; default: return {N, int(c.integer(1, 10))}; }
}
inline int add_node(Case& c, Net& n, Spec sp, std::vector<int> in) {
    Node k; k.sp = sp; k.in = in; k.out = int(n.vs.size()); n.vs.push_back(sp.out(n.vs[in[0]])); n.producer.push_back(int(n.nodes.size())); n.nodes.push_back(k); return k.out;
}
inline Net gen_net(Case& c, const NetOpt& o = {}) {
    Net n; n.n_in = o.force_inputs ? o.force_inputs : int(c.sized(1, 1, 3, 35));
    bool deep = pbt::big() && o.deep && c.flag(6);         // hundreds of small layers
    for (int i = 0; i < n.n_in; ++i) { n.vs.push_back(i && c.flag(40) ? n.vs[0] : deep ? ref::Shape{int(c.integer(1, 3)), int(c.integer(1, 6))} : small_shape(c)); n.producer.push_back(-1); }
    int cnt = int(deep ? c.integer(250, 600) : pbt::big() ? c.integer(1, 40) : c.sized(1, 4, o.max_nodes, 40));
    for (int k = 0; k < cnt; ++k) {
        // prefer recent values (chains), but re-use older ones too
        auto pickv = [&] { return c.flag(pbt::big() ? 88 : 55) ? int(n.vs.size()) - 1 : int(c.draw(n.vs.size())); };
        int v = pickv(); const auto s = n.vs[v];
        std::vector<int> kinds = {K_RELU, K_LEAKY, K_ELU, K_SIGMOID, K_ADD, K_ADD};
        if (s.size() >= 2) kinds.insert(kinds.end(), {K_LINEAR, K_LINEAR});
        if (s.size() == 2) kinds.insert(kinds.end(), {K_SOFTMAX, K_BN1});
        if (s.size() == 4) kinds.insert(kinds.end(), {K_CONV, K_CONV, K_POOL, K_BN2, K_GAP});
        if (o.dropout) kinds.push_back(K_DROP);
        if (deep) kinds = {K_RELU, K_SIGMOID, K_ELU, K_LEAKY, K_LINEAR, K_ADD};
        int kind = c.pick(kinds);
        Spec sp = gen_spec(c, kind, o.drop_p); if (kind == K_CONV) sp.n = std::min(sp.n, int(pbt::sz(4, 8))); if (kind == K_LINEAR) sp.n = std::min(sp.n, deep ? 6 : int(pbt::sz(8, 60)));
        if (kind == K_CONV || kind == K_POOL) fit(sp, s);
        if (kind == K_ADD) {
            std::vector<int> same; for (size_t i = 0; i < n.vs.size(); ++i) if (n.vs[i] == s) same.push_back(int(i));
            int w = c.pick(same); if (c.flag()) add_node(c, n, sp, {v, w}); else add_node(c, n, sp, {w, v});
        } else add_node(c, n, sp, {v});
    }
    if (o.names) for (size_t k = 0; k < n.nodes.size(); ++k) if (c.flag(40)) n.nodes[k].name = c.pick(std::vector<std::string>{"l", "blk.", "a b/", "Linear", "\xc3\xa9", "x.weight"}) + "#" + std::to_string(k);
    // outputs: the last value, possibly others (intermediates, inputs, repeated), any order
    n.outs.push_back(int(n.vs.size()) - 1);
    int extra = int(c.flag(3) ? c.integer(4, pbt::sz(14, 40)) : c.sized(0, 0, 3, 40));
    for (int i = 0; i < extra; ++i) {
        int v = int(c.draw(n.vs.size()));
        bool odd = v < n.n_in || std::count(n.outs.begin(), n.outs.end(), v);
        if (odd && (!o.odd_outputs || !c.flag(50))) continue;
        n.outs.push_back(v);
    }
    c.shuffle(n.outs.begin(), n.outs.end());
    // inputs: the placeholders, or intermediate values at which the model is cut off
    if (o.cuts && c.flag(20)) {
        int cuts = int(c.integer(1, 2));
        for (int i = 0; i < cuts; ++i) { int v = n.n_in + int(c.draw(n.nodes.size())); if (!n.is_in(v)) n.ins.push_back(v); }
        std::vector<char> seen(n.vs.size(), 0); std::vector<int> st(n.outs);
        while (!st.empty()) { int v = st.back(); st.pop_back(); if (seen[v] || n.is_in(v)) continue; seen[v] = 1; if (n.producer[v] >= 0) for (int i : n.nodes[n.producer[v]].in) st.push_back(i); }
        for (int i = 0; i < n.n_in; ++i) if (seen[i] || c.flag(30)) n.ins.push_back(i);
    } else for (int i = 0; i < n.n_in; ++i) n.ins.push_back(i);
    c.shuffle(n.ins.begin(), n.ins.end());
    return n;
}
struct Built { dw::Placeholders ph; dw::Model model; };
inline dw::Placeholders express(const Net& n, uint64_t how) {
    dw::Placeholders ph; for (int i = 0; i < n.n_in; ++i) ph.emplace_back(n.vs[i]);
    for (size_t k = 0; k < n.nodes.size(); ++k) {
        dw::Placeholders in; for (int v : n.nodes[k].in) in.push_back(ph[v]);
        ph.push_back((how >> (k % 60)) & 1 ? n.nodes[k].sp.made(in, n.nodes[k].name) : n.nodes[k].sp.direct(in, n.nodes[k].name));
    }
    return ph;
}
inline dw::Placeholders select(const dw::Placeholders& ph, const std::vector<int>& ids) { dw::Placeholders r; for (int i : ids) r.push_back(ph[i]); return r; }
inline Built build(Case& c, const Net& n) {
    Built b; b.ph = express(n, c.draw(1024));
    if (n.ins.size() == 1 && n.outs.size() == 1 && c.flag()) b.model = dw::Model(b.ph[n.ins[0]], b.ph[n.outs[0]]);
    else b.model = dw::Model(select(b.ph, n.ins), select(b.ph, n.outs));
    return b;
}
// Layer objects of their own (parameters copied from the model), one per needed node.
struct Twin {
    const Net& n; std::vector<char> need; std::vector<Rig> rigs; std::vector<dw::Tensor> val, grad;
    Twin(const Net& net) : n(net), need(net.needed()) { auto ph = express(net, 0); for (size_t k = 0; k < n.nodes.size(); ++k) rigs.push_back(rig_of(ph[n.nodes[k].out])); val.resize(n.vs.size()); grad.resize(n.vs.size()); }
    void train(bool m) { for (auto& r : rigs) r.train(m); }
    void sync(const Built& b) { for (size_t k = 0; k < rigs.size(); ++k) { Rig m; m.info = info_of(b.ph[n.nodes[k].out]); copy_state(m, rigs[k]); } }
    void forward(const std::vector<dw::Tensor>& inputs) {
        for (size_t i = 0; i < n.ins.size(); ++i) val[n.ins[i]] = inputs[i];
        for (size_t k = 0; k < n.nodes.size(); ++k) if (need[k]) {
            std::vector<dw::Tensor> in, out; for (int v : n.nodes[k].in) in.push_back(val[v]);
            val[n.nodes[k].out] = dw::Tensor(n.vs[n.nodes[k].out]); out.push_back(val[n.nodes[k].out]);
            rigs[k].layer->forward(in, out);
        }
    }
    void backward(const std::vector<dw::Tensor>& gos) {
        for (size_t v = 0; v < n.vs.size(); ++v) grad[v] = dw::Tensor::zeros(n.vs[v]);
        auto add = [&](int v, const dw::Tensor& g) { for (size_t i = 0; i < g.total(); ++i) grad[v].data()[i] += g.data()[i]; };
        for (size_t i = 0; i < n.outs.size(); ++i) add(n.outs[i], gos[i]);
        for (size_t k = n.nodes.size(); k--;) if (need[k]) {
            std::vector<dw::Tensor> in, out{val[n.nodes[k].out]}, go{grad[n.nodes[k].out]}, gi;
            for (int v : n.nodes[k].in) { in.push_back(val[v]); gi.push_back(dw::Tensor::zeros(n.vs[v])); }
            rigs[k].layer->updateGradients(in, go);
            rigs[k].layer->backward(in, out, go, gi);
            for (size_t i = 0; i < gi.size(); ++i) add(n.nodes[k].in[i], gi[i]);
        }
    }
};
inline std::string layer_name(const Built& b, const Node& k) { return info_of(b.ph[k.out]).name(); }
inline void randomize_model(Case& c, const Built& b, const Net& n) { for (auto& k : n.nodes) { Rig r; r.info = info_of(b.ph[k.out]); randomize_params(c, r); } }
inline std::vector<dw::Tensor> gen_inputs(Case& c, const Net& n, std::vector<GT>& keep, bool owned = false) {
    std::vector<dw::Tensor> r; keep.clear();
    for (int v : n.ins) {
        if (owned) { GT g; g.t = dw::Tensor(n.vs[v]); randomize(c, g.t, UNIT); g.take(); keep.push_back(g); } else keep.push_back(gen_tensor(c, n.vs[v], gen_style(c, {UNIT, INTS, MIXED})));
        r.push_back(keep.back().t);
    }
    return r;
}
inline bool has_random_dropout(const Net& n) { for (auto& k : n.nodes) if (k.sp.kind == K_DROP && k.sp.a > 0) return true; return false; }
inline void label_net(Case& c, const Net& n) {
    auto nd = n.needed(); std::vector<int> uses(n.vs.size(), 0); int live = 0;
    for (size_t k = 0; k < n.nodes.size(); ++k) if (nd[k]) { ++live; for (int v : n.nodes[k].in) ++uses[v]; if (n.nodes[k].in.size() == 2 && n.nodes[k].in[0] == n.nodes[k].in[1]) c.label("same-value-twice"); }
    bool fan = false; for (int u : uses) fan |= u > 1;
    if (fan) c.label("fan-out"); if (n.outs.size() > 1) c.label("multi-output"); if (n.ins.size() > 1) c.label("multi-input");
    for (int v : n.ins) if (v >= n.n_in) { c.label("cut-input"); break; }
    for (int v : n.outs) if (uses[v]) { c.label("output-is-intermediate"); break; }
    c.nontrivial(live >= 2 && (fan || n.outs.size() > 1 || n.ins.size() > 1 || live >= 4));
}
