// Evaluation and differentiation of a Net from the layer definitions in double
// precision with rounding bounds (ref.hpp): nothing of the code under test.
#pragma once
#include "graph.hpp"

struct RefNet {
    const Net& n; std::vector<char> need; std::vector<RT> val, grad;
    std::vector<std::map<std::string, RT>> par, buf, dpar; std::vector<ref::BNCache> bn; bool training = true; std::vector<char> fixed;   // layers kept in evaluation mode while the model trains
    RefNet(const Net& net) : n(net), need(net.needed()), val(net.vs.size()), grad(net.vs.size()), par(net.nodes.size()), buf(par), dpar(par), bn(net.nodes.size()), fixed(net.nodes.size(), 0) {}
    void sync(const Built& b) {
        for (size_t k = 0; k < n.nodes.size(); ++k) {
            auto info = info_of(b.ph[n.nodes[k].out]);
            for (auto& kv : info.params()) par[k][kv.first] = to_ref(kv.second.data());
            for (auto& kv : info.buffers()) buf[k][kv.first] = to_ref(kv.second);
        }
    }
    template <class F> static RT map(const RT& x, F f) { RT y(x.shape); for (size_t i = 0; i < x.size(); ++i) y[i] = f(x[i]); return y; }
    void forward(const std::vector<dw::Tensor>& in, bool train) {
        training = train;
        for (size_t i = 0; i < n.ins.size(); ++i) val[n.ins[i]] = to_ref(in[i]);
        for (size_t k = 0; k < n.nodes.size(); ++k) if (need[k]) {
            const Node& nd = n.nodes[k]; const RT& x = val[nd.in[0]]; RT& y = val[nd.out]; double a = nd.sp.a;
            switch (nd.sp.kind) {
            case K_LINEAR: y = ref::linear(x, par[k].at("weight"), par[k].at("bias")); break;
            case K_RELU: y = map(x, [](E e) { return ref::relu(e); }); break;
            case K_LEAKY: y = map(x, [a](E e) { return ref::leaky(e, a); }); break;
            case K_ELU: y = map(x, [a](E e) { return ref::elu(e, a); }); break;
            case K_SIGMOID: y = map(x, [](E e) { return ref::sigmoid(e); }); break;
            case K_SOFTMAX: y = ref::softmax(x); break;
            case K_BN1: case K_BN2: { ref::BNState st{buf[k].at("running_mean"), buf[k].at("running_var")}; y = ref::batchnorm(x, par[k].at("gamma"), par[k].at("beta"), nd.sp.a, nd.sp.b, train && !fixed[k], st, bn[k]); buf[k]["running_mean"] = st.rmean; buf[k]["running_var"] = st.rvar; break; }
            case K_CONV: y = ref::conv(x, par[k].at("weight"), par[k].at("bias"), nd.sp.g.w); break;
            case K_POOL: y = ref::maxpool(x, nd.sp.g.w); break;
            case K_GAP: y = ref::gap(x); break;
            case K_DROP: y = x; break;                              // p = 0, or evaluation
            default: { const RT& z = val[nd.in[1]]; y = RT(x.shape); for (size_t i = 0; i < y.size(); ++i) y[i] = x[i] + z[i]; }
            }
        }
    }
    void backward(const std::vector<dw::Tensor>& gos) {
        std::vector<std::vector<ref::Sum>> acc(n.vs.size()); for (size_t v = 0; v < n.vs.size(); ++v) acc[v].resize(size_t(ref::total(n.vs[v])));
        auto add = [&](int v, const RT& g) { for (size_t i = 0; i < g.size(); ++i) acc[v][i].add(g[i]); };
        auto take = [&](int v) { RT g(n.vs[v]); for (size_t i = 0; i < g.size(); ++i) g[i] = acc[v][i].get(); return g; };
        auto times = [](const RT& g, const RT& x, auto f) { RT r(g.shape); for (size_t i = 0; i < g.size(); ++i) r[i] = g[i] * f(x[i]); return r; };
        for (size_t i = 0; i < n.outs.size(); ++i) add(n.outs[i], to_ref(gos[i]));
        for (size_t k = n.nodes.size(); k--;) if (need[k]) {
            const Node& nd = n.nodes[k]; const RT& x = val[nd.in[0]]; const RT& y = val[nd.out]; RT g = take(nd.out), dx; double a = nd.sp.a; dpar[k].clear();
            switch (nd.sp.kind) {
            case K_LINEAR: dx = ref::linear_dx(g, par[k].at("weight"), x.shape); dpar[k]["weight"] = ref::linear_dW(g, x, par[k].at("weight").shape); dpar[k]["bias"] = ref::linear_db(g); break;
            case K_RELU: dx = times(g, x, [](E e) { return ref::drelu(e); }); break;
            case K_LEAKY: dx = times(g, x, [a](E e) { return ref::dleaky(e, a); }); break;
            case K_ELU: dx = times(g, x, [a](E e) { return ref::delu(e, a); }); break;
            case K_SIGMOID: dx = times(g, y, [](E s) { return s * (E(1.0) - s); }); break;
            case K_SOFTMAX: dx = ref::softmax_dx(y, g); break;
            case K_BN1: case K_BN2: { RT dg, db; ref::batchnorm_back(g, par[k].at("gamma"), bn[k], dx, dg, db); dpar[k]["gamma"] = dg; dpar[k]["beta"] = db; break; }
            case K_CONV: { RT dW, db; ref::conv_back(x, par[k].at("weight"), g, nd.sp.g.w, dx, dW, db); dpar[k]["weight"] = dW; dpar[k]["bias"] = db; break; }
            case K_POOL: dx = ref::maxpool_dx(x, g, nd.sp.g.w); break;
            case K_GAP: dx = ref::gap_dx(g, x.shape); break;
            default: dx = g;                                        // Dropout (p = 0), Add
            }
            if (nd.sp.kind != K_LINEAR) dx.shape = x.shape;
            add(nd.in[0], dx); if (nd.sp.kind == K_ADD) add(nd.in[1], g);
        }
    }
};
