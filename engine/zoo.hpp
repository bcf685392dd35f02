// Any supported layer: generation, construction (directly and through make_layer),
// expected shapes, and reference evaluation.
#pragma once
#include <functional>
#include "layerutil.hpp"
#include <deepworks/initializers.hpp>
#include "expression/placeholder_impl.hpp"
#include "expression/call_impl.hpp"

enum Kind { K_LINEAR, K_RELU, K_LEAKY, K_ELU, K_SIGMOID, K_SOFTMAX, K_BN1, K_BN2, K_CONV, K_POOL, K_GAP, K_DROP, K_ADD, K_COUNT };
inline const char* kind_name(int k) {
    static const char* n[] = {"Linear", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "Softmax", "BatchNorm1D", "BatchNorm2D", "Convolution", "MaxPooling", "GlobalAvgPooling", "Dropout", "Add"};
    return n[k];
}
struct Spec {
    int kind = K_RELU, n = 1; float a = 0, b = 0; Geo g{};

    std::string type() const { return kind_name(kind); }
    int arity() const { return kind == K_ADD ? 2 : 1; }
    std::string str() const {
        std::ostringstream o; o << type();
        switch (kind) {
        case K_LINEAR: o << "(" << n << ")"; break;
        case K_LEAKY: case K_ELU: case K_DROP: o << "(" << a << ")"; break;
        case K_BN1: case K_BN2: o << "(eps=" << a << ",alpha=" << b << ")"; break;
        case K_CONV: o << "(" << n << " " << ::str(g) << ")"; break;
        case K_POOL: o << "(" << ::str(g) << ")"; break;
        default: break;
        }
        return o.str();
    }
    dw::Attributes attrs() const {
        dw::Attributes m;
        switch (kind) {
        case K_LINEAR: m["units"] = int(n); break;
        case K_LEAKY: case K_ELU: m["alpha"] = float(a); break;
        case K_DROP: m["p"] = float(a); break;
        case K_BN1: case K_BN2: m["eps"] = float(a); m["alpha"] = float(b); break;
        case K_CONV: m["out_channels"] = int(n); /* fallthrough */
        case K_POOL: m["kernel"] = std::array<int, 2>(g.k); m["padding"] = std::array<int, 2>(g.p); m["stride"] = std::array<int, 2>(g.s); break;
        default: break;
        }
        return m;
    }
    std::vector<std::string> attr_names() const { std::vector<std::string> v; for (auto& kv : attrs()) v.push_back(kv.first); std::sort(v.begin(), v.end()); return v; }
    using Then = std::function<void(dw::Placeholders&)>;
    // one operation object, applied to each list of placeholders in turn
    template <class Op> static dw::Placeholders applied(Op op, const std::vector<dw::Placeholders>& ins, const Then& then) {
        dw::Placeholders r;
        for (auto& in : ins) { if constexpr (Op::num_in == 2) r.push_back(op(in[0], in[1])); else r.push_back(op(in[0])); if (then) then(r); }
        return r;
    }
    dw::Placeholders apply(const std::vector<dw::Placeholders>& ins, const std::string& name, const Then& then = {}) const {
        switch (kind) {
        case K_LINEAR: return applied(dw::Linear(n, name), ins, then);
        case K_RELU: return applied(dw::ReLU(name), ins, then);
        case K_LEAKY: return applied(dw::LeakyReLU(a, name), ins, then);
        case K_ELU: return applied(dw::ELU(a, name), ins, then);
        case K_SIGMOID: return applied(dw::Sigmoid(name), ins, then);
        case K_SOFTMAX: return applied(dw::Softmax(name), ins, then);
        case K_BN1: return applied(dw::BatchNorm1D(a, b, name), ins, then);
        case K_BN2: return applied(dw::BatchNorm2D(a, b, name), ins, then);
        case K_CONV: return applied(dw::Convolution(n, g.k, g.p, g.s, name), ins, then);
        case K_POOL: return applied(dw::MaxPooling(g.k, g.p, g.s, name), ins, then);
        case K_GAP: return applied(dw::GlobalAvgPooling(name), ins, then);
        case K_DROP: return applied(dw::Dropout(a, name), ins, then);
        default: return applied(dw::Add(name), ins, then);
        }
    }
    dw::Placeholder direct(const dw::Placeholders& in, const std::string& name) const { return apply({in}, name)[0]; }
    dw::Placeholder made(const dw::Placeholders& in, const std::string& name) const { return dw::make_layer(type(), name, attrs(), in); }
    ref::Shape out(const ref::Shape& s) const {
        switch (kind) {
        case K_LINEAR: return {s[0], n};
        case K_CONV: return ref::conv_shape(s, n, g.w);
        case K_POOL: return ref::conv_shape(s, s[1], g.w);
        case K_GAP: return {s[0], s[1], 1, 1};
        default: return s;
        }
    }
    // expected parameter / buffer shapes
    std::map<std::string, ref::Shape> params(const ref::Shape& s) const {
        switch (kind) {
        case K_LINEAR: return {{"weight", {n, int(ref::total(s) / s[0])}}, {"bias", {n}}};
        case K_CONV: return {{"weight", {n, s[1], g.k[0], g.k[1]}}, {"bias", {n}}};
        case K_BN1: case K_BN2: return {{"gamma", {s[1]}}, {"beta", {s[1]}}};
        case K_DROP: return {{"mask", s}};
        default: return {};
        }
    }
    std::map<std::string, ref::Shape> buffers(const ref::Shape& s) const {
        if (kind == K_BN1 || kind == K_BN2) return {{"running_mean", {s[1]}}, {"running_var", {s[1]}}};
        return {};
    }
};
inline dw::LayerInfo info_of(const dw::Placeholder& p) { return p.impl().call->impl().info; }
inline Rig rig_of(const dw::Placeholder& p) {
    Rig r; r.info = info_of(p); r.out_shape = p.shape(); r.layer = dw::cpu::ICPULayer::create(r.info); return r;
}
inline Spec gen_spec(Case& c, int kind, float drop_p = -1) {
    Spec s; s.kind = kind;
    switch (kind) {
    case K_LINEAR: s.n = int(c.sized(1, 5, pbt::sz(20, 60))); break;
    case K_CONV: s.n = int(c.sized(1, 4, pbt::sz(8, 16))); s.g = gen_geo(c, false); break;
    case K_POOL: s.g = gen_geo(c, true); break;
    case K_LEAKY: s.a = c.hyper({0.01f, 0.25f, 1.f, 0.f, 2.f}, -1, 3); break;
    case K_ELU: s.a = c.hyper({1.f, 0.5f, 0.1f, 2.f}, -1, 3); break;
    case K_BN1: case K_BN2: s.a = c.hyper({1e-3f, 1e-2f, 0.5f}, 1e-3, 2); s.b = c.hyper({0.1f, 0.9f, 0.5f, 0.3f}, 0, 1); break;
    case K_DROP: s.a = drop_p >= 0 ? drop_p : c.hyper({0.5f, 0.25f, 0.f, 0.9f}, 0, 0.95); break;
    default: break;
    }
    return s;
}
inline ref::Shape gen_in_shape(Case& c, const Spec& s) {
    int N = int(c.sized(1, 4, pbt::sz(9, 100)));
    switch (s.kind) {
    case K_LINEAR: { auto v = pbt::big() ? large_shape(c, 300, 20000, 2, 4) : any_shape(c, 300, 2, 4); v[0] = N; return v; }
    case K_SOFTMAX: case K_BN1: return {N, int(c.sized(1, 6, pbt::sz(30, s.kind == K_BN1 ? 200 : 3000)))};
    case K_CONV: case K_POOL: return {int(pbt::big() ? std::min(N, 20) : N), int(c.sized(1, 3, pbt::sz(5, 10))), gen_side(c, s.g, 0, int(pbt::sz(10, 40))), gen_side(c, s.g, 1, int(pbt::sz(10, 40)))};
    case K_BN2: case K_GAP: return {N, int(c.sized(1, 4, pbt::sz(9, 40))), int(c.sized(1, 5, pbt::sz(9, 30))), int(c.sized(1, 5, pbt::sz(9, 30)))};
    default: return pbt::big() ? large_shape(c, 600, 100000) : any_shape(c, 600);
    }
}
// another input the same layer object accepts
inline ref::Shape resize_in(Case& c, const Spec& s, const ref::Shape& cur) {
    auto v = cur;
    switch (s.kind) {
    case K_DROP: return v;                                  // its mask has the size it was built for
    case K_LINEAR: v[0] = int(c.sized(1, 4, pbt::sz(9, 100))); return v;
    case K_BN1: v[0] = int(c.sized(1, 4, pbt::sz(9, 200))); return v;
    case K_CONV: { auto w = gen_in_shape(c, s); w[1] = v[1]; return w; }
    case K_BN2: { auto w = gen_in_shape(c, s); w[1] = v[1]; return w; }
    default: return c.flag() ? gen_in_shape(c, s) : (v[0] = int(c.sized(1, 4, 9)), v);
    }
}
inline void copy_state(Rig& from, Rig& to) {
    for (auto& kv : from.info.impl().params) {
        auto a = kv.second.data(); auto b = to.info.impl().params.at(kv.first).data();
        memcpy(b.data(), a.data(), 4 * a.total());
        to.info.impl().params.at(kv.first).train(kv.second.is_trainable());
    }
    for (auto& kv : from.info.impl().buffers) { auto b = to.info.impl().buffers.at(kv.first); memcpy(b.data(), kv.second.data(), 4 * b.total()); }
}
inline void randomize_params(Case& c, Rig& r) {
    std::map<std::string, dw::Tensor> sorted;
    for (auto& kv : r.info.impl().params) if (kv.first != "mask") sorted["p" + kv.first] = kv.second.data();
    for (auto& kv : r.info.impl().buffers) sorted["b" + kv.first] = kv.second;
    for (auto& kv : sorted) randomize(c, kv.second, kv.first == "brunning_var" ? POS : UNIT);
}
inline void near(Case& c, const dw::Tensor& a, const dw::Tensor& b, const std::string& what, double rel = 1e-3) {
    c.check(a.shape() == b.shape(), what + ": shapes " + str(a.shape()) + " and " + str(b.shape()) + " differ");
    double scale = 0;
    if (pbt::big()) { for (size_t i = 0; i < b.total(); ++i) scale = std::max(scale, double(std::fabs(b.data()[i]))); rel *= 20; }    // deep networks amplify rounding
    for (size_t i = 0; i < a.total(); ++i) {
        double x = a.data()[i], y = b.data()[i];
        if (!(std::fabs(x - y) <= rel * (1 + std::max(scale, std::max(std::fabs(x), std::fabs(y))))) && !(pbt::big() && !(std::fabs(y) < 1e20)))
            c.fail(what + ": element " + std::to_string(i) + " of " + str(a.shape()) + " is " + fstr(x) + " but " + fstr(y) + " expected");
    }
}
