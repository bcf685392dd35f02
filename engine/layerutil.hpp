// Drive one CPU layer the way the backend does: expression-level operation ->
// layer info (with its parameters) -> CPU layer instance.
#pragma once
#include <deepworks/nn.hpp>
#include <deepworks/placeholder.hpp>
#include <deepworks/layer_info.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"
#include "dwutil.hpp"
#ifdef _OPENMP
#include <omp.h>
#endif

struct Rig {
    dw::LayerInfo info;
    dw::Shape out_shape;
    dw::cpu::ICPULayer::Ptr layer;

    template <class Op, class... S> static Rig make(Op op, const S&... in_shapes) {
        Rig r;
        dw::Placeholder out = op(dw::Placeholder(in_shapes)...);
        r.info = op.m_info;
        r.out_shape = out.shape();
        r.layer = dw::cpu::ICPULayer::create(r.info);
        return r;
    }
    dw::Parameter param(const std::string& n) { return info.params().at(n); }
    dw::Tensor buffer(const std::string& n) { return info.buffers().at(n); }
    void train(bool m) { for (auto& kv : info.impl().params) kv.second.train(m); }
};
inline void set_threads(Case& c) {
#ifdef _OPENMP
    int n = c.flag(30) ? int(c.integer(1, 8)) : 1;
    omp_set_num_threads(n);
#else
    (void)c;
#endif
}
inline void randomize(Case& c, dw::Tensor t, int style) { fill(c, t.data(), t.total(), style); }

using Shapes = std::vector<std::vector<int>>;

// One forward (and possibly backward) call on a layer, with everything that must
// not change snapshotted and everything that must be written poisoned.
struct Call {
    std::vector<GT> x; GT y, go; std::vector<GT> gi;
    std::vector<std::vector<float>> gi0;

    void forward(Case& c, Rig& r, std::vector<GT> inputs, const std::vector<int>& out_shape) {
        x = std::move(inputs);
        y = GT(c, out_shape);
        std::vector<dw::Tensor> in, out{y.t};
        for (auto& t : x) { t.take(); in.push_back(t.t); }
        const float* py = y.data();
        r.layer->forward(in, out);
        c.check(out.size() == 1 && out[0].data() == py && y.data() == py, "forward replaced the output tensor instead of filling it");
        c.check(y.t.shape() == out_shape, "forward changed the output shape");
        for (auto& t : x) { c.check(t.unchanged(), "forward modified its input"); c.check(t.guards_ok(), "forward wrote outside (next to its input)"); }
        c.check(y.guards_ok(), "forward wrote outside its output");
    }
    // prior: 0 zeros, 1 random content; alias: both input gradients are one tensor
    void backward(Case& c, Rig& r, int gstyle, bool alias = false, int force_prior = -1) {
        go = gen_tensor(c, y.t.shape(), gstyle);
        run_backward(c, r, alias, force_prior);
    }
    void run_backward(Case& c, Rig& r, bool alias = false, int force_prior = -1) {
        go.take(); y.take();
        gi.clear(); gi0.clear();
        for (size_t k = 0; k < x.size(); ++k) {
            if (alias && k) { gi.push_back(gi[0]); gi0.push_back(gi0[0]); continue; }
            GT g(c, x[k].t.shape());
            bool prior = force_prior < 0 ? c.flag(50) : force_prior;
            if (prior) { pbt::Expand e(c.seed32()); for (size_t i = 0; i < g.size(); ++i) g.data()[i] = float(int(e.below(65)) - 32) / 8; }
            else std::fill_n(g.data(), g.size(), 0.f);
            gi0.emplace_back(g.data(), g.data() + g.size());
            gi.push_back(g);
        }
        std::vector<dw::Tensor> in, out{y.t}, gos{go.t}, gis;
        for (auto& t : x) in.push_back(t.t);
        for (auto& t : gi) gis.push_back(t.t);
        r.layer->updateGradients(in, gos);
        r.layer->backward(in, out, gos, gis);
        for (auto& t : x) c.check(t.unchanged(), "backward modified the layer's input");
        c.check(y.unchanged(), "backward modified the layer's output");
        c.check(go.unchanged(), "backward modified the output gradient");
        for (size_t k = 0; k < gi.size(); ++k) {
            c.check(gi[k].guards_ok(), "backward wrote outside the input gradient");
            c.check(gis[k].data() == gi[k].data() && gi[k].t.shape() == x[k].t.shape(), "backward replaced the input gradient tensor");
        }
        c.check(go.guards_ok() && y.guards_ok(), "backward wrote out of bounds");
    }
};

// Parameters and buffers of a layer, for "unchanged" checks.
struct ParamSnap {
    std::map<std::string, std::vector<float>> d;
    static std::vector<float> bits(const dw::Tensor& t) { return std::vector<float>(t.data(), t.data() + t.total()); }
    explicit ParamSnap(Rig& r, bool params = true, bool buffers = true) {
        if (params) for (auto& kv : r.info.params()) d["p:" + kv.first] = bits(kv.second.data());
        if (buffers) for (auto& kv : r.info.buffers()) d["b:" + kv.first] = bits(kv.second);
    }
    void same(Case& c, Rig& r, const std::string& when) const {
        for (auto& kv : d) {
            const dw::Tensor t = kv.first[0] == 'p' ? r.info.params().at(kv.first.substr(2)).data() : r.info.buffers().at(kv.first.substr(2));
            c.check(t.total() == kv.second.size() && (kv.second.empty() || !memcmp(t.data(), kv.second.data(), 4 * kv.second.size())), when + " changed " + kv.first.substr(2));
        }
    }
};
inline std::vector<float> flat(const dw::Tensor& t) { return ParamSnap::bits(t); }
// put garbage where a parameter gradient will be written
inline void dirty_grads(Case& c, Rig& r) {
    for (auto& kv : r.info.impl().params) {
        auto g = kv.second.grad(); int m = int(c.draw(3));
        for (size_t i = 0; i < g.total(); ++i) g.data()[i] = m == 0 ? 0.f : m == 1 ? 7.5f : std::numeric_limits<float>::quiet_NaN();
    }
}
// A shape of roughly the given number of elements, the factors spread over the axes.
inline std::vector<int> large_shape(Case& c, long lo, long hi, int min_rank = 1, int max_rank = 5) {
    int rank = int(c.integer(min_rank, max_rank)); double want = std::exp(c.real(std::log(double(lo)), std::log(double(hi))));
    std::vector<double> w(rank); double sum = 0; int one = c.flag(25) ? int(c.draw(rank)) : -1;       // one long side
    for (int i = 0; i < rank; ++i) { w[i] = one < 0 ? c.real(0.02, 1) : i == one ? 1 : c.real(0, 0.12); sum += w[i]; }
    std::vector<int> s; for (double x : w) s.push_back(std::max(1, int(std::pow(want, x / sum) + 0.5)));
    return s;
}
inline std::vector<int> any_shape(Case& c, long cap, int min_rank = 1, int max_rank = 5) {
    if (pbt::big()) return large_shape(c, cap, std::max(400000L, cap), min_rank, max_rank);
    if (max_rank >= 4 && c.flag(8)) max_rank = 9;          // nothing limits the rank
    int rank = int(c.integer(min_rank, max_rank)); std::vector<int> s(rank); long tot = 1;
    for (auto& d : s) { d = int(c.sized(1, 5, 64, 15)); if (tot * d > cap) d = 1; tot *= d; }
    if (c.flag(10)) { long room = cap / std::max(1L, tot / s.back()); s.back() = int(c.integer(1, std::max(1L, std::min(room, 4000L)))); }
    return s;
}
// Convolution / pooling geometry.
struct Geo { ref::Win w; std::array<int, 2> k, p, s; };
inline Geo gen_geo(Case& c, bool pad_below_kernel) {
    Geo g; bool wide = pbt::big() && c.flag(25);           // windows of hundreds of cells
    for (int i = 0; i < 2; ++i) {
        g.k[i] = int(wide ? c.integer(10, 24) : c.sized(1, 3, pbt::sz(7, 20), 20));
        g.s[i] = int(c.sized(1, 3, pbt::sz(6, 12), 20));
        int pmax = pad_below_kernel ? g.k[i] - 1 : int(pbt::sz(4, 8));
        g.p[i] = c.flag(55) ? int(c.integer(0, pmax)) : 0;
    }
    if (c.flag(25)) { g.k[1] = g.k[0]; g.s[1] = g.s[0]; g.p[1] = g.p[0]; }
    for (int i = 0; i < 2; ++i) { g.w.k[i] = g.k[i]; g.w.p[i] = g.p[i]; g.w.s[i] = g.s[i]; }
    return g;
}
inline int gen_side(Case& c, const Geo& g, int axis, int big) {
    int lo = std::max(1, g.k[axis] - 2 * g.p[axis]);
    return int(c.sized(lo, std::max(lo, 6), std::max(lo, big), 25));
}
inline std::string str(const Geo& g) {
    std::ostringstream o; o << "k" << g.k[0] << "x" << g.k[1] << " p" << g.p[0] << "x" << g.p[1] << " s" << g.s[0] << "x" << g.s[1]; return o.str();
}
