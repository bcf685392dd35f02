// C15: dropout.
#include "layerutil.hpp"
namespace {
float gen_p(Case& c) { return c.flag(15) ? float(c.real(0.02, 0.95)) : c.pick({0.5f, 0.1f, 0.25f, 0.75f, 0.9f, 0.f, 0.33f}); }
// nonzero inputs, so that "dropped" is visible in the output
void nonzero(GT& g) { for (size_t i = 0; i < g.size(); ++i) if (std::fabs(g.data()[i]) < 1e-6f) g.data()[i] = 1.25f; g.take(); }
std::vector<char> kept(Case& c, const GT& x, const GT& y, float p) {
    std::vector<char> k(x.size());
    for (size_t i = 0; i < x.size(); ++i) {
        if (y.data()[i] == 0.f) { k[i] = 0; continue; }
        E w = E(x.data()[i]) / (E(1.0) - E(p));
        if (!ref::close(y.data()[i], w)) c.fail("element " + std::to_string(i) + ": input " + fstr(x.data()[i]) + " became " + fstr(y.data()[i]) + ", neither 0 nor input/(1-p) = " + fstr(w.v));
        k[i] = 1;
    }
    return k;
}
void history(Case& c) {
    set_threads(c);
    auto s = any_shape(c, 2000, 1, 4); float p = gen_p(c);
    Rig r = Rig::make(dw::Dropout(p, "l"), s);
    c.check(r.out_shape == s, "announced shape");
    c.desc << "Dropout p=" << p << " " << str(s);
    int steps = int(c.integer(1, pbt::sz(6, 3))); bool have = false; std::vector<char> last; int nt = 0, ne = 0;
    for (int k = 0; k < steps; ++k) {
        bool train = c.flag(65); r.train(train);
        auto x = gen_tensor(c, s, gen_style(c, {UNIT, INTS, WIDE, POS})); nonzero(x);
        c.desc << (train ? " train" : " eval"); c.publish();
        Call f; f.forward(c, r, {x}, s);
        if (!train) {
            c.check(!memcmp(f.y.data(), x.data(), 4 * x.size()), "evaluation-mode output differs from the input"); ++ne;
        } else { last = kept(c, x, f.y, p); have = true; ++nt; }
        if (have && c.flag(60)) {
            if (train || c.flag(30)) {
                r.train(true);
                c.desc << "+backward"; c.publish();
                f.backward(c, r, gen_style(c, {UNIT, INTS, WIDE, SPARSE, TINY}));
                bool scaled = true, unscaled = true; std::string why;
                for (size_t i = 0; i < x.size(); ++i) {
                    E g0(f.gi0[0][i]); float got = f.gi[0].data()[i];
                    if (!last[i]) { if (got != f.gi0[0][i]) c.fail("element " + std::to_string(i) + " was dropped but its gradient changed from " + fstr(f.gi0[0][i]) + " to " + fstr(got)); continue; }
                    E g(f.go.data()[i]), a = g0 + g / (E(1.0) - E(p)), b = g0 + g;
                    if (!ref::close(got, a)) { scaled = false; if (why.empty()) why = "element " + std::to_string(i) + ": gradient " + fstr(got) + " expected " + fstr(a.v); }
                    if (!ref::close(got, b)) unscaled = false;
                }
                // Known finding: the kept gradients are passed through without the factor 1/(1-p).
                if (!scaled) { if (unscaled) c.label("KNOWN:dropout-grad-unscaled"); else c.fail("neither the scaled nor the plain output gradient was added: " + why); }
                c.label("backward");
            }
        }
    }
    c.label("train", nt); c.label("eval", ne);
    c.nontrivial(nt > 0 && p > 0 && ref::total(s) > 1);
}
// Statistics of the masks: every bound is 9 standard deviations or more, and the
// entropy source is seeded from VERIF_SEED.
void masks(Case& c) {
    int n = int(pbt::big() ? c.integer(5000, 300000) : c.integer(1500, 5000)); float p = c.hyper({0.1f, 0.25f, 0.5f, 0.75f, 0.9f, 0.4f}, 0.1, 0.9);
    std::vector<int> s = c.flag() ? std::vector<int>{n} : c.flag() ? std::vector<int>{n / 10, 10} : std::vector<int>{n / 60, int(c.integer(2, 6)), int(c.integer(2, 5)), int(c.integer(2, 5))};
    if (s.size() == 4) s[0] = std::max(1, n / (s[1] * s[2] * s[3])); n = int(ref::total(s));
    Rig r = Rig::make(dw::Dropout(p, "l"), s);
    c.desc << "masks p=" << p << " " << str(s); c.publish();
    int rounds = int(c.integer(2, 4)); std::vector<std::vector<char>> all;
    std::vector<double> row(10);
    for (int k = 0; k < rounds; ++k) {
        GT x = gen_tensor(c, s, POS); Call f; f.forward(c, r, {x}, s);
        auto m = kept(c, x, f.y, p);
        double drop = 0, lag = 0;
        for (int i = 0; i < n; ++i) { drop += !m[i]; if (i) lag += (double(!m[i]) - p) * (double(!m[i - 1]) - p); }
        double sd = std::sqrt(n * double(p) * (1 - p));
        c.check(std::fabs(drop - n * double(p)) < 9 * sd, fstr(drop) + " of " + std::to_string(n) + " elements dropped at p=" + fstr(p));
        c.check(std::fabs(lag) < 9 * std::sqrt(double(n)) * p * (1 - p), "neighbouring elements are not dropped independently");
        std::vector<size_t> lags{2, 4, 8, 10}; size_t stride = 1; for (size_t d = s.size(); d-- > 1;) lags.push_back(stride *= size_t(s[d])); for (int q = 0; q < 3; ++q) lags.push_back(1 + c.draw(n / 2));
        for (size_t lagk : lags) {
            double q = 0; for (size_t i = lagk; i < size_t(n); ++i) q += (double(!m[i]) - p) * (double(!m[i - lagk]) - p);
            c.check(std::fabs(q) < 9 * std::sqrt(double(n)) * p * (1 - p), "elements at distance " + std::to_string(lagk) + " are not dropped independently");
        }
        for (auto& o : all) {
            double q = 0; for (int i = 0; i < n; ++i) q += (double(!m[i]) - p) * (double(!o[i]) - p);
            c.check(std::fabs(q) < 9 * std::sqrt(double(n)) * p * (1 - p), "the mask of a later call is not independent of an earlier one");
        }
        // regions of the tensor
        for (int b = 0; b < 4; ++b) { double d = 0; int a0 = b * n / 4, a1 = (b + 1) * n / 4; for (int i = a0; i < a1; ++i) d += !m[i];
            c.check(std::fabs(d - (a1 - a0) * double(p)) < 9 * std::sqrt((a1 - a0) * double(p) * (1 - p)), "dropping is uneven over the tensor"); }
        all.push_back(m);
    }
    c.nontrivial();
}
// every position of a small tensor is dropped with probability p over many calls
void positions(Case& c) {
    auto s = any_shape(c, 40, 1, 4); size_t n = size_t(ref::total(s)); float p = c.hyper({0.1f, 0.25f, 0.5f, 0.75f, 0.9f}, 0.1, 0.9); int K = 1000;
    Rig r = Rig::make(dw::Dropout(p, "l"), s); c.desc << "positions p=" << p << " " << str(s) << ", " << K << " calls"; c.publish();
    std::vector<double> drop(n), both(n); dw::Tensor x(s), y(s); std::fill_n(x.data(), n, 1.f);
    for (int k = 0; k < K; ++k) {
        std::vector<dw::Tensor> in{x}, out{y}; r.layer->forward(in, out);
        for (size_t i = 0; i < n; ++i) { bool d = y.data()[i] == 0.f; drop[i] += d; both[i] += d && y.data()[(i + 1) % n] == 0.f; }
    }
    double sd = std::sqrt(K * double(p) * (1 - p)), q = double(p) * p, sq = std::sqrt(K * q * (1 - q));
    for (size_t i = 0; i < n; ++i) {
        c.check(std::fabs(drop[i] - K * double(p)) < 9 * sd, "position " + std::to_string(i) + " is dropped in " + fstr(drop[i]) + " of " + std::to_string(K) + " calls at p=" + fstr(p));
        if (n > 1) c.check(std::fabs(both[i] - K * q) < 9 * sq + 1, "position " + std::to_string(i) + " and the next are dropped together in " + fstr(both[i]) + " of " + std::to_string(K) + " calls at p=" + fstr(p));
    }
    c.nontrivial(n > 1);
}
}
PBT_PROPERTY("C15", "random histories of train/eval/backward calls with p in [0,0.95]; separate statistical cases over 1500-5000 elements and 2-4 successive masks; non-trivial = a training call with p>0 on several elements") {
    pbt::facet("history", 30000, history, 12, 100);
    pbt::large_facet("history-large", 80, history);
    pbt::large_facet("masks-large", 60, masks);
    pbt::facet("masks", 4000, masks, 10, 10);
    pbt::facet("positions", 600, positions, 10, 10);
    pbt::Registry::get().assumptions = {"statistical bounds are at least 9 standard deviations wide and the entropy source is seeded from VERIF_SEED"};
}
