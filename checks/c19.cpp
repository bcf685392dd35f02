// C19: accuracy metrics.
#include <deepworks/metrics.hpp>
#include "layerutil.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
int argmax(const float* p, int n) { int b = 0; for (int i = 1; i < n; ++i) if (p[i] > p[b]) b = i; return b; }
void gen_scores(Case& c, GT& g) {
    int how = int(c.draw(7)); pbt::Expand x(c.seed32());
    for (size_t i = 0; i < g.size(); ++i) switch (how) {
        case 0: g.data()[i] = style_value(x, UNIT); break;
        case 1: g.data()[i] = style_value(x, TIES); break;
        case 2: g.data()[i] = style_value(x, NEG); break;
        case 3: g.data()[i] = float(x.below(2)); break;
        case 4: g.data()[i] = style_value(x, EXTREME); break;
        case 5: g.data()[i] = 1.f + float(int(x.below(3)) - 1) * 1.2e-7f; break;
        default: g.data()[i] = -3.f; break;
    }
    c.desc << "scores" << how << " ";
}
void good(Case& c, bool onehot) {
    int N = int(c.sized(1, 8, 400)), C = int(c.sized(1, 6, N > 60 ? 20 : 260));
    if (pbt::big()) { auto s = large_shape(c, 3000, 300000, 2, 2); N = s[0]; C = s[1]; }
    GT p(c, {N, C}); gen_scores(c, p);
    dw::Shape ts{N, C};
    if (!onehot) { switch (c.draw(5)) { case 0: ts = {N, 1}; break; case 1: ts = {N}; break; case 2: ts = {1, N}; break; case 3: ts = {N, 1, 1}; break; case 4: ts = N % 2 ? dw::Shape{N} : dw::Shape{N / 2, 2}; break; } }
    GT t(c, ts); pbt::Expand x(c.seed32()); int hit = int(c.draw(5)); long good = 0;
    std::vector<int> lab(N);
    for (int i = 0; i < N; ++i) {
        int best = argmax(p.data() + size_t(i) * C, C);
        bool want_hit = hit == 0 || (hit == 1 && x.below(2)) || (hit == 2 && i == N - 1) || (hit == 3 && i == 0);
        lab[i] = want_hit ? best : hit == 4 ? int(x.below(C)) : (best + 1 + int(x.below(C))) % C;
        good += lab[i] == best;
    }
    if (!onehot) for (int i = 0; i < N; ++i) t.data()[i] = float(lab[i]);
    else {
        int how = int(c.draw(4)); long g2 = 0;
        for (int i = 0; i < N; ++i) {
            for (int j = 0; j < C; ++j) t.data()[size_t(i) * C + j] = how == 0 ? 0.f : how == 1 ? float(x.unit() * 0.5) : how == 2 ? -1.f - float(x.below(3)) : float(x.below(2));
            t.data()[size_t(i) * C + lab[i]] = how == 2 ? -0.5f : 1.f;
            g2 += argmax(t.data() + size_t(i) * C, C) == argmax(p.data() + size_t(i) * C, C);
        }
        good = g2; c.desc << "targets" << how << " ";
    }
    c.desc << "[" << N << "," << C << "] true " << str(ts) << " correct " << good; c.publish();
    p.take(); t.take();
    float got = onehot ? dw::metric::accuracyOneHot(p.t, t.t) : dw::metric::accuracy(p.t, t.t);
    double want = double(good) / N;
    c.check(std::fabs(got - want) <= 1e-6, "accuracy is " + fstr(got) + ", expected " + std::to_string(good) + "/" + std::to_string(N) + " = " + fstr(want));
    c.check(p.unchanged() && t.unchanged(), "the metric modified its arguments");
    c.check(p.guards_ok() && t.guards_ok(), "the metric wrote out of bounds");
    c.nontrivial(N > 1 && C > 1 && good > 0);
    if (good > 0 && good < N) c.label("partial");
}
// more rows than a float can count
void huge(Case& c, bool onehot) {
    int C = int(c.integer(1, 2)), N = (1 << 24) + int(c.integer(1 << 18, 1 << 20)), miss = C == 1 ? 0 : int(c.draw(1000));
    c.desc << (onehot ? "onehot " : "labels ") << N << " rows, " << C << " classes, " << miss << " wrong"; c.publish();
    dw::Tensor p = dw::Tensor::zeros({N, C}), t = onehot ? dw::Tensor::zeros({N, C}) : dw::Tensor::zeros({N, 1});
    for (int i = 0; i < N; ++i) { p.data()[size_t(i) * C] = 1.f; bool wrong = i < miss; if (onehot) t.data()[size_t(i) * C + (wrong ? 1 : 0)] = 1.f; else t.data()[i] = wrong ? 1.f : 0.f; }
    float got = onehot ? dw::metric::accuracyOneHot(p, t) : dw::metric::accuracy(p, t); double want = double(N - miss) / N;
    c.check(std::fabs(got - want) <= 1e-6, "accuracy is " + fstr(got) + ", expected " + fstr(want)); c.nontrivial(); c.label("more-than-2^24-rows");
}
void bad(Case& c) {
    bool onehot = c.flag();
    int N = int(c.sized(1, 5, 20)), C = int(c.sized(2, 5, 20));
    dw::Shape p{N, C}, t = onehot ? p : dw::Shape{N, 1};
    switch (c.draw(3)) {
    case 0: p = any_shape(c, 60, 1, 5); if (p.size() == 2) p.push_back(1); t = onehot ? p : dw::Shape{p[0]}; break;
    case 1: t[0] += 1; break;
    case 2: if (onehot) { if (c.flag()) t = {N * C}; else if (N != C && c.flag()) t = {C, N}; else t = {N, C + 1}; } else t = N > 1 && c.flag() ? dw::Shape{N - 1} : dw::Shape{N, C}; break;
    }
    c.desc << (onehot ? "onehot" : "labels") << " reject p" << str(p) << " t" << str(t); c.publish();
    dw::Tensor P = dw::Tensor::constant(p, 0.5f), T = dw::Tensor::zeros(t);
    c.check(throws([&] { if (onehot) dw::metric::accuracyOneHot(P, T); else dw::metric::accuracy(P, T); }), "accepted predictions " + str(p) + " with targets " + str(t));
    c.nontrivial(); c.label("rejected");
}
}
PBT_PROPERTY("C19", "random score matrices (ties, negatives, extremes, all equal) and labels with a chosen set of correct rows; non-trivial = several rows and classes and at least one correct row / a rejection was exercised") {
    pbt::large_facet("labels-large", 150, [](Case& c) { good(c, false); });
    pbt::large_facet("onehot-large", 150, [](Case& c) { good(c, true); });
    pbt::facet("labels", 25000, [](Case& c) { good(c, false); }, 12, 100);
    pbt::facet("onehot", 25000, [](Case& c) { good(c, true); }, 12, 100);
    pbt::facet("huge", 4, [](Case& c) { huge(c, c.flag()); }, 4, 100);
    pbt::facet("rejection", 4000, bad, 8, 100);
}
