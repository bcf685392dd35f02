// C18: cross-entropy loss.
#include <deepworks/loss.hpp>
#include "layerutil.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
struct Batch { int N, C; GT p, t; std::vector<int> cls; };
Batch gen(Case& c) {
    Batch b; if (pbt::big()) { auto s = large_shape(c, 3000, 200000, 2, 2); b.N = s[0]; b.C = s[1]; }
    else { b.N = int(c.sized(1, 6, 150)); b.C = int(c.sized(1, 8, b.N > 40 ? 30 : 300)); }
    b.p = GT(c, {b.N, b.C}); b.t = GT(c, {b.N, 1}); b.cls.resize(b.N);
    int how = int(c.draw(6)), lab = int(c.draw(5)); pbt::Expand x(c.seed32());
    for (int i = 0; i < b.N; ++i) {
        int k = lab == 0 ? int(x.below(b.C)) : lab == 1 ? 0 : lab == 2 ? b.C - 1 : lab == 3 ? i % b.C : (b.C - 1 - i % b.C);
        if (lab == 0 && b.C < 64 && b.N <= 6 && c.flag()) k = int(c.draw(b.C));
        b.cls[i] = k; b.t.data()[i] = float(k);
        double s = 0; std::vector<double> e(b.C);
        for (int j = 0; j < b.C; ++j) {
            double u = x.unit();
            e[j] = how == 0 ? 0.1 + u : how == 1 ? std::exp(8 * u) : how == 2 ? std::exp(70 * u) : how == 3 ? 1 : how == 4 ? (u < 0.6 ? 0 : u) : (j == k ? 1 : 0);
            if (j == k && e[j] == 0) e[j] = 0.3;
            s += e[j];
        }
        for (int j = 0; j < b.C; ++j) b.p.data()[size_t(i) * b.C + j] = float(e[j] / s);
    }
    b.p.take(); b.t.take();
    c.desc << "p" << how << " [" << b.N << "," << b.C << "] labels" << lab << "; ";
    return b;
}
void fwd(Case& c, dw::loss::CrossEntropyLoss& L, Batch& b) {
    float got = L.forward(b.p.t, b.t.t);
    ref::Sum s; for (int i = 0; i < b.N; ++i) s.add(-ref::elog(E(b.p.data()[size_t(i) * b.C + b.cls[i]])));
    E want = s.get() / E(double(b.N));
    c.check(ref::close(got, want), "loss of a " + std::to_string(b.N) + "x" + std::to_string(b.C) + " batch is " + fstr(got) + ", expected " + fstr(want.v) + " +- " + fstr(want.e));
    c.check(b.p.unchanged() && b.t.unchanged(), "forward modified predictions or targets");
    c.check(b.p.guards_ok() && b.t.guards_ok(), "forward wrote out of bounds");
}
void bwd(Case& c, dw::loss::CrossEntropyLoss& L, Batch& b, std::map<dw::Shape, GT>& pool) {
    GT g(c, {b.N, b.C});
    if (c.flag(40) && pool.count({b.N, b.C})) { g = pool[{b.N, b.C}]; c.label("gradient-tensor-reused"); }
    else if (c.flag(70)) { pbt::Expand x(c.seed32()); bool sparse = c.flag(30); for (size_t i = 0; i < g.size(); ++i) g.data()[i] = style_value(x, sparse ? SPARSE : WIDE); }
    pool[{b.N, b.C}] = g;
    const float* d = g.data(); auto t = g.t;
    L.backward(b.p.t, b.t.t, t);
    c.check(t.data() == d && t.shape() == dw::Shape({b.N, b.C}), "backward replaced the gradient tensor");
    RT want({b.N, b.C});
    for (int i = 0; i < b.N; ++i) { size_t k = size_t(i) * b.C + b.cls[i]; want[k] = E(-1.0) / (E(b.p.data()[k]) * E(double(b.N))); want[k].e = std::max(want[k].e, (E(-1.0) / E(b.p.data()[k]) / E(double(b.N))).e); }
    compare(c, g.t, want, "loss gradient");
    c.check(b.p.unchanged() && b.t.unchanged(), "backward modified predictions or targets");
    c.check(g.guards_ok() && b.p.guards_ok() && b.t.guards_ok(), "backward wrote out of bounds");
}
void reject(Case& c, dw::loss::CrossEntropyLoss& L) {
    int N = int(c.sized(1, 5, 20)), C = int(c.sized(1, 5, 20));
    dw::Shape p{N, C}, t{N, 1}, g{N, C}; bool back = c.flag();
    switch (c.draw(back ? 8 : 6)) {
    case 0: p = any_shape(c, 60, 1, 5); if (p.size() == 2) p.push_back(1); g = p; t = {p[0], 1}; break;
    case 1: t = {N}; break;
    case 2: t = {N + 1, 1}; break;
    case 3: t = {N, 2}; break;
    case 4: t = {N, 1, 1}; break;
    case 5: if (N == 1) t = {2, 1}; else t = c.flag() ? dw::Shape{1, N} : dw::Shape{N - 1, 1}; break;
    case 6: g = c.flag() ? dw::Shape{N + 1, C} : dw::Shape{N, C + 1}; break;
    case 7: g = c.flag() ? dw::Shape{N * C} : dw::Shape{1, N, C}; break;
    }
    c.desc << (back ? "backward" : "forward") << " reject p" << str(p) << " t" << str(t) << " g" << str(g) << "; "; c.publish();
    dw::Tensor P = dw::Tensor::constant(p, 0.5f), T = dw::Tensor::zeros(t), G = dw::Tensor::zeros(g);
    bool threw = throws([&] { if (back) L.backward(P, T, G); else L.forward(P, T); });
    c.check(threw, std::string(back ? "backward" : "forward") + " accepted predictions " + str(p) + ", targets " + str(t) + ", gradient " + str(g));
    c.label("rejected");
}
// more entries than a float can count
void huge(Case& c) {
    int N = int(c.integer(2, 40)), C = int((1 << 24) / N + c.integer(1, 300000)); if (c.flag()) std::swap(N, C);
    c.desc << "[" << N << "," << C << "]"; c.publish();
    dw::Tensor p({N, C}), t({N, 1}), g({N, C}); size_t n = size_t(N) * C; pbt::Expand x(c.seed32());
    std::fill_n(p.data(), n, float(1.0 / C)); std::fill_n(g.data(), n, 7.f); std::vector<int> cls(N);
    for (int i = 0; i < N; ++i) { cls[i] = c.flag(50) && i > N - 3 ? C - 1 : int(x.below(C)); t.data()[i] = float(cls[i]); if (int(t.data()[i]) != cls[i]) { cls[i] = int(t.data()[i]); if (cls[i] >= C) t.data()[i] = float(cls[i] = 0); } p.data()[size_t(i) * C + cls[i]] = float(0.05 + 0.9 * x.unit()); }
    dw::loss::CrossEntropyLoss L; ref::Sum s; for (int i = 0; i < N; ++i) s.add(-ref::elog(E(p.data()[size_t(i) * C + cls[i]])));
    float got = L.forward(p, t); E want = s.get() / E(double(N));
    c.check(ref::close(got, want), "loss of a " + std::to_string(N) + "x" + std::to_string(C) + " batch is " + fstr(got) + ", expected " + fstr(want.v));
    L.backward(p, t, g);
    for (int i = 0; i < N; ++i) { size_t k = size_t(i) * C + cls[i]; double w = -1.0 / (double(p.data()[k]) * N); c.check(std::fabs(g.data()[k] - w) <= 1e-5 * std::fabs(w), "gradient of the true class of row " + std::to_string(i) + " is " + fstr(g.data()[k]) + ", expected " + fstr(w)); g.data()[k] = 0; }
    size_t bad = n; for (size_t k = 0; k < n; ++k) if (g.data()[k] != 0.f) { bad = k; break; }
    c.check(bad == n, "gradient element " + std::to_string(bad) + " of a [" + std::to_string(N) + "," + std::to_string(C) + "] batch is " + fstr(bad < n ? g.data()[bad] : 0) + ", expected 0");
    c.nontrivial();
}
void history(Case& c) {
    std::vector<dw::loss::CrossEntropyLoss> L(c.integer(1, 2));
    std::vector<Batch> seen; std::map<dw::Shape, GT> pool;
    int steps = pbt::repeats(c, int(pbt::sz(4, 2)), int(pbt::sz(12, 4)), 100, 400);
    for (int s = 0; s < steps; ++s) {
        auto& l = L[c.draw(L.size())];
        if (c.flag(12)) { reject(c, l); continue; }
        bool old = !seen.empty() && c.flag(30);
        if (!old && !seen.empty() && c.flag(25)) {       // the next batch: same sizes, other labels
            Batch n = seen.back(); n.t = GT(c, {n.N, 1}); pbt::Expand x(c.seed32());
            for (int i = 0; i < n.N; ++i) { n.cls[i] = int(x.below(n.C)); n.t.data()[i] = float(n.cls[i]); float& q = n.p.data()[size_t(i) * n.C + n.cls[i]]; if (q < 1e-6f) n.t.data()[i] = float(n.cls[i] = seen.back().cls[i]); }
            n.t.take(); seen.push_back(n); c.desc << "other labels; "; old = true; c.publish();
            Batch& b = seen.back(); bwd(c, l, b, pool); if (c.flag()) fwd(c, l, b); continue;
        }
        if (!old) { seen.push_back(gen(c)); c.publish(); }
        Batch& b = old ? seen[c.draw(seen.size())] : seen.back();
        if (old) c.desc << "again; ";
        switch (c.draw(3)) { case 0: fwd(c, l, b); break; case 1: bwd(c, l, b, pool); break; default: fwd(c, l, b); bwd(c, l, b, pool); }
        if (b.N > 1 && b.C > 1) c.nontrivial();
        if (b.N != b.C) c.label("N!=C");
    }
}
}
PBT_PROPERTY("C18", "random sequences of forward/backward/rejected calls on one or two loss objects with changing batch and class counts; non-trivial = some batch with more than one row and class") {
    pbt::large_facet("large", 90, history);
    pbt::large_facet("huge", 4, huge);
    pbt::marathon_facet("marathon", 40, history);
    pbt::facet("histories", 30000, history, 10, 60);
}
