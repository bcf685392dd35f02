// C22: DataLoader.
#include <deepworks/dataloader.hpp>
#include "layerutil.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
float xval(int salt, int i, size_t j) { return float((uint32_t(salt * 7919 + i * 37 + 1) * 2654435761u + uint32_t(j) * 40503u) >> 9); }
float yval(int salt, int i, size_t j) { return -float(salt * 1000 + i) - 0.5f * float(j); }
struct Data : dw::IDataset {
    int n, salt; dw::Shape xs, ys; bool bad = false; long pulls = 0;
    size_t size() override { return size_t(n); }
    OutShape shape() override { return {xs, ys}; }
    void pull(int idx, dw::Tensor& X, dw::Tensor& y) override {
        ++pulls;
        if (idx < 0 || idx >= n || X.shape() != xs || y.shape() != ys) { bad = true; return; }
        size_t a = size_t(ref::total(xs)), b = size_t(ref::total(ys));
        for (size_t j = 0; j < a; ++j) X.data()[j] = xval(salt, idx, j);
        for (size_t j = 0; j < b; ++j) y.data()[j] = yval(salt, idx, j);
    }
};
dw::Shape batched(int B, dw::Shape s) { s.insert(s.begin(), B); return s; }
// checks a delivered batch, returns the sample numbers
std::vector<int> samples(Case& c, const Data& d, int B, const dw::Tensor& X, const dw::Tensor& y) {
    size_t a = size_t(ref::total(d.xs)), b = size_t(ref::total(d.ys)); std::vector<int> out;
    for (int r = 0; r < B; ++r) {
        float id = -(y.data()[r * b]) - float(d.salt * 1000); int i = int(id);
        if (!(float(i) == id && i >= 0 && i < d.n)) c.fail("row " + std::to_string(r) + ": label " + fstr(y.data()[r * b]) + " belongs to no sample");
        for (size_t j = 0; j < b; ++j) if (y.data()[r * b + j] != yval(d.salt, i, j)) c.fail("row " + std::to_string(r) + " of the labels is not sample " + std::to_string(i) + "'s label");
        for (size_t j = 0; j < a; ++j) if (X.data()[r * a + j] != xval(d.salt, i, j)) c.fail("row " + std::to_string(r) + " of the data (element " + std::to_string(j) + ") is not sample " + std::to_string(i) + "'s data, whose label is in that row");
        out.push_back(i);
    }
    return out;
}
std::shared_ptr<Data> gen_data(Case& c, int salt, int maxn) {
    auto d = std::make_shared<Data>(); d->salt = salt; d->n = int(pbt::big() ? c.integer(maxn, 70000) : c.sized(1, 9, maxn)); d->xs = pbt::big() ? large_shape(c, 1, 4000, 1, 4) : any_shape(c, 60, 1, 3);
    d->ys = c.flag(70) ? dw::Shape{1} : pbt::big() ? dw::Shape{int(c.integer(1, 100))} : any_shape(c, 8, 1, 2);
    if (pbt::big()) d->n = std::min(d->n, std::max(maxn, int(3000000 / ref::total(d->xs))));
    return d;
}
struct L { std::shared_ptr<Data> d; std::unique_ptr<dw::DataLoader> l; int B; bool shuffle; int k = 0; };
void history(Case& c) {
    int n = int(c.integer(1, 2)); std::vector<L> ls;
    std::vector<std::shared_ptr<Data>> ds{gen_data(c, 1, 60)};
    if (n == 2 && c.flag()) ds.push_back(gen_data(c, 2, 30));
    for (int i = 0; i < n; ++i) {
        L l; l.d = ds[i % ds.size()]; l.B = c.flag(8) ? int(c.integer(l.d->n + 1, l.d->n + 4)) : int(c.integer(1, l.d->n)); l.shuffle = c.flag();
        if (c.flag(10)) { l.B = 1; l.shuffle = true; l.l = std::make_unique<dw::DataLoader>(l.d); }
        else if (l.shuffle && c.flag(30)) l.l = std::make_unique<dw::DataLoader>(l.d, l.B);
        else l.l = std::make_unique<dw::DataLoader>(l.d, l.B, l.shuffle);
        c.desc << "N=" << l.d->n << " B=" << l.B << (l.shuffle ? " shuffled " : " in order ") << "x" << str(l.d->xs) << " y" << str(l.d->ys) << "; ";
        if (pbt::big() && l.B * ref::total(l.d->xs) > 300000 && c.flag(80)) { l.B = std::max(1, int(300000 / ref::total(l.d->xs))); l.l = std::make_unique<dw::DataLoader>(l.d, l.B, l.shuffle); c.desc << "B=" << l.B << "; "; }
        ls.push_back(std::move(l));
    }
    int pulls = pbt::marathon() ? int(c.integer(200, 1500)) : int(c.sized(2, 14, 60)), full = 0, ends = 0;
    dw::Tensor keepX, keepY; int keeper = -1;
    for (int p = 0; p < pulls; ++p) {
        auto& l = ls[c.draw(ls.size())]; int who = int(&l - ls.data());
        auto XS = batched(l.B, l.d->xs), YS = batched(l.B, l.d->ys);
        if (c.flag(10)) {                                     // wrongly shaped: rejected, and consumes nothing
            auto bx = XS, by = YS; auto& w = c.flag() ? bx : by;
            switch (c.draw(4)) { case 0: w[0] += 1; break; case 1: w.push_back(1); break; case 2: w[c.draw(w.size())] += 1; break; case 3: w.insert(w.begin(), 1); break; }
            dw::Tensor X, Y; if (!(bx == XS && c.flag())) X = dw::Tensor::zeros(bx); if (!(by == YS && c.flag())) Y = dw::Tensor::zeros(by);
            c.desc << "wrong" << str(bx) << str(by) << "; "; c.publish();
            c.check(throws([&] { l.l->pull(X, Y); }), "tensors of shape " + str(bx) + " and " + str(by) + " were accepted for batches " + str(XS) + " and " + str(YS));
            c.label("rejected"); continue;
        }
        dw::Tensor X, Y; GT gx, gy; int mode = int(c.draw(4));
        bool full_expected = (l.k + 1) * l.B <= l.d->n;
        if (mode == 1 && keeper == who) { X = keepX; Y = keepY; }
        else if (mode == 2) { gx = GT(c, XS); gy = GT(c, YS); X = gx.t; Y = gy.t; }
        else if (mode == 3) { gx = GT(c, XS); X = gx.t; }
        const float *px = X.empty() ? nullptr : X.data(), *py = Y.empty() ? nullptr : Y.data();
        c.desc << (full_expected ? "pull; " : "end; "); c.publish();
        bool r = l.l->pull(X, Y);
        c.check(r == full_expected, "pull " + std::to_string(l.k + 1) + " of an epoch returned " + (r ? "true" : "false") + " for N=" + std::to_string(l.d->n) + ", B=" + std::to_string(l.B));
        c.check(!l.d->bad, "the dataset was asked for an index or with a shape that does not exist");
        if ((px && X.data() != px) || (py && Y.data() != py)) c.fail("a given tensor was replaced instead of filled");
        if (!gx.t.empty()) c.check(gx.guards_ok(), "the loader wrote outside the data batch");
        if (!gy.t.empty()) c.check(gy.guards_ok(), "the loader wrote outside the label batch");
        if (!r) { l.k = 0; ++ends; continue; }
        c.check(X.shape() == XS && Y.shape() == YS, "batch has shapes " + str(X.shape()) + " and " + str(Y.shape()) + ", expected " + str(XS) + " and " + str(YS));
        auto ids = samples(c, *l.d, l.B, X, Y);
        if (!l.shuffle) for (int i = 0; i < l.B; ++i) c.check(ids[i] == l.k * l.B + i, "row " + std::to_string(i) + " of batch " + std::to_string(l.k) + " is sample " + std::to_string(ids[i]));
        else c.check(std::set<int>(ids.begin(), ids.end()).size() == ids.size(), "a shuffled batch repeats a sample");
        if (mode < 2) { keepX = X; keepY = Y; keeper = who; }
        ++l.k; ++full;
    }
    c.nontrivial(full > 1 && ends > 0); if (ends > 1) c.label("several-epochs");
}
// a whole epoch over a dataset with more samples than 16 bits count
void epoch(Case& c) {
    auto d = std::make_shared<Data>(); d->salt = 1; d->n = int(c.sized(1, 70000, 300000, 30)); d->xs = {int(c.integer(1, 3))}; d->ys = {1};
    int B = int(c.integer(std::max(1, d->n / 300), std::max(1, d->n / 3))); bool shuffle = c.flag(30); if (shuffle) B = std::max(1, std::min(B, d->n / 4));
    dw::DataLoader l(d, B, shuffle); c.desc << "epoch N=" << d->n << " B=" << B << (shuffle ? " shuffled" : " in order"); c.publish();
    dw::Tensor X, Y; int k = 0;
    for (; l.pull(X, Y); ++k) {
        auto ids = samples(c, *d, B, X, Y);
        if (!shuffle) { for (int i = 0; i < B; ++i) if (ids[i] != k * B + i) c.fail("row " + std::to_string(i) + " of batch " + std::to_string(k) + " is sample " + std::to_string(ids[i])); }
        else c.check(std::set<int>(ids.begin(), ids.end()).size() == ids.size(), "a shuffled batch repeats a sample");
        c.check(k < d->n / B, "more batches than the dataset holds");
    }
    c.check(k == d->n / B, "the epoch has " + std::to_string(k) + " batches"); c.check(!d->bad, "the dataset was asked for an index that does not exist");
    c.nontrivial(k > 1); if (d->n > 65536) c.label("more-than-2^16-samples");
}
// with shuffling every sample can occur in every batch of an epoch
void reach(Case& c) {
    auto d = gen_data(c, 1, 14); d->n = std::max(d->n, 2); int B = int(c.integer(1, d->n));
    dw::DataLoader l(d, B, true);
    c.desc << "N=" << d->n << " B=" << B << " shuffled, first batches"; c.publish();
    // P(some sample missed at some position in all) < N*(N/B)*(1-B/N)^K < 1e-12
    int K = B == d->n ? 1 : int(std::ceil((2 * std::log(double(d->n)) + 28) / -std::log(1 - double(B) / d->n)));
    std::vector<std::set<int>> seen(d->n / B);
    for (int e = 0; e < K; ++e) {
        dw::Tensor X, Y; size_t k = 0;
        for (; l.pull(X, Y); ++k) { auto ids = samples(c, *d, B, X, Y); c.check(k < seen.size(), "more batches than the dataset holds"); seen[k].insert(ids.begin(), ids.end()); }
        c.check(k == seen.size(), "an epoch with " + std::to_string(k) + " batches");
    }
    for (size_t k = 0; k < seen.size(); ++k) c.check(int(seen[k].size()) == d->n, "only " + std::to_string(seen[k].size()) + " of " + std::to_string(d->n) + " samples ever occur in batch " + std::to_string(k) + " of an epoch in " + std::to_string(K) + " shuffled epochs");
    c.nontrivial(B < d->n);
}
}
PBT_PROPERTY("C22", "pull histories over one or two loaders (sharing a dataset or not) with random dataset and batch sizes, given/empty/guarded/wrong tensors, several epochs; non-trivial = more than one full batch and at least one epoch end / batch smaller than the dataset") {
    pbt::facet("histories", 24000, history, 12, 50);
    pbt::large_facet("large", 120, history);
    pbt::marathon_facet("marathon", 60, history);
    pbt::facet("epoch", 120, epoch, 10, 5);
    pbt::facet("shuffle-reach", 800, reach, 8, 10);
}
