// C04: initialisers.
#include <thread>
#include "dwutil.hpp"
#include <deepworks/initializers.hpp>
namespace {
std::vector<int> gshape(Case& c, int64_t lo, int64_t hi) {      // total in [lo, hi], any rank
    if (pbt::big()) lo = int64_t(std::exp(c.real(std::log(double(lo)), std::log(double(hi)))));
    int rank = int(c.integer(1, 5)); std::vector<int> s(rank, 1);
    int64_t tot = 1;
    for (int i = 0; i + 1 < rank; ++i) { s[i] = int(c.sized(1, 6, 40, 20)); if (tot * s[i] > hi) s[i] = 1; tot *= s[i]; }
    int64_t need = std::max<int64_t>(1, (lo + tot - 1) / tot), room = std::max<int64_t>(need, hi / tot);
    s[rank - 1] = int(c.integer(need, std::min(room, need * 2 + 8)));
    if (c.flag()) c.shuffle(s.begin(), s.end());
    return s;
}
void constants(Case& c) {
    auto s = pbt::big() ? gshape(c, 3000, 2000000) : gshape(c, 1, 3000); GT a(c, s);
    int mode = int(c.draw(4)); float v = mode & 1 ? float(c.pick({0.0, 1.0, -1.0, 1e-20, 1e20, -0.5, 3.25, 12345.678, -0.0, 1e-44})) : 0.f;
    c.desc << (mode & 1 ? "constant " + fstr(v) : std::string("zeros")) << " " << str(s); c.publish();
    dw::Tensor made;
    switch (mode) {
    case 0: dw::initializer::zeros(a.t); break;
    case 1: dw::initializer::constant(a.t, v); break;
    case 2: made = dw::Tensor::zeros(s); break;
    case 3: made = dw::Tensor::constant(s, v); break;
    }
    const dw::Tensor& t = mode < 2 ? a.t : made;
    c.check(t.shape() == s, "wrong shape");
    for (size_t i = 0; i < t.total(); ++i) if (!(t.data()[i] == v) || (mode & 1 && std::signbit(t.data()[i]) != std::signbit(v))) c.fail("element " + std::to_string(i) + " is " + fstr(t.data()[i]));
    c.check(a.guards_ok(), "memory next to the tensor was written");
    c.nontrivial(t.total() > 1);
}
// Every bound below is at least 9 standard deviations wide, and the generator is
// a deterministic function of VERIF_SEED, so this cannot fail by chance.
void spread(Case& c, const float* p, size_t n, double lo, double hi, const char* what) {
    double w = hi - lo, slack = 1e-6 * (std::fabs(lo) + std::fabs(hi));
    double sum = 0, sq = 0, lag = 0; std::vector<int> bucket(8); double mn = 1e300, mx = -1e300;
    for (size_t i = 0; i < n; ++i) {
        double v = p[i];
        if (!(v >= lo - slack && v <= hi + slack))
            c.fail(std::string(what) + ": element " + std::to_string(i) + " = " + fstr(v) + " outside [" + fstr(lo) + ", " + fstr(hi) + "]");
        double u = (v - lo) / w; sum += u; sq += u * u; mn = std::min(mn, u); mx = std::max(mx, u);
        bucket[std::min(7, std::max(0, int(u * 8)))]++;
        if (i) lag += (u - 0.5) * ((p[i - 1] - lo) / w - 0.5);
    }
    if (n < 1500) {
        if (n >= 40) { bool same = true; for (size_t i = 1; i < n; ++i) same &= p[i] == p[0]; c.check(!same, std::string(what) + ": all elements equal"); }
        return;
    }
    double sd = 0.2887 / std::sqrt(double(n));
    if (std::fabs(sum / n - 0.5) > 9 * sd) c.fail(std::string(what) + ": mean " + fstr(sum / n) + " of the unit-scaled values");
    if (mn > 25.0 / n || mx < 1 - 25.0 / n) c.fail(std::string(what) + ": values do not reach both ends (" + fstr(mn) + ".." + fstr(mx) + " of the interval)");
    for (int b : bucket) if (std::fabs(b - n / 8.0) > 9 * std::sqrt(n * 0.125 * 0.875)) c.fail(std::string(what) + ": uneven spread over the interval");
    if (std::fabs(lag / (n - 1)) > 9 * (1.0 / 12) / std::sqrt(double(n - 1))) c.fail(std::string(what) + ": neighbouring values are correlated");
    // as many different values as independent draws give, given the resolution of float in the interval
    std::vector<float> so(p, p + n); std::sort(so.begin(), so.end()); double same = 0; for (size_t i = 0; i + 1 < n; ++i) same += so[i] == so[i + 1];
    double big = std::max(std::fabs(lo), std::fabs(hi)), D = std::min(8388608.0, w / (double(std::nextafter(float(big), 1e30f)) - float(big))), expect = n - D * (1 - std::exp(-double(n) / D));
    size_t dup = 0; for (size_t i = 0; i + 1 < n; ++i) dup += p[i] == p[i + 1];
    if (double(dup) > 8 + 2 * n / D + 9 * std::sqrt(n / D)) c.fail(std::string(what) + ": repeated values");
    if (same > 2 * expect + 60) c.fail(std::string(what) + ": " + fstr(same) + " of " + std::to_string(n) + " values occur more than once");
}
// another fill draws other values
template <class F> void fresh(Case& c, const dw::Tensor& t, F f) {
    if (t.total() < 40) return;
    dw::Tensor u(t.shape()); f(u); size_t same = 0, n = t.total(); double ma = 0, mb = 0;
    for (size_t i = 0; i < n; ++i) { same += u.data()[i] == t.data()[i]; ma += t.data()[i]; mb += u.data()[i]; }
    if (same > n / 2) c.fail("two fills in a row give the same " + std::to_string(same) + " of " + std::to_string(n) + " values");
    if (n < 1500) return;
    ma /= n; mb /= n; double va = 0, vb = 0, ab = 0; for (size_t i = 0; i < n; ++i) { double x = t.data()[i] - ma, y = u.data()[i] - mb; va += x * x; vb += y * y; ab += x * y; }
    if (std::fabs(ab) > 9 * std::sqrt(va * vb / n)) c.fail("two fills in a row are correlated");
}
void uniform(Case& c, bool big) {
    auto s = pbt::big() ? gshape(c, 6000, 1000000) : big ? gshape(c, 2000, 6000) : gshape(c, 1, 200); GT a(c, s);
    double lo = 0, hi = 1; bool def = c.flag(20);
    if (!def) { lo = c.pick({0.0, -1.0, -0.25, 3.0, -1000.0, 1e-3}); hi = lo + c.pick({1.0, 0.5, 2.0, 100.0, 1e-2}); if (lo < -100 && hi - lo < 1) hi = lo + 1; /* enough distinct floats */ }
    float flo = float(lo), fhi = float(hi);
    c.desc << "uniform(" << flo << "," << fhi << ") " << str(s); c.publish();
    bool factory = c.flag(30); dw::Tensor made;
    if (factory) made = def ? dw::Tensor::uniform(s) : dw::Tensor::uniform(s, flo, fhi);
    else if (def) dw::initializer::uniform(a.t); else dw::initializer::uniform(a.t, flo, fhi);
    const dw::Tensor& t = factory ? made : a.t;
    c.check(t.shape() == s, "wrong shape");
    for (size_t i = 0; i < t.total(); ++i) if (!(t.data()[i] >= flo && t.data()[i] <= fhi)) c.fail("uniform: element " + std::to_string(i) + " = " + fstr(t.data()[i]) + " outside the interval");
    spread(c, t.data(), t.total(), flo, fhi, "uniform");
    c.check(a.guards_ok(), "memory next to the tensor was written");
    fresh(c, t, [&](dw::Tensor& u) { dw::initializer::uniform(u, flo, fhi); });
    c.nontrivial(t.total() > 40);
}
// fills made by different threads, one after the other
void threads(Case& c) {
    auto s = gshape(c, 60, 400); int n = int(c.integer(2, 4)); bool xav = c.flag();
    c.desc << n << " threads, one after the other, fill " << str(s) << (xav ? " (xavier)" : " (uniform)"); c.publish();
    std::vector<dw::Tensor> v; for (int i = 0; i < n; ++i) v.emplace_back(s);
    for (auto& t : v) std::thread([&] { if (xav) dw::initializer::xavierUniform(t); else dw::initializer::uniform(t); }).join();
    for (int i = 1; i < n; ++i) for (int j = 0; j < i; ++j) { size_t same = 0; for (size_t k = 0; k < v[i].total(); ++k) same += v[i].data()[k] == v[j].data()[k]; c.check(same <= v[i].total() / 2, "two threads' fills give the same " + std::to_string(same) + " of " + std::to_string(v[i].total()) + " values"); }
    c.nontrivial();
}
void xavier(Case& c, bool big) {
    auto s = pbt::big() ? gshape(c, 9000, 1000000) : big ? gshape(c, 2000, 9000) : gshape(c, 1, 300); GT a(c, s);
    double total = double(ref::total(s));
    double fin = s.size() == 2 ? s[0] : total / s[0], fout = s.size() == 2 ? s[1] : s[0];
    double bound = std::sqrt(6.0 / (fin + fout));
    c.desc << "xavierUniform " << str(s) << " bound " << bound; c.publish();
    bool factory = c.flag(40); dw::Tensor made;
    if (factory) made = dw::Tensor::xavierUniform(s); else dw::initializer::xavierUniform(a.t);
    const dw::Tensor& t = factory ? made : a.t;
    c.check(t.shape() == s, "wrong shape");
    if (t.total() < 1500) spread(c, t.data(), t.total(), -bound, bound, "xavierUniform");
    else {
        // Known finding: the code uses sqrt(6)/(fan_in+fan_out).  Exactly that interval is
        // recognised (and reported as the listed finding); any other is a violation.
        std::string why;
        try { spread(c, t.data(), t.total(), -bound, bound, "xavierUniform"); }
        catch (const pbt::Failure& f) { why = f.m; }
        if (!why.empty()) {
            double known = std::sqrt(6.0) / (fin + fout);
            try { spread(c, t.data(), t.total(), -known, known, "xavierUniform"); }
            catch (const pbt::Failure& f) { c.fail(why + " [and not the listed finding: " + f.m + "]"); }
            c.label("KNOWN:xavier-bound");
        }
    }
    c.check(a.guards_ok(), "memory next to the tensor was written");
    fresh(c, t, [](dw::Tensor& u) { dw::initializer::xavierUniform(u); });
    c.label("rank" + std::to_string(s.size()));
    c.nontrivial(t.total() > 40);
}
}
PBT_PROPERTY("C04", "random shapes/intervals; range checked for every element, spread (mean, both ends, 8 buckets, neighbour correlation) for tensors of 1500+ elements; non-trivial = more than one element (constants), more than 40 elements (random fills)") {
    pbt::facet("constants", 8000, constants, 10, 100);
    pbt::facet("uniform-range", 8000, [](Case& c) { uniform(c, false); }, 10, 20);
    pbt::facet("uniform-spread", 4000, [](Case& c) { uniform(c, true); }, 10, 5);
    pbt::facet("xavier-range", 8000, [](Case& c) { xavier(c, false); }, 10, 20);
    pbt::facet("xavier-spread", 4000, [](Case& c) { xavier(c, true); }, 10, 5);
    pbt::facet("threads", 600, threads, 8, 30);
    pbt::large_facet("constants-large", 100, constants);
    pbt::large_facet("uniform-large", 60, [](Case& c) { uniform(c, true); });
    pbt::large_facet("xavier-large", 60, [](Case& c) { xavier(c, true); });
    pbt::Registry::get().assumptions = {"statistical bounds are at least 9 standard deviations wide and the entropy source is seeded from VERIF_SEED"};
}
