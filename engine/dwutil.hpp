// Generators and adaptors between deepworks types and the reference model.
#pragma once
#include <array>
#include <cstdint>
#include <limits>
#include <deepworks/tensor.hpp>
#include "pbt.hpp"
#include "ref.hpp"

namespace dw = deepworks;
using pbt::Case;
using ref::E; using ref::RT;

inline std::string str(const std::vector<int>& s) {
    std::string o = "["; for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + std::to_string(s[i]); return o + "]";
}
inline std::string fstr(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }

enum Style { INTS, UNIT, WIDE, TIES, MIXED, LOGU, NEG, CONST, POS, SAT, EXTREME, OFFSET, SPARSE, TINY, NSTYLES };
inline const char* style_name(int s) {
    static const char* n[] = {"ints", "unit", "wide", "ties", "mixed", "log", "neg", "const", "pos", "sat", "extreme", "offset", "sparse", "tiny"};
    return n[s];
}
inline float style_value(pbt::Expand& x, int style) {
    switch (style) {
        case INTS:  return float(int(x.below(17)) - 8);
        case UNIT:  return float(x.unit() * 2 - 1);
        case WIDE:  return float(x.unit() * 20 - 10);
        case TIES:  { static const float t[] = {-1.5f, -0.5f, 0.f, 0.5f, 2.f}; return t[x.below(5)]; }
        case MIXED: { static const float t[] = {0.f, -0.f, 1.f, -1.f, 1e-3f, -1e-3f, 100.f, -100.f, 1e-20f, -1e-20f, 0.3f, -0.7f};
                      return x.below(2) ? t[x.below(12)] : float(x.unit() * 4 - 2); }
        case LOGU:  { double m = std::exp((x.unit() * 2 - 1) * 9.2); return float(x.below(2) ? m : -m); }
        case NEG:   return float(-0.01 - x.unit() * 5);
        case CONST: return 0.f;
        case POS:   return float(0.01 + x.unit() * 5);
        case EXTREME: { static const float t[] = {0.f, -0.f, 1e37f, -1e37f, 88.f, -88.f, 89.5f, -89.5f, 104.f, -104.f, 1e-37f, -1e-37f, 1e-44f, -1e-44f,
                          1e-8f, -1e-8f, 16.7f, -16.7f, 1000.f, -1000.f, 6e-8f, -6e-8f};
                      if (x.below(2)) return t[x.below(22)];
                      double m = std::exp((x.unit() * 2 - 1) * 84); return float(x.below(2) ? m : -m); }
        case SPARSE: { double u = x.unit() * 2 - 1; return x.below(8) ? 0.f : float(u); }
        case TINY:   { double m = std::exp(-18 - x.unit() * 28); return float(x.below(2) ? m : -m); }
        case OFFSET: return float(1000 + x.unit());
        case SAT:   return float((x.unit() * 2 - 1) * 120);
    }
    return 0;
}
inline int gen_style(Case& c, std::initializer_list<int> allowed) { return *(allowed.begin() + c.draw(allowed.size())); }
constexpr std::initializer_list<int> kGeneral = {INTS, UNIT, WIDE, TIES, MIXED, NEG, POS, LOGU, SPARSE, TINY};

inline void fill(Case& c, float* p, size_t n, int style) {
    if (n <= 12 && c.flag(30)) {            // element-wise choices: small cases shrink to readable numbers
        for (size_t i = 0; i < n; ++i) { pbt::Expand x(c.draw(4096)); p[i] = style_value(x, style); }
        return;
    }
    pbt::Expand x(c.seed32());
    float k = style_value(x, UNIT) * 3;
    for (size_t i = 0; i < n; ++i) p[i] = style == CONST ? k : style_value(x, style);
    if (style == SPARSE && n > 2000 && x.below(2)) {   // a handful of values, one of them near the end
        for (size_t i = 0; i < n; ++i) if (x.below(40)) p[i] = 0;
        p[n - 1 - x.below(6)] = k;
    }
}

// A tensor whose memory is watched: canaries around views, snapshots for
// "unchanged" checks.  Owning tensors rely on AddressSanitizer red zones.
struct GT {
    dw::Tensor t;
    std::shared_ptr<std::vector<float>> store; size_t off = 0;
    std::vector<float> snap;
    static constexpr size_t kGuard = 16;
    static uint32_t canary(size_t i) { return 0x7fc00000u ^ uint32_t(i * 2654435761u >> 9); }

    GT() = default;
    GT(Case& c, const std::vector<int>& shape) {
        size_t n = size_t(ref::total(shape));
        if (c.flag(40)) {
            off = kGuard + c.draw(4);
            store = std::make_shared<std::vector<float>>(off + n + kGuard);
            for (size_t i = 0; i < store->size(); ++i) { uint32_t b = canary(i); memcpy(&(*store)[i], &b, 4); }
            t = dw::Tensor(shape, store->data() + off);
        } else t = dw::Tensor(shape);
        poison();
    }
    void poison() { for (size_t i = 0; i < size(); ++i) t.data()[i] = std::numeric_limits<float>::quiet_NaN(); }
    size_t size() const { return t.total(); }
    float* data() const { return t.data(); }
    void take() { snap.assign(data(), data() + size()); }
    bool unchanged() const { return snap.size() == size() && (snap.empty() || memcmp(snap.data(), data(), snap.size() * 4) == 0); }
    bool guards_ok() const {
        if (!store) return true;
        size_t n = size();
        for (size_t i = 0; i < store->size(); ++i) {
            if (i >= off && i < off + n) continue;
            uint32_t b; memcpy(&b, &(*store)[i], 4);
            if (b != canary(i)) return false;
        }
        return true;
    }
};
inline GT gen_tensor(Case& c, const std::vector<int>& shape, int style) {
    GT g(c, shape); fill(c, g.data(), g.size(), style); g.take(); return g;
}
inline RT to_ref(const dw::Tensor& t) { return RT(t.shape(), t.data()); }

inline void compare(Case& c, const dw::Tensor& got, const RT& want, const std::string& what) {
    if (got.shape() != want.shape) c.fail(what + ": shape " + str(got.shape()) + ", expected " + str(want.shape));
    for (size_t i = 0; i < want.size(); ++i) {
        if (!want[i].known()) c.label("oracle-abstains");
        if (!ref::close(got.data()[i], want[i]))
            c.fail(what + ": element " + std::to_string(i) + " of " + str(want.shape) + " is " + fstr(got.data()[i]) +
                   ", expected " + fstr(want[i].v) + " +- " + fstr(want[i].e));
    }
}
// terms: how many contributions may be added one by one to what is there already (each addition rounds)
inline RT plus(const std::vector<float>& base, const RT& g, double terms = 1) {
    RT r(g.shape); for (size_t i = 0; i < r.size(); ++i) { r[i] = E(base[i]) + g[i]; r[i].e += terms * (ref::R / 4) * std::fabs(base[i]); } return r;
}
