// Reference semantics of the layers, in double precision with a forward error
// bound attached to every value.  E{v, e} means: any evaluation of the same
// mathematical quantity in single precision (any order of summation, fused or
// not) lies within e of v.  The bound uses 4x the rounding unit of float, so a
// rewritten loop stays inside it; a wrong term does not.
#pragma once
#include <cmath>
#include <limits>
#include <numeric>
#include <stdexcept>
#include <vector>
#include <string>

namespace ref {

constexpr double R = 2.4e-7;        // ~ 4 * 2^-24
constexpr double D = 1e-42;         // denormals
constexpr double INF = std::numeric_limits<double>::infinity();

struct E {
    double v = 0, e = 0;
    E() = default;
    E(double x) : v(x), e(0) {}
    E(double x, double err) : v(x), e(err) { if (!(e >= 0)) e = INF; if (!(std::fabs(v) + e < 1e38)) { e = INF; if (!std::isfinite(v)) v = 0; } }
    bool known() const { return e < INF; }
    double lo() const { return v - e; }
    double hi() const { return v + e; }
};
inline double prod(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
inline E rnd(double v, double e) { return E(v, e + R * std::fabs(v) + D); }
inline E operator+(E a, E b) { return rnd(a.v + b.v, a.e + b.e); }
inline E operator-(E a, E b) { return rnd(a.v - b.v, a.e + b.e); }
inline E operator-(E a) { return E(-a.v, a.e); }
inline E operator*(E a, E b) {
    return rnd(a.v * b.v, prod(std::fabs(a.v), b.e) + prod(std::fabs(b.v), a.e) + prod(a.e, b.e));
}
inline E operator/(E a, E b) {
    if (!(b.e < std::fabs(b.v))) return E(0, INF);
    double v = a.v / b.v;
    return rnd(v, (a.e + std::fabs(v) * b.e) / (std::fabs(b.v) - b.e));
}
inline E esqrt(E a) {
    if (!a.known()) return a;
    double v = std::sqrt(std::max(a.v, 0.0));
    double lo = std::sqrt(std::max(a.lo(), 0.0)), hi = std::sqrt(std::max(a.hi(), 0.0));
    return rnd(v, std::max(v - lo, hi - v));
}
inline E eexp(E a) {
    if (!a.known() || a.hi() > 87) return E(0, INF);
    double v = std::exp(a.v);
    return E(v, v * std::expm1(a.e) + 8 * R * v + 1e-37);
}
inline E elog(E a) {
    if (!a.known() || a.lo() < 1e-37) return E(0, INF);
    double v = std::log(a.v);
    return E(v, std::max(std::log(a.hi()) - v, v - std::log(a.lo())) + 8 * R * std::fabs(v) + 4 * R);
}
// "one of the two, not known which"
inline E hull(E a, E b) {
    double lo = std::min(a.lo(), b.lo()), hi = std::max(a.hi(), b.hi());
    return E((lo + hi) / 2, (hi - lo) / 2 + 1e-40);
}

struct Sum {
    double v = 0, a = 0, e = 0; long n = 0;
    void add(E x) { v += x.v; a += std::fabs(x.v); e += x.e; n += x.v != 0 || x.e > D; }      // adding zero costs no rounding
    E get() const { return E(v, e + (n + 2) * R * a + n * D); }
};
// A dot product.  Adding an exact zero costs no rounding, and where every product
// is exact and the sum of magnitudes is below 2^24 of their common unit, so is the
// sum, in whatever order: the tolerance is then zero.
struct Dot {
    double v = 0, a = 0, e = 0, q = INF; long n = 0; bool ex = true;
    static bool exact(double x) { return double(float(x)) == x && std::fabs(x) > 1e-30; }
    void put(E x) {
        if (x.v == 0 && x.e == 0) return;
        v += x.v; a += std::fabs(x.v); e += x.e; ++n;
        if (x.e != 0 || !exact(x.v)) { ex = false; return; }
        int k; double m = std::frexp(x.v, &k); q = std::min(q, std::ldexp(1.0, k - 24 + __builtin_ctz(unsigned(std::fabs(std::ldexp(m, 24))))));
    }
    void add(E x) { put(x); }
    void add(E x, E y) {
        if ((x.v == 0 && x.e == 0 && y.known()) || (y.v == 0 && y.e == 0 && x.known())) return;
        if (ex && x.e == 0 && y.e == 0 && exact(x.v * y.v)) put(E(x.v * y.v)); else { ex = false; E p = x * y; v += p.v; a += std::fabs(p.v); e += p.e; ++n; }
    }
    E get() const { return ex && n && a <= 16777216.0 * q ? E(v) : n ? E(v, e + (n + 2) * R * a + n * D) : E(0.0); }
};

inline bool close(float got, E want) {
    if (!want.known()) return true;
    return std::fabs(double(got) - want.v) <= want.e + 1e-37;
}

using Shape = std::vector<int>;
inline long total(const Shape& s) { long t = 1; for (int d : s) t *= d; return t; }

struct RT {
    Shape shape; std::vector<E> d;
    RT() = default;
    explicit RT(Shape s) : shape(std::move(s)), d(total(shape)) {}
    RT(Shape s, const float* p) : shape(std::move(s)), d(total(shape)) { for (size_t i = 0; i < d.size(); ++i) d[i] = E(p[i]); }
    E& operator[](size_t i) { return d[i]; }
    const E& operator[](size_t i) const { return d[i]; }
    size_t size() const { return d.size(); }
};

// ---- elementwise -----------------------------------------------------------
inline E relu(E x)              { E z(0.0); if (x.e == 0) return x.v > 0 ? x : z; if (!x.known()) return x; if (x.lo() > 0) return x; if (x.hi() < 0) return z; return hull(E(std::max(0.0, x.lo())), E(std::max(0.0, x.hi()))); }
inline E drelu(E x)             { if (x.known() && x.lo() > 0) return E(1.0); if (x.known() && (x.hi() < 0 || (x.e == 0 && x.v == 0))) return E(0.0); return E(0.5, 0.5); }
inline E leaky(E x, double a)   { E y = x * E(a); if (!x.known()) return x; if (x.lo() >= 0) return x; if (x.hi() < 0) return y; return hull(x, y); }
inline E dleaky(E x, double a)  { if (x.known() && x.lo() >= 0) return E(1.0); if (x.known() && x.hi() < 0) return E(a); return hull(E(1.0), E(a)); }
inline E elu(E x, double a)     { if (!x.known()) return x; if (x.lo() >= 0) return x; E y = E(a) * (eexp(x.hi() > 80 ? E(0.0) : x) - E(1.0)); if (x.hi() < 0) return y; return hull(x, y); }
inline E delu(E x, double a)    { if (x.known() && x.lo() >= 0) return E(1.0); if (!x.known()) return x; E y = E(a) * eexp(x); if (x.hi() < 0) return y; return hull(E(1.0), y); }
inline E sigmoid(E x)           {
    if (!x.known()) return x;
    double v = 1 / (1 + std::exp(-x.v));
    // |sigma'| <= 1/4; absolute rounding a few ulp of the result; exp(-x) may over/underflow harmlessly
    return E(v, x.e / 4 + 16 * R * v + 1e-37);
}

// ---- dense -------------------------------------------------------------------
inline RT linear(const RT& x, const RT& W, const RT& b) {
    int N = x.shape[0]; long F = W.shape[1], U = W.shape[0];
    RT y({N, int(U)});
    for (int n = 0; n < N; ++n) for (long u = 0; u < U; ++u) {
        Dot s; for (long f = 0; f < F; ++f) s.add(x[n * F + f], W[u * F + f]);
        s.add(b[u]); y[n * U + u] = s.get();
    }
    return y;
}
inline RT linear_dx(const RT& go, const RT& W, const Shape& xs) {
    int N = xs[0]; long F = W.shape[1], U = W.shape[0];
    RT g(xs);
    for (int n = 0; n < N; ++n) for (long f = 0; f < F; ++f) {
        Dot s; for (long u = 0; u < U; ++u) s.add(go[n * U + u], W[u * F + f]);
        g[n * F + f] = s.get();
    }
    return g;
}
inline RT linear_dW(const RT& go, const RT& x, const Shape& ws) {
    int N = x.shape[0]; long F = ws[1], U = ws[0];
    RT g(ws);
    for (long u = 0; u < U; ++u) for (long f = 0; f < F; ++f) {
        Dot s; for (int n = 0; n < N; ++n) s.add(go[n * U + u], x[n * F + f]);
        g[u * F + f] = s.get();
    }
    return g;
}
inline RT linear_db(const RT& go) {
    int N = go.shape[0], U = go.shape[1];
    RT g({U});
    for (int u = 0; u < U; ++u) { Dot s; for (int n = 0; n < N; ++n) s.add(go[size_t(n) * U + u]); g[u] = s.get(); }
    return g;
}
inline RT softmax(const RT& x) {
    int N = x.shape[0], C = x.shape[1]; RT y(x.shape);
    for (int n = 0; n < N; ++n) {
        double m = -INF; for (int c = 0; c < C; ++c) m = std::max(m, x[size_t(n) * C + c].v);
        std::vector<E> ex(C); Sum s;
        for (int c = 0; c < C; ++c) { ex[c] = eexp(x[size_t(n) * C + c] - E(m)); s.add(ex[c]); }
        for (int c = 0; c < C; ++c) y[size_t(n) * C + c] = ex[c] / s.get();
    }
    return y;
}
inline RT softmax_dx(const RT& y, const RT& go) {
    int N = y.shape[0], C = y.shape[1]; RT g(y.shape);
    for (int n = 0; n < N; ++n) {
        Sum s; for (int c = 0; c < C; ++c) s.add(y[size_t(n) * C + c] * go[size_t(n) * C + c]);
        E k = s.get();
        for (int c = 0; c < C; ++c) g[size_t(n) * C + c] = y[size_t(n) * C + c] * (go[size_t(n) * C + c] - k);
    }
    return g;
}

// ---- convolution / pooling -----------------------------------------------------
struct Win { int k[2], p[2], s[2]; };
inline int out_dim(int in, int k, int p, int s) { return (in + 2 * p - k) / s + 1; }
inline Shape conv_shape(const Shape& x, int oc, const Win& w) {
    return {x[0], oc, out_dim(x[2], w.k[0], w.p[0], w.s[0]), out_dim(x[3], w.k[1], w.p[1], w.s[1])};
}
template <class F> void conv_visit(const Shape& xs, const Shape& ys, const Win& w, F f) {
    for (int n = 0; n < ys[0]; ++n) for (int oh = 0; oh < ys[2]; ++oh) for (int ow = 0; ow < ys[3]; ++ow)
        for (int kh = 0; kh < w.k[0]; ++kh) for (int kw = 0; kw < w.k[1]; ++kw) {
            int ih = oh * w.s[0] - w.p[0] + kh, iw = ow * w.s[1] - w.p[1] + kw;
            if (ih < 0 || iw < 0 || ih >= xs[2] || iw >= xs[3]) continue;
            f(n, oh, ow, kh, kw, ih, iw);
        }
}
inline size_t at4(const Shape& s, int a, int b, int c, int d) { return ((size_t(a) * s[1] + b) * s[2] + c) * s[3] + d; }
inline RT conv(const RT& x, const RT& W, const RT& b, const Win& w) {
    int OC = W.shape[0], IC = W.shape[1]; RT y(conv_shape(x.shape, OC, w));
    std::vector<Dot> acc(y.size());
    conv_visit(x.shape, y.shape, w, [&](int n, int oh, int ow, int kh, int kw, int ih, int iw) {
        for (int oc = 0; oc < OC; ++oc) for (int ic = 0; ic < IC; ++ic)
            acc[at4(y.shape, n, oc, oh, ow)].add(x[at4(x.shape, n, ic, ih, iw)], W[at4(W.shape, oc, ic, kh, kw)]);
    });
    for (int n = 0; n < y.shape[0]; ++n) for (int oc = 0; oc < OC; ++oc) for (int i = 0; i < y.shape[2] * y.shape[3]; ++i) {
        size_t k = (size_t(n) * OC + oc) * y.shape[2] * y.shape[3] + i;
        acc[k].add(b[oc]); y[k] = acc[k].get();
    }
    return y;
}
inline void conv_back(const RT& x, const RT& W, const RT& go, const Win& w, RT& dx, RT& dW, RT& db) {
    int OC = W.shape[0], IC = W.shape[1];
    std::vector<Dot> ax(x.size()), aw(W.size()), ab(OC);
    conv_visit(x.shape, go.shape, w, [&](int n, int oh, int ow, int kh, int kw, int ih, int iw) {
        for (int oc = 0; oc < OC; ++oc) for (int ic = 0; ic < IC; ++ic) {
            E g = go[at4(go.shape, n, oc, oh, ow)];
            ax[at4(x.shape, n, ic, ih, iw)].add(g, W[at4(W.shape, oc, ic, kh, kw)]);
            aw[at4(W.shape, oc, ic, kh, kw)].add(g, x[at4(x.shape, n, ic, ih, iw)]);
        }
    });
    for (int n = 0; n < go.shape[0]; ++n) for (int oc = 0; oc < OC; ++oc) for (int i = 0; i < go.shape[2] * go.shape[3]; ++i)
        ab[oc].add(go[(size_t(n) * OC + oc) * go.shape[2] * go.shape[3] + i]);
    dx = RT(x.shape); dW = RT(W.shape); db = RT({OC});
    for (size_t i = 0; i < ax.size(); ++i) dx[i] = ax[i].get();
    for (size_t i = 0; i < aw.size(); ++i) dW[i] = aw[i].get();
    for (size_t i = 0; i < ab.size(); ++i) db[i] = ab[i].get();
}
// Windows must contain at least one real cell (padding < kernel).
inline RT maxpool(const RT& x, const Win& w) {
    RT y(conv_shape(x.shape, x.shape[1], w));
    std::vector<char> seen(y.size());
    conv_visit(x.shape, y.shape, w, [&](int n, int oh, int ow, int, int, int ih, int iw) {
        for (int c = 0; c < x.shape[1]; ++c) {
            size_t o = at4(y.shape, n, c, oh, ow); E v = x[at4(x.shape, n, c, ih, iw)];
            if (!seen[o]) { y[o] = v; seen[o] = 1; continue; }
            E& cur = y[o];
            double lo = std::max(cur.lo(), v.lo()), hi = std::max(cur.hi(), v.hi()), m = std::max(cur.v, v.v);
            cur = (cur.e == 0 && v.e == 0) ? E(m) : E(m, std::max(m - lo, hi - m));
        }
    });
    return y;
}
// Gradient of max pooling: every output gradient goes to one maximal cell of its
// window; where the maximum is attained (or may be attained) more than once the
// result only bounds each cell.  ties counts such windows.
inline RT maxpool_dx(const RT& x, const RT& go, const Win& w, long* ties = nullptr) {
    RT y = maxpool(x, w);
    std::vector<std::vector<size_t>> cand(y.size());
    conv_visit(x.shape, y.shape, w, [&](int n, int oh, int ow, int, int, int ih, int iw) {
        for (int c = 0; c < x.shape[1]; ++c) {
            size_t o = at4(y.shape, n, c, oh, ow), i = at4(x.shape, n, c, ih, iw);
            if (!x[i].known() || !y[o].known() || x[i].hi() >= y[o].lo()) cand[o].push_back(i);
        }
    });
    std::vector<Sum> acc(x.size());
    long t = 0;
    for (size_t o = 0; o < y.size(); ++o) {
        if (cand[o].size() == 1) acc[cand[o][0]].add(go[o]);
        else { ++t; for (size_t i : cand[o]) acc[i].add(hull(E(0.0), go[o])); }
    }
    RT g(x.shape);
    for (size_t i = 0; i < g.size(); ++i) g[i] = acc[i].get();
    if (ties) *ties = t;
    return g;
}
inline RT gap(const RT& x) {
    RT y({x.shape[0], x.shape[1], 1, 1}); int P = x.shape[2] * x.shape[3];
    for (size_t i = 0; i < y.size(); ++i) { Sum s; for (int k = 0; k < P; ++k) s.add(x[i * P + k]); y[i] = s.get() / E(P); }
    return y;
}
inline RT gap_dx(const RT& go, const Shape& xs) {
    RT g(xs); int P = xs[2] * xs[3];
    for (size_t i = 0; i < go.size(); ++i) for (int k = 0; k < P; ++k) g[i * P + k] = go[i] / E(P);
    return g;
}

// ---- batch normalisation ---------------------------------------------------------
// View x as [M rows, C features]: idx(m, c) -> flat index.
struct BNView {
    int C; long M; bool four; int HW;
    explicit BNView(const Shape& s) {
        C = s[1]; four = s.size() == 4; HW = four ? s[2] * s[3] : 1; M = long(s[0]) * HW;
    }
    size_t idx(long m, int c) const { return four ? (size_t(m / HW) * C + c) * HW + m % HW : size_t(m) * C + c; }
};
struct BNState { RT rmean, rvar; };
struct BNCache { std::vector<E> mean, var, sd; RT xc; };
inline RT batchnorm(const RT& x, const RT& gamma, const RT& beta, double eps, double alpha, bool train, BNState& st, BNCache& ca) {
    BNView v(x.shape); RT y(x.shape);
    ca.mean.assign(v.C, E()); ca.var = ca.mean; ca.sd = ca.mean; ca.xc = RT(x.shape);
    for (int c = 0; c < v.C; ++c) {
        E mean, var;
        if (train) {
            Sum s; for (long m = 0; m < v.M; ++m) s.add(x[v.idx(m, c)]);
            mean = s.get() / E(double(v.M));
            Sum q; for (long m = 0; m < v.M; ++m) { E d = x[v.idx(m, c)] - mean; q.add(d * d); }
            var = q.get() / E(double(v.M));
        } else { mean = st.rmean[c]; var = st.rvar[c]; }
        E sd = esqrt(var + E(eps));
        for (long m = 0; m < v.M; ++m) {
            size_t i = v.idx(m, c);
            ca.xc[i] = x[i] - mean;
            y[i] = ca.xc[i] * (gamma[c] / sd) + beta[c];
        }
        if (train) {
            st.rmean[c] = st.rmean[c] * E(alpha) + mean * (E(1.0) - E(alpha));
            st.rvar[c]  = st.rvar[c]  * E(alpha) + var  * (E(1.0) - E(alpha));
        }
        ca.mean[c] = mean; ca.var[c] = var; ca.sd[c] = sd;
    }
    return y;
}
inline void batchnorm_back(const RT& go, const RT& gamma, const BNCache& ca, RT& dx, RT& dgamma, RT& dbeta) {
    const Shape& sh = ca.xc.shape; BNView v(sh);
    dx = RT(sh); dgamma = RT({v.C}); dbeta = RT({v.C});
    for (int c = 0; c < v.C; ++c) {
        Sum sb, sg; 
        for (long m = 0; m < v.M; ++m) { size_t i = v.idx(m, c); sb.add(go[i]); sg.add(go[i] * (ca.xc[i] / ca.sd[c])); }
        dbeta[c] = sb.get(); dgamma[c] = sg.get();
        E invM(1.0 / v.M);
        for (long m = 0; m < v.M; ++m) {
            size_t i = v.idx(m, c);
            E xn = ca.xc[i] / ca.sd[c];
            E t = go[i] - dbeta[c] * invM - xn * (dgamma[c] * invM);
            E r = (gamma[c] / ca.sd[c]) * t;
            // slack for other groupings of the same formula
            double scale = std::fabs(gamma[c].v / ca.sd[c].v) *
                           (std::fabs(go[i].v) + (sb.a / v.M) + std::fabs(xn.v) * (sg.a / v.M));
            dx[i] = E(r.v, r.e + 16 * R * scale + double(v.M) * R * scale);
        }
    }
}

} // namespace ref
