// C17: shapes, parameters, make_layer and rejection.
#include "zoo.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
void check_info(Case& c, const Spec& sp, const dw::LayerInfo& info, const ref::Shape& s, const std::string& name, const char* how) {
    std::string w = std::string(how) + " " + sp.str() + " on " + str(s) + ": ";
    c.check(info.name() == name, w + "name " + info.name());
    c.check(info.type() == sp.type(), w + "type " + info.type());
    auto P = sp.params(s), B = sp.buffers(s);
    c.check(info.params().size() == P.size(), w + "number of parameters " + std::to_string(info.params().size()));
    c.check(info.buffers().size() == B.size(), w + "number of buffers");
    for (auto& kv : P) {
        c.check(info.params().count(kv.first), w + "no parameter " + kv.first);
        auto p = info.params().at(kv.first); auto t = p.data();
        c.check(t.shape() == kv.second, w + kv.first + " has shape " + str(t.shape()) + ", expected " + str(kv.second));
        c.check(p.grad().shape() == kv.second, w + "gradient of " + kv.first + " has shape " + str(p.grad().shape()));
        c.check(p.is_trainable(), w + kv.first + " is not trainable");
        for (size_t i = 0; i < p.grad().total(); ++i) c.check(p.grad().data()[i] == 0.f, w + "gradient of " + kv.first + " is not zero initially");
        if (kv.first == "weight") {
            double fin = kv.second.size() == 2 ? kv.second[0] : double(t.total()) / kv.second[0], fout = kv.second.size() == 2 ? kv.second[1] : kv.second[0];
            double bound = std::sqrt(6.0 / (fin + fout)) * 1.00001; bool same = t.total() > 6, zero = false;
            for (size_t i = 0; i < t.total(); ++i) { c.check(std::fabs(t.data()[i]) <= bound, w + "initial weight " + fstr(t.data()[i]) + " outside +-" + fstr(bound)); same &= t.data()[i] == t.data()[0]; }
            c.check(!same, w + "all initial weights are equal");
        } else {
            float v = kv.first == "gamma" ? 1.f : 0.f;
            for (size_t i = 0; i < t.total(); ++i) c.check(t.data()[i] == v, w + "initial " + kv.first + " is " + fstr(t.data()[i]));
        }
    }
    for (auto& kv : B) {
        auto t = info.buffers().at(kv.first);
        c.check(t.shape() == kv.second, w + kv.first + " has shape " + str(t.shape()));
        for (size_t i = 0; i < t.total(); ++i) c.check(t.data()[i] == 0.f, w + "initial " + kv.first + " is " + fstr(t.data()[i]));
    }
    auto want = sp.attrs(); auto& got = info.impl().attrs;
    c.check(got.size() == want.size(), w + "number of attributes");
    for (auto& kv : want) {
        c.check(got.count(kv.first), w + "no attribute " + kv.first);
        auto& g = got.at(kv.first);
        c.check(g.type() == kv.second.type() && g.shape() == kv.second.shape(), w + "attribute type of " + kv.first);
        bool eq = g.shape() == dw::AttrShape::ARRAY2 ? g.get<std::array<int, 2>>() == kv.second.get<std::array<int, 2>>()
                : g.type() == dw::AttrType::INT ? g.get<int>() == kv.second.get<int>() : g.get<float>() == kv.second.get<float>();
        c.check(eq, w + "value of attribute " + kv.first);
    }
}
void good(Case& c, int kind, bool wide = false) {
    Spec sp = gen_spec(c, kind); auto s = gen_in_shape(c, sp);
    if (wide) {                                       // very many features, channels or classes for one sample
        int N = int(c.integer(1, 2)); sp.n = int(c.integer(1, 3));
        if (kind == K_LINEAR) { s = large_shape(c, 20000, 300000, 1, 3); s.insert(s.begin(), N); }
        else if (kind == K_CONV) { if (c.flag()) { s = {N, int(c.integer(200, 3000)), 3, 3}; } else { sp.n = int(c.integer(200, 3000)); s = {N, 1, 3, 3}; } sp.g = Geo{{}, {2, 2}, {0, 0}, {1, 1}}; for (int a = 0; a < 2; ++a) { sp.g.w.k[a] = 2; sp.g.w.p[a] = 0; sp.g.w.s[a] = 1; } }
        else s = {N, int(c.integer(20000, kind == K_BN1 ? 80000 : 300000))};
    }
    std::string name = c.pick(std::vector<std::string>{"", "a", "layer.1", "Conv 3", "x/y"});
    c.desc << sp.str() << " " << str(s); c.publish();
    dw::Placeholders in; for (int i = 0; i < sp.arity(); ++i) in.emplace_back(s);
    auto d = sp.direct(in, name), m = sp.made(in, name);
    auto want = sp.out(s);
    c.check(d.shape() == want, "announced shape " + str(d.shape()) + ", expected " + str(want));
    c.check(m.shape() == want, "make_layer announced shape " + str(m.shape()) + ", expected " + str(want));
    check_info(c, sp, info_of(d), s, name, "directly built"); check_info(c, sp, info_of(m), s, name, "make_layer");
    // the computation fills exactly the announced shape, and both constructions compute the same
    Rig A = rig_of(d), B = rig_of(m);
    randomize_params(c, A); copy_state(A, B);
    if (kind == K_DROP) { A.train(false); B.train(false); }
    std::vector<GT> x; for (int i = 0; i < sp.arity(); ++i) x.push_back(gen_tensor(c, s, UNIT));
    Call fa, fb; fa.forward(c, A, x, d.shape()); fb.forward(c, B, x, m.shape());
    for (size_t i = 0; i < fa.y.size(); ++i) c.check(std::isfinite(fa.y.data()[i]), "element " + std::to_string(i) + " of the announced output was never computed");
    near(c, fb.y.t, fa.y.t, "make_layer layer vs direct layer", 1e-4);
    c.nontrivial(sp.attrs().size() > 0 || ref::total(s) > 1);
}
ref::Shape of_rank(Case& c, int rank) { ref::Shape s(rank); for (auto& d : s) d = int(c.integer(1, 5)); return s; }
void bad(Case& c) {
    int what = int(c.draw(6)); Spec sp; std::string d; bool threw = false;
    switch (what) {
    case 0: {                                         // unknown type
        sp = gen_spec(c, int(c.draw(K_COUNT))); auto s = gen_in_shape(c, sp);
        std::string t = sp.type();
        switch (c.draw(6)) { case 0: t += "x"; break; case 1: t[0] = char(tolower(t[0])); break; case 2: t = ""; break; case 3: t = t.substr(0, t.size() - 1); break; case 4: t = " " + t; break; case 5: t = sp.type() + sp.type(); break; }
        bool known = false; for (int k = 0; k < K_COUNT; ++k) known |= t == kind_name(k);
        if (known) return;
        d = "unknown type '" + t + "'"; c.desc << d; c.publish();
        dw::Placeholders in; for (int i = 0; i < sp.arity(); ++i) in.emplace_back(s);
        threw = throws([&] { dw::make_layer(t, "n", sp.attrs(), in); }); break;
    }
    case 1: {                                         // one attribute missing
        do sp = gen_spec(c, int(c.draw(K_COUNT))); while (sp.attrs().empty());
        auto s = gen_in_shape(c, sp); auto names = sp.attr_names(); auto gone = c.pick(names); auto a = sp.attrs(); a.erase(gone);
        if (c.flag(30)) a[gone + "_"] = 1;
        d = sp.type() + " without " + gone; c.desc << d; c.publish();
        threw = throws([&] { dw::make_layer(sp.type(), "n", a, {dw::Placeholder(s)}); }); break;
    }
    case 2: {                                         // wrong rank, at build time or at the latest when run
        int kind = c.pick({K_LINEAR, K_CONV, K_POOL, K_GAP, K_BN2, K_BN1, K_SOFTMAX});
        sp = gen_spec(c, kind); sp.g.p = {0, 0}; if (kind == K_POOL || kind == K_CONV) { sp.g.k = {1, 1}; }
        int rank; do rank = kind == K_LINEAR ? 1 : int(c.integer(1, 6)); while (rank == ((kind == K_BN1 || kind == K_SOFTMAX) ? 2 : 4));
        auto s = of_rank(c, rank);
        d = sp.str() + " on " + str(s); c.desc << d; c.publish();
        bool mk = c.flag();
        threw = throws([&] {
            dw::Placeholder in(s), out = mk ? sp.made({in}, "n") : sp.direct({in}, "n");
            Rig r = rig_of(out); dw::Tensor x(s), y(out.shape()); std::vector<dw::Tensor> ys{y};
            dw::initializer::zeros(x); r.layer->forward({x}, ys);
        }); break;
    }
    case 3: {
        auto s = any_shape(c, 400, 1, 4), t = s;
        switch (c.draw(3)) { case 0: t[c.draw(t.size())] += 1; break; case 1: t.push_back(1); break; case 2: if (t.size() > 1 && t[0] != t.back()) std::swap(t[0], t.back()); else t[0] += 2; break; }
        if (c.flag()) std::swap(s, t);
        d = "Add of " + str(s) + " and " + str(t); c.desc << d; c.publish();
        bool mk = c.flag();
        threw = throws([&] { dw::Placeholder a(s), b(t); if (mk) dw::make_layer("Add", "n", {}, {a, b}); else dw::Add("n")(a, b); }); break;
    }
    }
    if (what == 5) {                                  // a window that is no window, or does not fit
        sp = gen_spec(c, c.flag() ? int(K_CONV) : int(K_POOL)); auto s = gen_in_shape(c, sp); int a = int(c.draw(2)); auto& g = sp.g;
        switch (c.draw(4)) {
        case 0: g.k[a] = -int(c.draw(3)); break;
        case 1: g.s[a] = -int(c.draw(3)); break;
        case 2: g.p[a] = -1 - int(c.draw(3)); break;
        default: g.k[a] = s[2 + a] + 2 * g.p[a] + 1 + int(c.draw(3)); break;
        }
        d = sp.str() + " on " + str(s); c.desc << d; c.publish();
        bool mk = c.flag(); threw = throws([&] { if (mk) sp.made({dw::Placeholder(s)}, "n"); else sp.direct({dw::Placeholder(s)}, "n"); });
    }
    if (what == 4) {                                  // wrong number of inputs
        sp = gen_spec(c, c.flag(30) ? int(K_ADD) : int(c.draw(K_COUNT))); auto s = gen_in_shape(c, sp);
        int n; do n = int(c.integer(0, 4)); while (n == sp.arity());
        d = sp.str() + " given " + std::to_string(n) + " inputs of shape " + str(s); c.desc << d; c.publish();
        dw::Placeholders in; for (int i = 0; i < n; ++i) in.emplace_back(s);
        threw = throws([&] { sp.made(in, "n"); });
    }
    c.check(threw, d + " was accepted"); c.label("rejected-" + std::to_string(what)); c.nontrivial();
}
// a layer object run on tensors that do not fit it
void misrun(Case& c) {
    int kind = c.pick({K_RELU, K_LEAKY, K_ELU, K_SIGMOID, K_DROP, K_SOFTMAX, K_BN1, K_BN2, K_LINEAR});
    bool same = kind == K_RELU || kind == K_LEAKY || kind == K_ELU || kind == K_SIGMOID || kind == K_DROP;
    Spec sp = gen_spec(c, kind); auto s = gen_in_shape(c, sp); auto p = sp.direct({dw::Placeholder(s)}, ""); Rig r = rig_of(p); auto os = p.shape();
    if (c.flag(30)) r.train(false);
    int nx = 1, ny = 1; ref::Shape xs = s, ys = os; std::string d;
    auto other_rank = [&](const ref::Shape& t) { int k; do k = kind == K_LINEAR ? 1 : int(c.integer(1, 5)); while (k == int(t.size())); ref::Shape q(k, 1); q[0] = int(ref::total(t)); return q; };
    switch (c.draw(4)) {
    case 0: nx = c.pick({0, 2, 3}); d = std::to_string(nx) + " inputs"; break;
    case 1: ny = c.pick({0, 2, 3}); d = std::to_string(ny) + " outputs"; break;
    case 2: if (same) { ys[c.draw(ys.size())] += 1; } else ys = other_rank(os); d = "output " + str(ys); break;
    default: if (same) { if (c.flag()) xs.push_back(1); else xs[c.draw(xs.size())] += 1; } else xs = other_rank(s); d = "input " + str(xs); break;
    }
    d = sp.str() + " built for " + str(s) + ", run with " + d; c.desc << d; c.publish();
    std::vector<dw::Tensor> x, y; for (int i = 0; i < nx; ++i) x.push_back(dw::Tensor::constant(xs, 0.5f)); for (int i = 0; i < ny; ++i) y.push_back(dw::Tensor::constant(ys, 4.f));
    c.check(throws([&] { r.layer->forward(x, y); }), d + ": no exception");
    for (auto& t : y) for (size_t i = 0; i < t.total(); ++i) c.check(t.data()[i] == 4.f, d + ": rejected, but the output was written");
    c.nontrivial();
}
// one operation object applied to several inputs: its parameters are shared, or the application is rejected
void reapply(Case& c) {
    Spec sp = gen_spec(c, int(c.draw(K_COUNT))); auto s = gen_in_shape(c, sp), q = s; bool lin = sp.kind == K_LINEAR;
    switch (c.draw(4)) {
    case 0: q[0] = int(c.integer(1, 6)); break;                      // another batch size
    case 1: q = gen_in_shape(c, sp); break;
    case 2: q[c.draw(q.size())] += int(c.integer(1, 4)); break;
    default: if (lin && s.size() > 2) q = {s[0], int(ref::total(s)) / s[0]}; else if (q.size() > 1) std::swap(q[0], q[1]); break;
    }
    auto w1 = sp.out(s), w2 = w1; try { w2 = sp.out(q); } catch (const std::exception&) { return; }
    if (sp.kind == K_CONV || sp.kind == K_POOL) for (int a = 0; a < 2; ++a) if (sp.g.k[a] > q[2 + a] + 2 * sp.g.p[a]) return;
    bool fits = sp.params(s) == sp.params(q) && sp.buffers(s) == sp.buffers(q);
    std::string d = sp.str() + " applied to " + str(s) + " and then to " + str(q); c.desc << d; c.publish();
    auto many = [&](const ref::Shape& t) { dw::Placeholders in; for (int i = 0; i < sp.arity(); ++i) in.emplace_back(t); return in; };
    dw::Placeholders out; bool threw = false; std::map<std::string, std::pair<const float*, std::vector<float>>> before; 
    auto values = [](const dw::LayerInfo& i) { std::map<std::string, std::pair<const float*, std::vector<float>>> r; for (auto& kv : i.params()) r[kv.first] = {kv.second.data().data(), flat(kv.second.data())}; for (auto& kv : i.buffers()) r[kv.first] = {kv.second.data(), flat(kv.second)}; return r; };
    dw::Placeholder first(s);
    auto then = [&](dw::Placeholders& r) { if (r.size() == 1) { first = r[0]; Rig A = rig_of(first); randomize_params(c, A); before = values(info_of(first)); } };
    auto kept = [&] { auto after = values(info_of(first)); c.check(after.size() == before.size(), d + ": other parameters"); for (auto& kv : before) { c.check(after.count(kv.first) && after[kv.first].first == kv.second.first, d + ": " + kv.first + " has other storage"); c.check(after[kv.first].second == kv.second.second, d + ": " + kv.first + " changed"); } };
    try {
        out = sp.apply({many(s), many(q)}, "n", then);
        if (!fits) {                                                 // at the latest when it is run
            Rig r = rig_of(out[1]); std::vector<dw::Tensor> x, y{dw::Tensor::constant(out[1].shape(), 4.f)}; for (int i = 0; i < sp.arity(); ++i) x.push_back(dw::Tensor::constant(q, 0.5f));
            r.layer->forward(x, y);
        }
    } catch (const std::exception&) { threw = true; }
    kept();
    c.check(threw == !fits, d + (threw ? " was rejected although its parameters fit" : " was accepted although its parameters do not fit"));
    c.label(fits ? "shared" : "rejected-reapplied"); c.nontrivial(s != q && !sp.params(s).empty());
    if (threw) return;
    c.check(out[0].shape() == w1 && out[1].shape() == w2, d + ": announced shapes " + str(out[0].shape()) + " and " + str(out[1].shape()));
    for (auto& kv : info_of(out[0]).params()) c.check(info_of(out[1]).params().at(kv.first).data().data() == kv.second.data().data(), d + ": " + kv.first + " is not shared");
    for (auto& kv : info_of(out[0]).buffers()) c.check(info_of(out[1]).buffers().at(kv.first).data() == kv.second.data(), d + ": " + kv.first + " is not shared");
    Rig A = rig_of(out[0]), B = rig_of(out[1]), F = rig_of(sp.direct(many(q), "n"));
    copy_state(B, F); if (sp.kind == K_DROP || c.flag(30)) { B.train(false); F.train(false); }
    std::vector<GT> x; for (int i = 0; i < sp.arity(); ++i) x.push_back(gen_tensor(c, q, UNIT));
    Call fb, ff; fb.forward(c, B, x, w2); ff.forward(c, F, x, w2);
    near(c, fb.y.t, ff.y.t, d + ": result", 1e-4);
}
// gradients asked of a layer that needs a forward run first
void early(Case& c) {
    int kind = c.flag() ? int(K_CONV) : int(K_POOL); Spec sp = gen_spec(c, kind); auto s = gen_in_shape(c, sp); auto p = sp.direct({dw::Placeholder(s)}, ""); Rig r = rig_of(p);
    std::string d = sp.str() + " on " + str(s) + ": gradients without a forward run"; c.desc << d; c.publish();
    std::vector<dw::Tensor> x{dw::Tensor::constant(s, 0.5f)}, y{dw::Tensor::constant(p.shape(), 4.f)}, g{dw::Tensor::constant(p.shape(), 1.f)}, gx{dw::Tensor::constant(s, 2.f)};
    c.check(throws([&] { r.layer->updateGradients(x, g); r.layer->backward(x, y, g, gx); }), d + " were computed");
    for (size_t i = 0; i < gx[0].total(); ++i) c.check(gx[0].data()[i] == 2.f, d + ": rejected, but the input gradient was written");
    c.nontrivial();
}
}
PBT_PROPERTY("C17", "every layer type with random attributes and input shapes, built directly and through make_layer; separately, unknown types, missing attributes, unsupported ranks, mismatched Add inputs, impossible windows, tensors that do not fit at run time; non-trivial = layer has attributes or more than one element / a rejection was exercised") {
    for (int k = 0; k < K_COUNT; ++k) pbt::large_facet(std::string(kind_name(k)) + "-large", 25, [k](Case& c) { good(c, k); });
    for (int k = 0; k < K_COUNT; ++k) pbt::facet(kind_name(k), 2500, [k](Case& c) { good(c, k); }, 15, 50);
    for (int k : {K_LINEAR, K_CONV, K_SOFTMAX, K_BN1}) pbt::large_facet(std::string(kind_name(k)) + "-wide", 25, [k](Case& c) { good(c, k, true); });
    pbt::facet("rejection", 14000, bad, 10, 100);
    pbt::facet("misrun", 6000, misrun, 10, 100);
    pbt::facet("reapply", 12000, reapply, 10, 100);
    pbt::facet("early", 1500, early, 10, 100);
}
