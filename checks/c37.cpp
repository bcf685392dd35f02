// C37: parameters, layer descriptions and layers are shared handles; attributes are values.
#include <deque>
#include <memory>
#include <deepworks/layer.hpp>
#include <deepworks/layer_info.hpp>
#include <deepworks/parameter.hpp>
#include <deepworks/placeholder.hpp>
#include "layerutil.hpp"
namespace {
// What one parameter must look like, whoever looks at it.
struct Obj { std::vector<int> shape; const float* data; const float* grad; std::vector<float> v, g; bool train; };
struct Handle { int obj; std::unique_ptr<dw::Parameter> p; std::string key; int map = -1; };   // own handle, or entry `key` of a map
bool same(const float* p, const std::vector<float>& v) { return v.empty() || !memcmp(p, v.data(), 4 * v.size()); }

void parameters(Case& c) {
    std::deque<Obj> O; std::vector<Handle> H; std::vector<dw::ParamMap> M(1 + c.draw(2)); std::vector<dw::Tensor> outside; std::deque<std::vector<float>> memory;
    auto& log = c.desc; int made = 0;
    auto at = [&](Handle& h) -> dw::Parameter& { return h.map < 0 ? *h.p : M[h.map].at(h.key); };
    auto look = [&](const std::string& what) {
        for (size_t i = 0; i < H.size(); ++i) {
            auto& o = O[H[i].obj]; dw::Parameter& p = at(H[i]); const dw::Parameter& k = p; std::string w = "after '" + what + "': handle " + std::to_string(i) + " of parameter " + std::to_string(H[i].obj);
            c.check(k.data().shape() == o.shape && k.grad().shape() == o.shape, w + ": shapes " + str(k.data().shape()) + ", gradient " + str(k.grad().shape()) + ", expected " + str(o.shape));
            c.check(k.data().data() == o.data && p.data().data() == o.data, w + ": values are in other storage");
            c.check(k.grad().data() == o.grad && p.grad().data() == o.grad, w + ": the gradient is in other storage");
            c.check(same(o.data, o.v), w + ": values differ"); c.check(same(o.grad, o.g), w + ": the gradient differs");
            c.check(k.is_trainable() == o.train, w + (o.train ? ": is not trainable" : ": is trainable"));
        }
    };
    auto put = [&](int obj, dw::Parameter p) {                    // keep a new handle
        Handle h; h.obj = obj;
        if (c.flag(40)) {
            h.map = int(c.draw(M.size())); h.key = "p" + std::to_string(made); bool in = false;
            switch (c.draw(3)) { case 0: in = M[h.map].emplace(h.key, p).second; break; case 1: in = M[h.map].insert({h.key, std::move(p)}).second; break; default: in = M[h.map].insert_or_assign(h.key, p).second; }
            c.check(in, "a map did not take the parameter");
        } else h.p = std::make_unique<dw::Parameter>(std::move(p));
        ++made; H.push_back(std::move(h));
    };
    auto create = [&] {
        auto s = pbt::big() ? large_shape(c, 1, 200000, 1, 4) : any_shape(c, 200, 1, 4);
        dw::Tensor t(s); if (c.flag(15)) { memory.emplace_back(t.total()); t = dw::Tensor(s, memory.back().data()); c.label("view"); }
        randomize(c, t, gen_style(c, {UNIT, INTS, MIXED, SPARSE})); Obj o; o.shape = s; o.data = t.data(); o.v = flat(t); o.train = true;
        bool keep = c.flag(40); if (keep) outside.push_back(t);
        int how = int(c.draw(4)); std::unique_ptr<dw::Parameter> p;
        if (how == 0) p.reset(new dw::Parameter(std::move(t)));
        else if (how == 1) p.reset(new dw::Parameter(dw::Tensor(t)));
        else { o.train = how == 2; p.reset(new dw::Parameter(std::move(t), o.train)); }
        c.check(p->grad().shape() == s, "the gradient of a new " + std::string(o.train ? "" : "frozen ") + "parameter has shape " + str(p->grad().shape()) + " for values of shape " + str(s));
        o.grad = p->grad().data(); o.g.assign(o.v.size(), 0.f);
        c.check(o.grad != o.data, "the gradient of a new parameter shares storage with its values");
        for (auto& h : H) if (auto& q = O[h.obj]; true) c.check(o.grad != q.grad && o.grad != q.data, "the gradient of a new parameter shares storage with another parameter");
        log << "new " << str(s) << (o.train ? "; " : " frozen; "); O.push_back(o); put(int(O.size()) - 1, *p); if (c.flag()) p.reset();
    };
    create();
    int steps = pbt::repeats(c, 8, 40), shared = 0;
    for (int i = 0; i < steps; ++i) {
        c.publish(); look("previous steps");
        size_t k = c.draw(H.size()); auto& o = O[H[k].obj]; std::string n = std::to_string(H[k].obj), what; int same_obj = 0; for (auto& h : H) same_obj += h.obj == H[k].obj; shared += same_obj > 1;
        switch (c.draw(10)) {
        case 9: { size_t j = c.draw(H.size()); what = "swap " + n + " and " + std::to_string(H[j].obj); log << what << "; "; if (&at(H[k]) != &at(H[j]) && c.flag()) std::swap(at(H[k]), at(H[j])); else { dw::Parameter t(at(H[k])); at(H[k]) = at(H[j]); at(H[j]) = std::move(t); } std::swap(H[k].obj, H[j].obj); break; }
        case 0: create(); what = "new"; break;
        case 1: what = "copy " + n; log << what << "; "; put(H[k].obj, at(H[k])); break;
        case 2: { size_t j = c.draw(H.size()); what = "assign " + n + " over " + std::to_string(H[j].obj); log << what << "; "; if (c.flag(30)) at(H[j]) = dw::Parameter(at(H[k])); else at(H[j]) = at(H[k]); H[j].obj = H[k].obj; break; }
        case 3: { bool m = c.flag(); what = std::string(m ? "train " : "freeze ") + n; log << what << "; "; at(H[k]).train(m); o.train = m; break; }
        case 4: { size_t e = c.draw(o.v.size()); float x = style_value(*std::make_unique<pbt::Expand>(c.draw(4096)), WIDE); what = "write value of " + n; log << what << "; "; at(H[k]).data().data()[e] = o.v[e] = x; break; }
        case 5: { size_t e = c.draw(o.v.size()); float x = style_value(*std::make_unique<pbt::Expand>(c.draw(4096)), WIDE); what = "write gradient of " + n; log << what << "; "; at(H[k]).grad().data()[e] = o.g[e] = x; break; }
        case 6: { dw::Tensor t(o.shape); randomize(c, t, UNIT); what = "copyTo " + n; log << what << "; "; bool g = c.flag(30); (g ? o.g : o.v) = flat(t); t.copyTo(g ? at(H[k]).grad() : at(H[k]).data()); break; }
        case 7: { dw::Tensor t(o.shape); randomize(c, t, UNIT); what = "new values tensor for " + n; log << what << "; "; o.v = flat(t); o.data = t.data(); at(H[k]).data() = t; outside.push_back(t); break; }
        case 8: if (H.size() > 1) { what = "drop a handle of " + n; log << what << "; "; if (H[k].map >= 0) M[H[k].map].erase(H[k].key); H.erase(H.begin() + long(k)); } break;
        }
        look(what);
        if (c.flag(10)) { log << "copy maps; "; auto M2 = M; M = c.flag() ? M2 : std::move(M2); look("copying maps"); }
        if (c.flag(10)) { outside.clear(); look("outside tensors gone"); }
    }
    c.nontrivial(shared > 0 && O.size() > 1); c.label(shared ? "shared" : "single");
    for (auto& o : O) if (!o.train) { c.label("frozen"); break; }
}

// ---- attributes
struct Val { int kind; int i[2]; float f[2]; };               // 0 int, 1 float, 2 ints, 3 floats
dw::Attribute make(Case& c, const Val& v, const Val*& keep) {
    keep = &v;
    bool lv = c.flag();                                          // from a variable or a temporary
    switch (v.kind) {
    case 0: { int x = v.i[0]; const int y = x; return lv ? (c.flag() ? dw::Attribute(x) : dw::Attribute(y)) : dw::Attribute(int(x)); }
    case 1: { float x = v.f[0]; const float y = x; return lv ? (c.flag() ? dw::Attribute(x) : dw::Attribute(y)) : dw::Attribute(float(x)); }
    case 2: { std::array<int, 2> x{v.i[0], v.i[1]}; return lv ? dw::Attribute(x) : dw::Attribute(std::array<int, 2>(x)); }
    default: { std::array<float, 2> x{v.f[0], v.f[1]}; return lv ? dw::Attribute(x) : dw::Attribute(std::array<float, 2>(x)); }
    }
}
template <class T> bool refuses(const dw::Attribute& a) { try { (void) a.get<T>(); return false; } catch (const std::exception&) { return true; } }
void inspect(Case& c, const dw::Attribute& a, const Val& v, const std::string& w) {
    c.check(a.type() == (v.kind & 1 ? dw::AttrType::FLOAT : dw::AttrType::INT), w + ": wrong type");
    c.check(a.shape() == (v.kind < 2 ? dw::AttrShape::VALUE : dw::AttrShape::ARRAY2), w + ": wrong shape");
    bool ok = false;
    try {
        switch (v.kind) {
        case 0: ok = a.get<int>() == v.i[0]; break;
        case 1: ok = !memcmp(&a.get<float>(), v.f, 4); break;
        case 2: ok = a.get<std::array<int, 2>>() == std::array<int, 2>{v.i[0], v.i[1]}; break;
        case 3: ok = !memcmp(a.get<std::array<float, 2>>().data(), v.f, 8); break;
        }
    } catch (const std::exception& e) { c.fail(w + ": reading the value raised " + e.what()); }
    c.check(ok, w + ": another value");
    c.check((v.kind == 0 || refuses<int>(a)) && (v.kind == 1 || refuses<float>(a)) && (v.kind == 2 || refuses<std::array<int, 2>>(a)) && (v.kind == 3 || refuses<std::array<float, 2>>(a)) && refuses<double>(a) && refuses<std::string>(a) && refuses<size_t>(a), w + ": reading it as another type did not raise an exception");
}
void attributes(Case& c) {
    std::deque<Val> vals; std::vector<std::pair<std::string, int>> own; dw::Attributes map; std::map<std::string, int> in; std::deque<std::pair<dw::Attribute, int>> L;
    static const int edge[] = {0, 1, -1, 2, 7, 255, 256, 65536, 16777217, 2147483647, -2147483647 - 1}; static const float fe[] = {0.f, -0.f, 1.f, 0.1f, 1e-45f, 3e38f, -1e-7f, INFINITY, 0.5f, NAN, 16777217.f};
    auto gen = [&] { Val v; v.kind = int(c.draw(4)); for (int j = 0; j < 2; ++j) { v.i[j] = c.flag(30) ? int(c.seed32()) : edge[c.draw(11)]; v.f[j] = c.flag(30) ? float(c.real(-1e3, 1e3)) : fe[c.draw(11)]; } vals.push_back(v); return int(vals.size()) - 1; };
    auto check_all = [&](const std::string& w) { for (size_t i = 0; i < L.size(); ++i) inspect(c, L[i].first, vals[L[i].second], w + ": attribute " + std::to_string(i)); c.check(map.size() == in.size(), w + ": wrong number of entries"); for (auto& kv : in) { c.check(map.count(kv.first), w + ": entry '" + kv.first + "' is missing"); inspect(c, map.at(kv.first), vals[kv.second], w + ": entry '" + kv.first + "'"); } };
    int steps = int(c.sized(2, 10, 40)), copies = 0;
    for (int s = 0; s < steps; ++s) {
        std::string what, key = c.pick(std::vector<std::string>{"units", "kernel", "alpha", "", "a b", "stride"}); const Val* k; c.publish();
        switch (L.empty() ? 0 : c.draw(10)) {
        case 0: { int v = gen(); what = "make kind " + std::to_string(vals[v].kind); L.emplace_back(make(c, vals[v], k), v); break; }
        case 1: { auto& a = L[c.draw(L.size())]; what = "copy"; dw::Attribute b(a.first); L.emplace_back(b, a.second); ++copies; break; }
        case 2: { auto& a = L[c.draw(L.size())]; what = "copy of a constant"; const dw::Attribute& r = a.first; dw::Attribute b = r; int v = a.second; L.emplace_back(std::move(b), v); ++copies; break; }
        case 3: { auto& a = L[c.draw(L.size())]; auto& b = L[c.draw(L.size())]; what = "assign"; b.first = a.first; b.second = a.second; ++copies; break; }
        case 4: { auto& a = L[c.draw(L.size())]; what = "entry := attribute"; map[key] = a.first; in[key] = a.second; ++copies; break; }
        case 5: { auto& a = L[c.draw(L.size())]; what = "emplace"; bool fresh = map.emplace(key, a.first).second; c.check(fresh == !in.count(key), "emplace reported wrongly"); if (fresh) in[key] = a.second; ++copies; break; }
        case 6: { int v = gen(); what = "entry := value"; map[key] = make(c, vals[v], k); in[key] = v; break; }
        case 8: { auto& a = L[c.draw(L.size())]; auto& b = L[c.draw(L.size())]; what = "swap"; if (&a != &b) { std::swap(a.first, b.first); std::swap(a.second, b.second); } break; }
        case 9: { auto& a = L[c.draw(L.size())]; what = "move"; dw::Attribute t(std::move(a.first)); a.first = std::move(t); std::vector<dw::Attribute> v(size_t(c.integer(1, 3)), a.first); v.reserve(50); a.first = v.back(); ++copies; break; }
        case 7: { what = "copy the map"; dw::Attributes m2 = map; dw::LayerInfo li("n", "t"); li.impl().attrs = m2; map.clear(); dw::LayerInfo lj = li; li = dw::LayerInfo("o", "t"); map = lj.impl().attrs; ++copies; break; }
        }
        c.desc << what << "; "; c.publish(); check_all("after '" + what + "'");
    }
    if (c.flag(30)) { dw::Attribute u(2.5), s(std::string("x")), l(7L); for (auto* a : {&u, &s, &l}) c.check(a->type() == dw::AttrType::UNSUPPORTED, "an attribute of an unsupported type claims a supported one"); c.check(u.get<double>() == 2.5 && s.get<std::string>() == "x" && l.get<long>() == 7, "an attribute of an unsupported type lost its value"); }
    c.nontrivial(copies > 0 && vals.size() > 1);
}

// ---- layer descriptions and layers: several handles, one description
void layers(Case& c) {
    struct D { std::string name, type; std::map<std::string, std::pair<const float*, const float*>> params; std::map<std::string, const float*> buffers; };
    std::vector<D> ds; std::vector<std::pair<dw::LayerInfo, int>> infos; struct LH { dw::Layer l; int d; std::vector<const void*> in, out; const void* group; }; std::vector<LH> ls; int edits = 0;
    auto check_all = [&](const std::string& w) {
        auto view = [&](const D& d, const std::string& name, const std::string& type, const dw::ParamMap& ps, const dw::BufferMap& bs, const std::string& who) {
            c.check(name == d.name && type == d.type, w + ": " + who + " is called '" + name + "' of type '" + type + "', expected '" + d.name + "' of type '" + d.type + "'");
            c.check(ps.size() == d.params.size() && bs.size() == d.buffers.size(), w + ": " + who + " has a wrong number of parameters or buffers");
            for (auto& kv : d.params) c.check(ps.count(kv.first) && ps.at(kv.first).data().data() == kv.second.first && ps.at(kv.first).grad().data() == kv.second.second, w + ": " + who + " shows another parameter " + kv.first);
            for (auto& kv : d.buffers) c.check(bs.count(kv.first) && bs.at(kv.first).data() == kv.second, w + ": " + who + " shows another buffer " + kv.first);
        };
        for (auto& i : infos) view(ds[i.second], i.first.name(), i.first.type(), i.first.params(), i.first.buffers(), "a layer description");
        for (auto& l : ls) {
            view(ds[l.d], l.l.name(), l.l.type(), l.l.params(), l.l.buffers(), "a layer"); const dw::Layer& k = l.l;
            auto same_ph = [](const dw::Placeholders& a, const std::vector<const void*>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < b.size(); ++i) if (&const_cast<dw::Placeholder&>(a[i]).impl() != b[i]) return false; return true; };
            c.check(same_ph(k.inputs(), l.in) && same_ph(l.l.inputs(), l.in) && same_ph(k.outputs(), l.out) && same_ph(l.l.outputs(), l.out), w + ": a layer has other inputs or outputs");
        }
    };
    int steps = int(c.sized(2, 10, 40)), n = 0; std::vector<dw::Placeholders> pins;      // keeps placeholders alive, so that their addresses stay unique
    for (int s = 0; s < steps; ++s) {
        std::string what;
        switch (infos.empty() ? 0 : c.draw(7)) {
        case 6: if (!ls.empty()) { auto& l = ls[c.draw(ls.size())]; what = "edit the connections"; ++edits; dw::Placeholder p(dw::Shape{7, int(c.draw(9)) + 1}); bool in = c.flag();        // every copy of the layer shows them
                auto& v = in ? l.l.inputs() : l.l.outputs(); if (!v.empty() && c.flag()) v.back() = p; else v.push_back(p);
                pins.push_back({p}); const void* group = l.group; std::vector<const void*> now; for (auto& q : v) now.push_back(&q.impl()); for (auto& m : ls) if (m.group == group) (in ? m.in : m.out) = now; } break;
        case 0: { D d; d.name = c.pick(std::vector<std::string>{"", "l", "conv.1", std::string(60, 'x')}) + (c.flag() ? std::to_string(n) : ""); d.type = c.pick(std::vector<std::string>{"Linear", "ReLU", ""}); ++n; what = "new description"; infos.emplace_back(dw::LayerInfo(d.name, d.type), int(ds.size())); ds.push_back(d); break; }
        case 1: what = "copy"; infos.push_back(infos[c.draw(infos.size())]); break;
        case 2: { auto a = infos[c.draw(infos.size())]; what = "assign"; infos[c.draw(infos.size())] = a; break; }
        case 3: { auto& a = infos[c.draw(infos.size())]; ++edits; D& d = ds[a.second]; std::string k = "k" + std::to_string(c.draw(3));
            if (c.flag(30)) { what = "rename"; d.name = a.first.impl().name = "renamed" + std::to_string(n++); }
            else if (c.flag()) { what = "add parameter"; dw::Tensor t(dw::Shape{1 + int(c.draw(3))}); dw::Parameter p(dw::Tensor(t), c.flag()); if (a.first.impl().params.emplace(k, p).second) d.params[k] = {t.data(), p.grad().data()}; }
            else { what = "add buffer"; dw::Tensor t(dw::Shape{1 + int(c.draw(3))}); a.first.impl().buffers[k] = t; d.buffers[k] = t.data(); }
            break; }
        case 4: { auto& a = infos[c.draw(infos.size())]; what = "layer"; dw::Placeholders in, out; std::vector<const void*> i, o; for (int q = int(c.draw(3)); q >= 0; --q) { in.emplace_back(dw::Shape{1, q + 1}); i.push_back(&in.back().impl()); } for (int q = int(c.draw(2)); q >= 0; --q) { out.emplace_back(dw::Shape{2, q + 1}); o.push_back(&out.back().impl()); } const void* g = i[0]; pins.push_back(in); ls.push_back({dw::Layer(a.first, in, out), a.second, i, o, g}); break; }
        case 5: if (!ls.empty()) { what = "copy layer"; auto l = ls[c.draw(ls.size())]; ls.push_back(l); } else { what = "drop"; infos.erase(infos.begin() + long(c.draw(infos.size()))); } break;
        }
        c.desc << what << "; "; c.publish(); check_all("after '" + what + "'");
    }
    c.nontrivial(edits > 0 && infos.size() + ls.size() > ds.size());
}
}
PBT_PROPERTY("C37", "histories of creating, copying, assigning, storing, editing and dropping parameters, attributes, layer descriptions and layers, everything inspected through every handle after every step; non-trivial = several handles of one object and a second object (attributes: a copy and two values)") {
    pbt::facet("parameters", 12000, parameters, 12, 40);
    pbt::facet("attributes", 8000, attributes, 12, 40);
    pbt::facet("layers", 6000, layers, 12, 40);
    pbt::marathon_facet("parameters-marathon", 60, parameters);
    pbt::large_facet("parameters-large", 60, parameters);
}
