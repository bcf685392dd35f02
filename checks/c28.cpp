// C28: save / load round trips.
#include <climits>
#include "files.hpp"
namespace {
void same_outputs(Case& c, const Net& n, dw::Model& a, dw::Model& b, const std::string& w) {
    a.compile(); b.compile(); bool train = !has_random_dropout(n) && c.flag(30); a.train(train); b.train(train);
    std::vector<GT> keep; auto in = gen_inputs(c, n, keep, true);
    std::vector<dw::Tensor> x, y; for (int v : n.outs) { x.emplace_back(n.vs[v]); y.emplace_back(n.vs[v]); }
    a.forward(in, x); b.forward(in, y);
    for (size_t i = 0; i < x.size(); ++i) near(c, y[i], x[i], w + ": output " + std::to_string(i) + (train ? " (train)" : ""), 1e-5);
}
void sane_state(Case& c, Built& b, const Net& n) {
    randomize_model(c, b, n);
    for (auto& kv : b.model.params()) if (kv.first.size() > 5 && kv.first.substr(kv.first.size() - 5) == ".mask") { auto t = kv.second.data(); randomize(c, t, UNIT); }
}
Net net(Case& c) { NetOpt o; o.deep = true; Net n = gen_net(c, o); odd_names(c, n); c.desc << n.str(); c.publish(); return n; }
void rebuild(Case& c) {
    Net n = net(c); Built b = build(c, n); if (c.flag(30)) b.model.compile();
    auto m = dw::Model::Build(b.model.cfg());
    same_structure(c, b.model, m, "Build(cfg)");
    sane_state(c, b, n); auto s = snap_state(b.model.state());
    for (auto& kv : b.model.state()) { c.check(m.state().count(kv.first), "Build(cfg): state lacks " + kv.first); c.check(m.state().at(kv.first).data() != kv.second.data(), "Build(cfg) shares the parameters of the original"); kv.second.copyTo(m.state().at(kv.first)); }
    same_state(c, s, m.state(), "Build(cfg)");
    same_outputs(c, n, b.model, m, "Build(cfg)");
    label_net(c, n);
}
void whole(Case& c) {
    Net n = net(c); Built b = build(c, n); if (c.flag(30)) { b.model.compile(); b.model.train(c.flag()); }
    bool wild = c.flag(60); if (wild) garbage_state(c, b.model.state()); else sane_state(c, b, n);
    auto s = snap_state(b.model.state()); Rm rm; auto p = rm("model"); auto st = structure_of(b.model);
    if (c.flag(30)) spit(p, std::string(c.sized(0, 1000, 200000), 'z'));
    dw::save(b.model, p);
    same_state(c, s, b.model.state(), "save changed the model");
    auto m = dw::load(p);
    same_structure(c, b.model, m, "load(save)"); same_state(c, s, m.state(), "load(save)");
    c.check(structure_of(b.model) == st, "save changed the configuration");
    if (c.flag(30)) {                                               // again, over the same file
        dw::save(m, p); auto m2 = dw::load(p); same_structure(c, b.model, m2, "second generation"); same_state(c, s, m2.state(), "second generation");
    }
    if (wild) { sane_state(c, b, n); dw::save(b.model, p); s = snap_state(b.model.state()); m = dw::load(p); same_state(c, s, m.state(), "load(save) again"); }
    same_outputs(c, n, b.model, m, "load(save)");
    label_net(c, n);
}
void parts(Case& c) {
    Net n = net(c); Built b = build(c, n); bool wild = c.flag(60); if (wild) garbage_state(c, b.model.state()); else sane_state(c, b, n);
    Rm rm; auto pc = rm("cfg"), ps = rm("state"); auto s = snap_state(b.model.state());
    if (c.flag(30)) spit(pc, std::string(20000, 'q')); if (c.flag(30)) spit(ps, std::string(20000, 'q'));
    int how = int(c.draw(3));
    dw::Model::Config cfg; dw::Model m;
    if (how == 0) { dw::save_cfg(b.model.cfg(), pc); dw::save_state(b.model.state(), ps); cfg = dw::load_cfg(pc); m = dw::Model::Build(cfg); }
    else if (how == 1) { std::ofstream f(pc, std::ios::binary); dw::save_cfg(b.model.cfg(), f); f.close(); std::ofstream g(ps, std::ios::binary); dw::save_state(b.model.state(), g); g.close(); std::ifstream h(pc, std::ios::binary); cfg = dw::load_cfg(h); m = dw::Model::Build(cfg); }
    else { dw::save_cfg(b.model.cfg(), pc); dw::save_state(b.model.state(), ps); cfg = dw::load_cfg(pc); m = build(c, n).model; }   // state into an independently built model
    same_cfg(c, b.model.cfg(), cfg, "load_cfg(save_cfg)");
    auto r2 = dw::Model::Build(cfg); same_structure(c, b.model, r2, "Build(load_cfg(save_cfg))");
    same_state(c, s, b.model.state(), "saving changed the model");
    garbage_state(c, m.state());
    std::map<std::string, const float*> where; for (auto& kv : m.state()) where[kv.first] = kv.second.data();
    if (how == 1) { std::ifstream f(ps, std::ios::binary); dw::load_state(m.state(), f); } else dw::load_state(m.state(), ps);
    same_state(c, s, m.state(), "load_state(save_state)");
    for (auto& kv : m.state()) c.check(kv.second.data() == where[kv.first], "load_state replaced the storage of " + kv.first + ", so the layer does not see it");
    if (!wild) same_outputs(c, n, b.model, m, "configuration plus state");
    label_net(c, n);
}
// history: one model trained-like changing, checkpoints taken and restored in any order
void checkpoints(Case& c) {
    NetOpt o; o.max_nodes = 5; Net n = gen_net(c, o); c.desc << n.str(); c.publish(); Built b = build(c, n);
    Rm rm; std::map<int, Snap> saved; std::string path[3]; for (int i = 0; i < 3; ++i) path[i] = rm("ck" + std::to_string(i)); bool whole[3] = {};
    int steps = int(pbt::marathon() ? c.integer(40, 150) : c.integer(2, 8)); int loads = 0;
    Snap cur = snap_state(b.model.state());
    for (int i = 0; i < steps; ++i) {
        int k = int(c.draw(3));
        switch (c.draw(4)) {
        case 0: garbage_state(c, b.model.state()); cur = snap_state(b.model.state()); c.desc << "change; "; break;
        case 1: dw::save_state(b.model.state(), path[k]); saved[k] = cur; whole[k] = false; c.desc << "save_state " << k << "; "; break;
        case 2: dw::save(b.model, path[k]); saved[k] = cur; whole[k] = true; c.desc << "save " << k << "; "; break;
        default: if (!saved.count(k)) break; ++loads;
            c.desc << "load " << k << "; "; c.publish();
            if (whole[k]) { auto m = dw::load(path[k]); same_structure(c, b.model, m, "checkpoint"); same_state(c, saved[k], m.state(), "checkpoint"); }
            else { dw::load_state(b.model.state(), path[k]); cur = saved[k]; }
        }
        same_state(c, cur, b.model.state(), "after step " + std::to_string(i));
    }
    c.nontrivial(loads > 0);
}
// files the user may only read
void readonly(Case& c) {
    NetOpt o; o.max_nodes = 3; Net n = gen_net(c, o); c.desc << n.str(); c.publish(); Built b = build(c, n);
    Rm rm; auto p = rm("ro"), pc = rm("roc"), ps = rm("ros"); dw::save(b.model, p); dw::save_cfg(b.model.cfg(), pc); dw::save_state(b.model.state(), ps);
    for (auto& f : {p, pc, ps}) chmod(f.c_str(), 0444);
    if (seteuid(65534) != 0) { c.label("cannot-drop-privileges"); return; }
    bool reach = access(p.c_str(), R_OK) == 0; { std::ifstream f(p); reach = bool(f); }
    std::string err;
    if (reach) try { auto m = dw::load(p); same_structure(c, b.model, m, "load from a read-only file"); same_cfg(c, b.model.cfg(), dw::load_cfg(pc), "load_cfg from a read-only file"); dw::load_state(m.state(), ps); same_state(c, snap_state(b.model.state()), m.state(), "load_state from a read-only file"); } catch (const std::exception& e) { err = e.what(); }
    if (seteuid(0) != 0) _exit(9);
    c.check(err.empty(), "a file that may only be read cannot be loaded: " + err);
    if (reach) c.nontrivial(); else c.label("scratch-unreachable");
}
// configurations and states of any content, several records in one stream
std::string any_string(Case& c) {
    switch (c.draw(5)) { case 0: return ""; case 1: return std::string(size_t(c.flag(3) ? c.integer(65530, 70000) : c.integer(1, 400)), char('a' + c.draw(26))); case 2: { std::string r; pbt::Expand x(c.seed32()); size_t n = c.integer(1, 12); for (size_t i = 0; i < n; ++i) r += char(x.below(256)); return r; } default: return c.pick(std::vector<std::string>{"weight", "Linear", "kernel", "a.b", "é"}) + std::to_string(c.draw(20)); }
}
size_t many(Case& c, size_t usual) { return c.flag(3) ? size_t(c.integer(250, 700)) : size_t(c.integer(0, usual)); }
int any_int(Case& c) { return c.flag(70) ? int(c.integer(-3, 40)) : c.pick({INT_MIN, INT_MAX, -1, 0, 0x0a0d, 1 << 24, 256}); }
float any_float(Case& c) { uint32_t u = c.flag() ? uint32_t(c.seed32()) : c.pick<uint32_t>({0, 0x80000000u, 0x7f800000u, 0x7fc00001u, 1u, 0x3f800000u, 0x3dcccccdu}); float f; memcpy(&f, &u, 4); return f; }
std::vector<int> any_ints(Case& c, int most) { std::vector<int> r(c.flag(1) ? size_t(c.integer(200, 600)) : size_t(c.integer(0, most))); for (auto& x : r) x = any_int(c); return r; }
dw::Model::Config any_cfg(Case& c) {
    dw::Model::Config g; g.input_ids = any_ints(c, 5); g.output_ids = any_ints(c, 5);
    for (int i = 0, n = int(many(c, 8)); i < n; ++i) { int id = n > 100 ? i : any_int(c); g.ph_map.emplace(id, dw::Model::Config::PlaceholderInfo{any_ints(c, 5), id}); }
    for (int i = 0, n = int(many(c, 5)); i < n; ++i) {
        dw::Model::Config::OperationInfo o; o.name = any_string(c); o.type = any_string(c); o.in_ids = any_ints(c, 4); o.out_ids = any_ints(c, 3);
        for (int k = 0, m = c.flag(2) ? int(many(c, 4)) : int(c.integer(0, 4)); k < m; ++k) {
            auto key = any_string(c) + (m > 100 ? std::to_string(k) : ""); if (o.attrs.count(key)) continue;
            switch (c.draw(4)) { case 0: o.attrs.emplace(key, dw::Attribute(any_int(c))); break; case 1: o.attrs.emplace(key, dw::Attribute(any_float(c))); break; case 2: o.attrs.emplace(key, dw::Attribute(std::array<int, 2>{any_int(c), any_int(c)})); break; default: o.attrs.emplace(key, dw::Attribute(std::array<float, 2>{any_float(c), any_float(c)})); }
        }
        g.sorted_ops.push_back(std::move(o));
    }
    return g;
}
dw::Model::StateDict any_state(Case& c) {
    dw::Model::StateDict s;
    int n = pbt::big() ? int(c.integer(1, 3)) : int(many(c, 6));
    for (int i = 0; i < n; ++i) {
        dw::Shape sh; if (pbt::big()) sh = large_shape(c, 30000, 3000000);
        else { sh.resize(size_t(c.integer(1, 5))); int64_t t = 1, cap = n > 100 ? 50 : 20000; for (auto& d : sh) { d = int(c.sized(c.flag(5) ? 0 : 1, 5, 300, 20)); if (t * d > cap) d = 1; t *= d; } }
        s.emplace(any_string(c) + (n > 100 ? std::to_string(i) : ""), dw::Tensor(sh));
    }
    garbage_state(c, s); return s;
}
void records(Case& c) {
    int n = int(c.integer(1, 5)); std::vector<int> kind; std::vector<dw::Model::Config> cfgs; std::vector<dw::Model::StateDict> states; std::vector<Snap> snaps; size_t things = 0;
    for (int i = 0; i < n; ++i) { kind.push_back(int(c.draw(2))); if (kind[i]) { cfgs.push_back(any_cfg(c)); things += cfgs.back().sorted_ops.size(); } else { states.push_back(any_state(c)); snaps.push_back(snap_state(states.back())); things += states.back().size(); } }
    for (int k : kind) c.desc << (k ? "cfg " : "state "); c.publish();
    Rm rm; auto p = rm("rec"); { std::ofstream f(p, std::ios::binary); size_t a = 0, b = 0; for (int k : kind) if (k) dw::save_cfg(cfgs[a++], f); else dw::save_state(states[b++], f); }
    std::ifstream f(p, std::ios::binary); size_t a = 0, b = 0;
    for (int k : kind) if (k) { auto g = dw::load_cfg(f); same_cfg(c, cfgs[a], g, "configuration " + std::to_string(a)); ++a; }
        else { dw::Model::StateDict t; for (auto& kv : states[b]) t.emplace(kv.first, dw::Tensor(kv.second.shape())); garbage_state(c, t); dw::load_state(t, f); same_state(c, snaps[b], t, "state " + std::to_string(b)); same_state(c, snaps[b], states[b], "saving changed state " + std::to_string(b)); ++b; }
    c.nontrivial(things > 0);
}
}
PBT_PROPERTY("C28", "random layer graphs (branches, several inputs and outputs, odd names) with any bit patterns as state, saved and loaded in every way; non-trivial = at least two layers and a fan-out, several inputs or outputs, or four layers (checkpoints: at least one load; records: at least one operation or state entry)") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::facet("rebuild", 4000, rebuild, 12, 40);
    pbt::facet("whole", 4000, whole, 12, 40);
    pbt::large_facet("rebuild-large", 150, rebuild);
    pbt::large_facet("whole-large", 150, whole);
    pbt::large_facet("parts-large", 100, parts);
    pbt::facet("parts", 4000, parts, 12, 40);
    pbt::facet("checkpoints", 3000, checkpoints, 12, 40);
    pbt::marathon_facet("checkpoints-marathon", 30, checkpoints);
    pbt::facet("records", 5000, records, 12, 40);
    pbt::large_facet("records-large", 60, records);
    pbt::facet("readonly", 200, readonly, 4, 40);
}
