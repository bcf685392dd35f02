// C29: damaged, foreign and mismatched model files; paths that cannot be written.
#include <signal.h>
#include "files.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
Net net(Case& c, int nodes = 5) { NetOpt o; o.max_nodes = nodes; Net n = gen_net(c, o); c.desc << n.str(); c.publish(); return n; }
const char* kKind[] = {"state", "configuration", "model"};
std::string make(int kind, dw::Model& m, const std::string& p) {
    if (kind == 0) dw::save_state(m.state(), p); else if (kind == 1) dw::save_cfg(m.cfg(), p); else dw::save(m, p); return slurp(p);
}
void read_as(int kind, dw::Model& m, const std::string& p) {
    if (kind == 0) dw::load_state(m.state(), p); else if (kind == 1) dw::load_cfg(p); else dw::load(p);
}
void truncated(Case& c) {
    Net n = net(c, 4); Built b = build(c, n); Rm rm; auto p = rm("f"), q = rm("g");
    int kind = int(c.draw(3)); auto bytes = make(kind, b.model, p);
    std::vector<size_t> cuts;
    if (bytes.size() <= 300) for (size_t i = 0; i < bytes.size(); ++i) cuts.push_back(i);
    else { for (size_t i = 0; i < 60; ++i) cuts.push_back(i); for (size_t i = bytes.size() - 40; i < bytes.size(); ++i) cuts.push_back(i); pbt::Expand x(c.seed32()); for (int i = 0; i < 200; ++i) cuts.push_back(x.below(bytes.size())); }
    if (c.flag(10)) cuts = {size_t(c.draw(bytes.size()))};           // lets shrinking isolate one cut
    c.desc << kKind[kind] << " file of " << bytes.size() << " bytes, " << cuts.size() << " cuts"; c.publish();
    spit(q, bytes);
    std::sort(cuts.rbegin(), cuts.rend());
    for (size_t cut : cuts) {
        if (truncate(q.c_str(), off_t(cut)) != 0) { spit(q, bytes.substr(0, cut)); }
        c.check(throws([&] { read_as(kind, b.model, q); }), std::string("a ") + kKind[kind] + " file cut to " + std::to_string(cut) + " of " + std::to_string(bytes.size()) + " bytes was loaded as if complete");
    }
    c.label("cuts", cuts.size()); c.label(std::string("cut-") + kKind[kind]);
    c.nontrivial(bytes.size() > 40);
}
void foreign(Case& c) {
    Net n = net(c, 4); Built b = build(c, n); Rm rm; auto p = rm("f"), q = rm("g");
    int kind = int(c.draw(3)), what = int(c.draw(7)); std::string w;
    switch (what) {
    case 0: w = "missing"; unlink(p.c_str()); break;
    case 1: w = "empty"; spit(p, ""); break;
    case 2: w = "directory"; mkdir(p.c_str(), 0700); break;
    case 3: { w = "text"; pbt::Expand x(c.seed32()); std::string s; size_t len = c.integer(1, 300); for (size_t i = 0; i < len; ++i) s += char(32 + x.below(95)); spit(p, s); break; }
    case 4: { int other = (kind + 1 + int(c.draw(2))) % 3; if (kind == 1 && other == 2) other = 0; w = kKind[other]; make(other, b.model, p); break; }   // a model file starts with its configuration
    case 5: {                                                        // right content under the other kind's tag
        if (kind == 2) kind = 1; auto own = make(kind, b.model, p), other = make(1 - kind, b.model, q); if (own.compare(0, 4, other, 0, 4) == 0) return;
        w = std::string(kKind[kind]) + " content tagged as " + kKind[1 - kind]; spit(p, other.substr(0, 4) + own.substr(4)); break;
    }
    default: w = "in a missing directory"; p = scratch("no-such-dir") + "/f"; break;
    }
    c.desc << "reading a " << kKind[kind] << " from: " << w; c.publish();
    auto s = snap_state(b.model.state());
    bool t = throws([&] { read_as(kind, b.model, p); });
    if (what == 2) rmdir(p.c_str());
    c.check(t, std::string("reading a ") + kKind[kind] + " from " + w + " succeeded");
    same_state(c, s, b.model.state(), "a failed load changed the model");
    c.label(w); c.nontrivial(what >= 3 || n.nodes.size() > 1);
}
void mismatch(Case& c) {
    Net n = net(c); Built b = build(c, n); auto& st = b.model.state();
    std::vector<std::string> keys; for (auto& kv : st) if (kv.second.total()) keys.push_back(kv.first);
    std::sort(keys.begin(), keys.end()); if (keys.empty()) return;
    std::string k = c.pick(keys); dw::Model::StateDict s(st.begin(), st.end()); auto sh = st.at(k).shape(); std::string w;
    switch (c.draw(6)) {
    case 0: { auto t = s.at(k); s.erase(k); auto k2 = c.flag() ? k + "x" : k.substr(0, k.size() - 1); if (st.count(k2)) return; s.emplace(k2, t); w = "renamed entry"; break; }
    case 1: { s.emplace("extra.weight", dw::Tensor::zeros({2})); w = "additional entry"; if (st.count("extra.weight")) return; break; }
    case 2: { auto d = sh; d[c.draw(d.size())] += 1; s.at(k) = dw::Tensor::zeros(d); w = "larger entry"; break; }
    case 3: { auto d = sh; size_t i = c.draw(d.size()); if (d[i] < 2) return; d[i] -= 1; s.at(k) = dw::Tensor::zeros(d); w = "smaller entry"; break; }
    case 4: { auto d = sh; std::reverse(d.begin(), d.end()); if (d == sh) { d = sh; d.push_back(1); } s.at(k) = dw::Tensor::zeros(d); w = "same size, other shape"; break; }
    default: { auto d = sh; d.insert(d.begin(), 1); s.at(k) = dw::Tensor::zeros(d); w = "same size, other rank"; break; }
    }
    c.desc << "state with " << w << " (" << k << " " << str(sh) << ")"; c.publish();
    Rm rm; auto p = rm("s"); dw::save_state(s, p);
    c.check(throws([&] { dw::load_state(st, p); }), "a state with a " + w + " was loaded as if it matched");
    c.label(w); c.nontrivial();
}
// two models of different structure
void other_model(Case& c) {
    Net n = net(c); Net m = n; bool changed = false; int tries = 0;
    while (!changed && tries++ < 8) { auto& k = m.nodes[c.draw(m.nodes.size())]; if (k.sp.kind == K_LINEAR || k.sp.kind == K_CONV) { changed = true; k.sp.n += int(c.integer(1, 3)); } }
    if (!changed) return;
    // shapes downstream follow; give up where they no longer fit
    try { for (size_t k = 0; k < m.nodes.size(); ++k) { auto& nd = m.nodes[k]; if (nd.in.size() == 2 && m.vs[nd.in[0]] != m.vs[nd.in[1]]) return; m.vs[nd.out] = nd.sp.out(m.vs[nd.in[0]]); } } catch (...) { return; }
    c.desc << " other: " << m.str(); c.publish();
    for (size_t k = 0; k < n.nodes.size(); ++k) if (n.nodes[k].name.empty()) n.nodes[k].name = m.nodes[k].name = "n" + std::to_string(k);
    Built a = build(c, n), b = build(c, m);
    auto shapes = [](dw::Model& x) { std::map<std::string, dw::Shape> r; for (auto& kv : x.state()) r[kv.first] = kv.second.shape(); return r; };
    if (shapes(a.model) == shapes(b.model)) return;                  // the change is in an unused layer
    Rm rm; auto p = rm("s"); dw::save_state(a.model.state(), p);
    c.check(throws([&] { dw::load_state(b.model.state(), p); }), "the state of a different model was loaded as if it matched");
    c.nontrivial();
}
void damaged(Case& c) {
    Net n = net(c, 4); Built b = build(c, n); Rm rm; auto p = rm("f"), q = rm("g");
    int kind = int(c.draw(2)); auto bytes = make(kind, b.model, p); std::string orig = bytes;
    int edits = int(c.sized(1, 2, 8));
    for (int i = 0; i < edits && !bytes.empty(); ++i) {
        // structure lives in the small integers: prefer positions near them
        size_t at = c.draw(bytes.size()); if (c.flag(50)) at = at / 4 * 4;
        switch (c.draw(6)) {
        case 0: bytes[at] ^= char(1 << c.draw(8)); break;
        case 1: bytes[at] = char(c.pick({0, 1, 2, 255, 127, 128})); break;
        case 2: { uint64_t v = c.pick<uint64_t>({0, 1, 2, 3, 0xffffffffull, 0x80000000ull, ~0ull, 1ull << 63, 1ull << 40, (1ull << 62) + 1, 0x2000000000000001ull, 1ull << 32, 4096}); for (size_t k = 0; k < 8 && at + k < bytes.size(); ++k) bytes[at + k] = char(v >> (8 * k)); break; }
        case 3: bytes.erase(at, c.integer(1, 16)); break;
        case 4: bytes.insert(at, std::string(c.integer(1, 16), char(c.pick({0, 1, 255})))); break;
        default: { size_t from = c.draw(bytes.size()); bytes.replace(at, 8, bytes.substr(from, 8)); }
        }
    }
    c.desc << kKind[kind] << " file of " << orig.size() << " bytes, " << edits << " edits"; c.publish();
    spit(q, bytes);
    std::map<std::string, std::pair<dw::Shape, const float*>> where; for (auto& kv : b.model.state()) where[kv.first] = {kv.second.shape(), kv.second.data()};
    size_t live = pbt::live_bytes();
    bool t = throws([&] { read_as(kind, b.model, q); });
    size_t after = pbt::live_bytes();
    c.check(after < live + (1u << 20) + 64 * bytes.size(), "reading a damaged file keeps " + std::to_string(after - live) + " bytes allocated");
    for (auto& kv : b.model.state()) c.check(where.count(kv.first) && where[kv.first].first == kv.second.shape() && where[kv.first].second == kv.second.data(), "a damaged file changed the structure of the state");
    c.label(t ? "rejected" : "accepted"); c.nontrivial(bytes != orig);
}
void unwritable(Case& c) {
    Net n = net(c, 3); Built b = build(c, n); Rm rm; std::string p, w; int how = int(c.draw(4)), kind = int(c.draw(4));
    rlimit old{}; bool limited = false; auto ok = rm("ok");
    auto write = [&](const std::string& path) { if (kind == 3) dw::save_dot(b.model.cfg(), path); else make(kind, b.model, path); };
    size_t full = 0; { write(ok); full = slurp(ok).size(); }
    switch (how) {
    case 0: p = scratch("no-such-dir") + "/f"; w = "a missing directory"; break;
    case 1: p = rm("d"); mkdir(p.c_str(), 0700); w = "a directory"; break;
    case 2: p = "/dev/full"; w = "a full device"; if (access("/dev/full", W_OK)) { c.label("no-dev-full"); return; } break;
    default: { p = rm("big"); size_t lim = c.draw(full); getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = lim; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); limited = true; w = "a disk with room for " + std::to_string(lim) + " of " + std::to_string(full) + " bytes"; }
    }
    c.desc << "writing a " << (kind == 3 ? "dot graph" : kKind[kind]) << " to " << w; c.publish();
    bool t = throws([&] { write(p); });
    if (limited) setrlimit(RLIMIT_FSIZE, &old);
    if (how == 1) rmdir(p.c_str());
    c.check(t, std::string("writing a ") + (kind == 3 ? "dot graph" : kKind[kind]) + " to " + w + " succeeded");
    c.label(std::string("write-error-") + std::to_string(how)); c.nontrivial();
}
}
PBT_PROPERTY("C29", "files of random models cut at every point (or 300 of them), foreign, empty or missing files, edited bytes, states of other structure, failing writes; non-trivial = the file has more than 40 bytes / really differs / the fault really happens") {
    pbt::Registry::get().assumptions.push_back("byte damage other than truncation only has to be handled safely: a changed weight cannot be recognised");
    pbt::Registry::get().assumptions.push_back("a state with fewer entries than the model (partial loading) is not claimed either way");
    pbt::facet("truncated", 1000, truncated, 12, 20);
    pbt::facet("foreign", 3000, foreign, 12, 40);
    pbt::facet("mismatch", 4000, mismatch, 12, 40);
    pbt::facet("other-model", 3000, other_model, 12, 40);
    pbt::facet("damaged", 12000, damaged, 12, 40);
    pbt::facet("unwritable", 3000, unwritable, 12, 40);
}
