// C36: several models at once: independent ones, handles of one, and models over common layers.
#include <deepworks/optimizer.hpp>
#include <deque>
#include <memory>
#include "refnet.hpp"
namespace {
struct Family {                                 // one expression
    Net n; dw::Placeholders ph; std::vector<dw::LayerInfo> info; std::vector<char> mode; bool named = false;
};
struct Slot {                                   // one model, under one or more handles
    int fam; Net n; std::vector<dw::Model> h; std::unique_ptr<RefNet> R;
    bool compiled = false, fwd = false;         // fwd: the last forward was a training run whose parameters are still current
    std::vector<GT> keep; std::vector<dw::Tensor> in, out;
};
struct World {
    Case& c; std::deque<Family> F; std::deque<Slot> S;
    using Snap = std::map<std::string, std::vector<float>>;
    explicit World(Case& cc) : c(cc) {}
    Built view(Slot& s) { Built b; b.ph = F[s.fam].ph; return b; }
    // every parameter, gradient, buffer of every layer, and the tensors of every model's last run
    Snap all() {
        Snap m;
        for (size_t f = 0; f < F.size(); ++f) for (size_t k = 0; k < F[f].info.size(); ++k) {
            std::string id = std::to_string(f) + "/" + std::to_string(k) + ".";
            for (auto& kv : F[f].info[k].params()) if (kv.first != "mask") { m[id + kv.first] = flat(kv.second.data()); m[id + kv.first + ":grad"] = flat(kv.second.grad()); }
            for (auto& kv : F[f].info[k].buffers()) m[id + kv.first + ":buf"] = flat(kv.second);
        }
        for (size_t i = 0; i < S.size(); ++i) for (size_t j = 0; j < S[i].out.size(); ++j) m["out" + std::to_string(i) + "." + std::to_string(j)] = flat(S[i].out[j]);
        return m;
    }
    // all but the entries `may` admits are bit for bit as before
    template <class P> void same(const Snap& a, const std::string& what, P may) {
        auto b = all();
        for (auto& kv : a) { auto it = b.find(kv.first); if (it == b.end() || may(kv.first)) continue;
            c.check(kv.second.size() == it->second.size() && (kv.second.empty() || !memcmp(kv.second.data(), it->second.data(), 4 * kv.second.size())), what + " changed " + kv.first + " (family/layer.name)"); }
    }
    bool layer_of(const std::string& key, Slot& s, int& k, std::string& rest) {
        auto sl = key.find('/'); if (sl == std::string::npos || std::stoi(key.substr(0, sl)) != s.fam) return false;
        auto dot = key.find('.', sl); k = std::stoi(key.substr(sl + 1, dot - sl - 1)); rest = key.substr(dot + 1); return s.R->need[k];
    }
};
std::vector<float> bits(const dw::Tensor& t) { return flat(t); }
void run(Case& c) {
    World w(c); int fams = int(c.integer(1, 2)); bool shared = false, inter = false; int lastop = -1, copies = 0, dropped = 0;
    for (int f = 0; f < fams; ++f) {
        Family F; NetOpt o; o.drop_p = 0; o.max_nodes = 7; o.names = false;
        if (f && c.flag()) F.n = w.F[0].n; else F.n = gen_net(c, o);          // the same architecture again, with layers of its own
        F.named = c.flag(80);
        for (size_t k = 0; k < F.n.nodes.size(); ++k) F.n.nodes[k].name = F.named ? "n" + std::to_string(k) : "";
        F.ph = express(F.n, c.draw(1024)); F.mode.assign(F.n.nodes.size(), 1);
        for (auto& nd : F.n.nodes) F.info.push_back(info_of(F.ph[nd.out]));
        for (auto& i : F.info) { Rig r; r.info = i; randomize_params(c, r); }
        c.desc << "F" << f << ": " << F.n.str() << "; "; w.F.push_back(std::move(F));
    }
    c.publish();
    auto add = [&](int f) {
        Slot s; s.fam = f; s.n = w.F[f].n; int have = 0; for (auto& t : w.S) have += t.fam == f;
        if (have && !w.F[f].named) return;                                    // generated names are per model; only named expressions are used twice
        if (have) {                                                           // another cut or other outputs of the same expression
            s.n.outs.clear(); s.n.ins.clear(); int cnt = int(c.integer(1, 2));
            for (int i = 0; i < cnt; ++i) { int v = s.n.n_in + int(c.draw(s.n.nodes.size())); if (!std::count(s.n.outs.begin(), s.n.outs.end(), v)) s.n.outs.push_back(v); }
            if (c.flag(25)) { int v = s.n.n_in + int(c.draw(s.n.nodes.size())); if (!std::count(s.n.outs.begin(), s.n.outs.end(), v)) s.n.ins.push_back(v); }
            for (int i = 0; i < s.n.n_in; ++i) s.n.ins.push_back(i);
            shared = true;
        }
        w.S.push_back(std::move(s)); Slot& t = w.S.back(); auto before = w.all();
        t.h.emplace_back(select(w.F[f].ph, t.n.ins), select(w.F[f].ph, t.n.outs)); t.R.reset(new RefNet(t.n));
        w.same(before, "building a model", [](const std::string&) { return false; });
        c.desc << "M" << w.S.size() - 1 << " over F" << f << " {"; for (int v : t.n.ins) c.desc << " v" << v; c.desc << " ->"; for (int v : t.n.outs) c.desc << " v" << v; c.desc << " }; ";
    };
    for (int f = 0; f < fams; ++f) add(f);
    add(int(c.draw(fams)));
    int ops = int(pbt::marathon() ? c.integer(60, 250) : c.integer(4, pbt::sz(24, 10))), fw = 0, bw = 0;
    for (int op = 0; op < ops; ++op) {
        c.publish();
        int i = int(c.draw(w.S.size())), kind = int(c.draw(20)); Slot& s = w.S[i]; Family& F = w.F[s.fam];
        std::string M = "M" + std::to_string(i);
        if (s.h.empty()) continue;
        dw::Model& m = s.h[c.draw(s.h.size())];
        auto others = [&](auto touch) { for (auto& t : w.S) if (t.fam == s.fam) { bool common = false; for (size_t k = 0; k < s.R->need.size(); ++k) common |= s.R->need[k] && t.R->need[k]; if (common) touch(t); } };
        if (kind == 0) { if (w.S.size() < 6) add(int(c.draw(fams))); continue; }
        if (kind == 1) { s.h.push_back(m); ++copies; c.desc << "copy " << M << "; "; continue; }
        if (kind == 2) {
            if (s.h.size() > 1 || w.S.size() > 1) { auto b = w.all(); s.h.erase(s.h.begin() + c.draw(s.h.size())); w.same(b, "destroying a handle of " + M, [](const std::string&) { return false; }); ++dropped; c.desc << "drop " << M << "; "; }
            continue;
        }
        if (kind == 3) { m.compile(); s.compiled = true; s.fwd = false; c.desc << "compile " << M << "; "; continue; }
        if (kind <= 5) {
            bool mode = c.flag(60); m.train(mode); for (size_t k = 0; k < F.mode.size(); ++k) if (s.R->need[k]) F.mode[k] = mode;
            c.desc << M << (mode ? " train; " : " eval; ");
            for (auto& G : w.F) for (size_t k = 0; k < G.info.size(); ++k) for (auto& kv : G.info[k].params()) c.check(kv.second.is_trainable() == bool(G.mode[k]), M + " train(" + (mode ? "true" : "false") + "): " + kv.first + " of a layer of the expression has the wrong mode");
            continue;
        }
        if (kind == 6) {                                                     // change parameters through this model
            c.desc << "set params of " << M << "; "; auto b = w.all(); bool any = false;
            for (size_t k = 0; k < F.info.size(); ++k) if (s.R->need[k]) { std::map<std::string, dw::Tensor> byname;
                for (auto& kv : F.info[k].params()) if (kv.first != "mask") byname[kv.first] = m.params().at(F.info[k].name() + "." + kv.first).data();
                for (auto& kv : byname) if (c.flag()) { randomize(c, kv.second, UNIT); any = true; } }
            if (any) others([](Slot& t) { t.fwd = false; });
            w.same(b, "setting parameters of " + M, [&](const std::string& key) { int k; std::string r; return w.layer_of(key, s, k, r) && r.find(':') == std::string::npos; });
            continue;
        }
        if (kind <= 9 && s.fwd) {                                            // optimizer step over this model's parameters
            float lr = c.pick(std::vector<float>{0.1f, 0.01f}); c.desc << "step " << M << "; "; auto b = w.all();
            dw::optimizer::SGD sgd(m.params(), lr); sgd.step();
            for (size_t k = 0; k < F.info.size(); ++k) if (s.R->need[k] && F.mode[k]) for (auto& kv : F.info[k].params()) if (kv.first != "mask") {
                std::string id = std::to_string(s.fam) + "/" + std::to_string(k) + "." + kv.first; RT x(kv.second.data().shape()); auto &w0 = b.at(id), &g = b.at(id + ":grad");
                for (size_t e = 0; e < x.size(); ++e) x[e] = E(w0[e]) - E(lr) * E(g[e]);
                compare(c, kv.second.data(), x, M + ": " + kv.first + " of layer " + std::to_string(k) + " after an update");
            }
            others([](Slot& t) { t.fwd = false; });
            w.same(b, "an optimizer step of " + M, [&](const std::string& key) { int k; std::string r; return w.layer_of(key, s, k, r) && F.mode[k] && r.find(':') == std::string::npos; });
            continue;
        }
        if (kind <= 12 && s.fwd) {                                           // backward
            std::vector<dw::Tensor> gos; for (int v : s.n.outs) { dw::Tensor g(s.n.vs[v]); randomize(c, g, UNIT); gos.push_back(g); }
            c.desc << "bwd " << M << "; "; c.publish(); auto b = w.all();
            m.backward(s.in, s.out, gos); s.R->backward(gos);
            for (auto& g : s.keep) c.check(g.unchanged(), M + ": backward modified an input");
            for (size_t k = 0; k < F.info.size(); ++k) if (s.R->need[k]) for (auto& kv : s.R->dpar[k]) compare(c, F.info[k].params().at(kv.first).grad(), kv.second, M + ": gradient of " + kv.first + " of layer " + std::to_string(k));
            w.same(b, "backward of " + M, [&](const std::string& key) { int k; std::string r; return w.layer_of(key, s, k, r) && r.size() > 5 && r.substr(r.size() - 5) == ":grad"; });
            ++bw; if (lastop != i) inter = true; continue;
        }
        // forward
        if (!s.compiled) { m.compile(); s.compiled = true; }
        s.in = gen_inputs(c, s.n, s.keep, true); s.out.clear(); for (int v : s.n.outs) s.out.emplace_back(s.n.vs[v]);
        for (auto& t : s.out) std::fill_n(t.data(), t.total(), 0.f);
        c.desc << "fwd " << M << "; "; c.publish();
        Built bv = w.view(s); s.R->sync(bv); bool all_train = true;
        for (size_t k = 0; k < F.mode.size(); ++k) { s.R->fixed[k] = !F.mode[k]; if (s.R->need[k] && !F.mode[k]) all_train = false; }
        auto b = w.all(); s.R->forward(s.in, true); m.forward(s.in, s.out); s.fwd = all_train; ++fw; lastop = i;
        for (size_t q = 0; q < s.out.size(); ++q) compare(c, s.out[q], s.R->val[s.n.outs[q]], M + ": output " + std::to_string(q));
        for (auto& g : s.keep) c.check(g.unchanged(), M + ": forward modified an input");
        for (size_t k = 0; k < F.info.size(); ++k) if (s.R->need[k] && F.mode[k]) for (auto& kv : s.R->buf[k]) compare(c, F.info[k].buffers().at(kv.first), kv.second, M + ": " + kv.first + " of layer " + std::to_string(k));
        w.same(b, "forward of " + M, [&](const std::string& key) { if (key.compare(0, 3, "out") == 0) return std::stoi(key.substr(3)) == i; int k; std::string r; return w.layer_of(key, s, k, r) && F.mode[k] && r.size() > 4 && r.substr(r.size() - 4) == ":buf"; });
    }
    if (shared) c.label("common-layers"); if (fams > 1) c.label("independent-models"); if (copies) c.label("copied-handle"); if (dropped) c.label("handle-destroyed"); if (inter) c.label("backward-after-another-model-ran"); if (bw) c.label("backward");
    c.nontrivial(fw >= 2 && w.S.size() >= 2);
}
}
PBT_PROPERTY("C36", "histories of build, copy, compile, mode switch, forward, backward, optimizer step, parameter change and destruction over 2-6 models built on one or two random expressions (same or different architectures, other outputs and cuts of one expression); after every operation everything not belonging to the model is compared bit for bit; non-trivial = at least two models and two forward runs") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::Registry::get().assumptions.push_back("dropout with p > 0 is excluded; a backward pass is only made after a training-mode forward of that model with unchanged parameters; models over common layers use named layers, since generated names are per model");
    pbt::large_facet("large", 60, run);
    pbt::marathon_facet("marathon", 30, run);
    pbt::facet("models", 9000, run, 12, 40);
}
