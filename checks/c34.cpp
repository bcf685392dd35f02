// C34: DOT export.
#include <set>
#include "files.hpp"
namespace {
struct Bad { std::string msg; };
// A reader for the DOT language (statements, attribute lists, quoted and bare identifiers, comments).
struct Dot {
    struct NodeS { std::string id; std::map<std::string, std::string> attr; };
    struct EdgeS { std::string a, b; std::map<std::string, std::string> attr; };
    std::vector<NodeS> nodes; std::vector<EdgeS> edges;
    std::string s; size_t i = 0;
    [[noreturn]] void bad(const std::string& m) { throw Bad{m + " at offset " + std::to_string(i) + " near '" + s.substr(i > 20 ? i - 20 : 0, 40) + "'"}; }
    void ws() {
        for (;;) {
            while (i < s.size() && isspace((unsigned char)s[i])) ++i;
            if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; }
            else if (s.compare(i, 2, "/*") == 0) { auto e = s.find("*/", i); if (e == s.npos) bad("open comment"); i = e + 2; }
            else return;
        }
    }
    bool eat(const std::string& t) { ws(); if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
    std::string ident(bool& quoted) {
        ws(); quoted = false; if (i >= s.size()) bad("end of file");
        std::string r; unsigned char ch = s[i];
        if (ch == '"') {
            quoted = true; ++i;
            for (;; ++i) { if (i >= s.size()) bad("open string"); if (s[i] == '\\' && i + 1 < s.size()) { ++i; r += s[i] == 'n' || s[i] == 'l' || s[i] == 'r' ? '\n' : s[i]; continue; } if (s[i] == '"') { ++i; return r; } r += s[i]; }
        }
        if (isalpha(ch) || ch == '_' || ch >= 0x80) { while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || (unsigned char)s[i] >= 0x80)) r += s[i++]; return r; }
        if (isdigit(ch) || ch == '.' || ch == '-') { if (ch == '-') r += s[i++]; size_t d = 0; bool dot = false; while (i < s.size() && (isdigit((unsigned char)s[i]) || (s[i] == '.' && !dot))) { dot |= s[i] == '.'; d += s[i] != '.'; r += s[i++]; } if (!d) bad("no identifier"); if (i < s.size() && (isalpha((unsigned char)s[i]) || s[i] == '_')) bad("malformed number"); return r; }
        bad("no identifier");
    }
    std::string lower(std::string x) { for (auto& ch : x) ch = char(tolower(ch)); return x; }
    bool keyword(const std::string& x) { auto l = lower(x); return l == "node" || l == "edge" || l == "graph" || l == "digraph" || l == "subgraph" || l == "strict"; }
    void attrs(std::map<std::string, std::string>& a) {
        while (eat("[")) while (!eat("]")) { bool q; auto k = ident(q); if (!q && keyword(k)) bad("keyword as attribute"); if (!eat("=")) bad("attribute without value"); a[k] = ident(q); if (!eat(",")) eat(";"); }
    }
    void parse(const std::string& text) {
        s = text; bool q; eat("strict");
        if (lower(ident(q)) != "digraph" || q) bad("not a digraph");
        if (!eat("{")) { auto g = ident(q); if (!q && keyword(g)) bad("keyword as graph name"); if (!eat("{")) bad("no body"); }
        while (!eat("}")) {
            if (eat(";")) continue;
            auto a = ident(q);
            if (!q && keyword(a)) { if (lower(a) == "graph" || lower(a) == "node" || lower(a) == "edge") { std::map<std::string, std::string> d; ws(); if (i >= s.size() || s[i] != '[') bad("defaults without a list"); attrs(d); continue; } bad("keyword as node"); }
            if (eat("=")) { ident(q); continue; }
            if (eat("->")) {
                std::vector<std::string> chain{a}; do { chain.push_back(ident(q)); if (!q && keyword(chain.back())) bad("keyword as node"); } while (eat("->"));
                std::map<std::string, std::string> at; attrs(at); for (size_t k = 0; k + 1 < chain.size(); ++k) edges.push_back({chain[k], chain[k + 1], at});
            } else { ws(); if (i < s.size() && (s[i] == '-' || s[i] == ':')) bad("unexpected token"); NodeS n; n.id = a; attrs(n.attr); nodes.push_back(n); }
        }
        ws(); if (i != s.size()) bad("text after the graph");
    }
};
std::string num(const std::string& s, const std::string& key) { auto p = s.find(key); if (p == s.npos) return "?"; p += key.size(); std::string r; while (p < s.size() && !isdigit((unsigned char)s[p])) ++p; while (p < s.size() && isdigit((unsigned char)s[p])) r += s[p++]; return r; }
std::vector<int> ints(const std::string& s) { std::vector<int> r; for (size_t i = 0; i < s.size();) if (isdigit((unsigned char)s[i])) { int v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); r.push_back(v); } else ++i; return r; }
void graphs(Case& c) {
    NetOpt o; o.deep = true; Net n = gen_net(c, o);
    if (c.flag(60)) for (auto& k : n.nodes) if (c.flag(40)) {
        k.name = c.pick(std::vector<std::string>{"my-layer", "1st", "a b", "node", "Graph", "quo\"te", "back\\", "\\", "\"", "x]y", "a->b", "semi;colon", "{", "line\nbreak", "//c", "/*", "\xc3\xa9", "3.5", "-", "conv1", "a\\\"b", "#", "<b>", "%s%n", "Placeholder_", "Operation_Placeholder_", "Placeholder_0\n[2, 2]"});
        if (c.flag(40)) k.name += std::to_string(c.draw(12));
        if (c.flag(25)) { static const std::string abc("ab \"\\\n.x[]{};->9\\\""); std::string s; size_t len = c.sized(1, 40, 300); pbt::Expand x(c.seed32()); for (size_t i = 0; i < len; ++i) s += abc[x.below(abc.size())]; k.name = c.flag() ? s + k.name : k.name + s; c.label("long-awkward-name"); }
    }
    { std::set<std::string> s; for (auto& k : n.nodes) if (!k.name.empty() && !s.insert(k.name).second) k.name.clear(); }
    c.desc << n.str(); c.publish();
    Built b = build(c, n); if (c.flag(20)) b.model.compile();
    const auto& cfg = b.model.cfg();
    Rm rm; auto p = rm("dot"); if (c.flag(30)) spit(p, std::string(c.sized(1, 3000, 60000), '}'));
    dw::save_dot(cfg, p);
    Dot d; try { d.parse(slurp(p)); } catch (const Bad& e) { c.fail("the file is not valid DOT: " + e.msg); }
    // nodes: one per placeholder, with its shape, and one per layer, with name and type
    std::map<std::string, int> ids; for (auto& x : d.nodes) c.check(++ids[x.id] == 1, "node '" + x.id + "' is declared twice");
    c.check(d.nodes.size() == cfg.ph_map.size() + cfg.sorted_ops.size(), std::to_string(d.nodes.size()) + " nodes, expected " + std::to_string(cfg.ph_map.size() + cfg.sorted_ops.size()));
    // a node is recognised by its label, so that any scheme of node ids will do
    std::map<std::string, std::string> node;                        // what it is -> node id
    auto phid = [](int id) { return "value " + std::to_string(id); };
    for (auto& kv : cfg.ph_map) {
        std::string nm = "Placeholder_" + std::to_string(kv.first) + "\n", found; int k = 0;
        for (auto& x : d.nodes) { auto& l = x.attr["label"]; if (l.compare(0, nm.size(), nm) == 0 && !l.empty() && l.back() != ')') { found = x.id; ++k; auto got = ints(l.substr(nm.size())); c.check(got == kv.second.shape, "label '" + l + "' shows shape " + str(got) + ", expected " + str(kv.second.shape)); } }
        c.check(k == 1, std::to_string(k) + " nodes for placeholder " + std::to_string(kv.first)); node[found] = phid(kv.first);
    }
    for (auto& o : cfg.sorted_ops) {
        std::string nm = o.name + " (" + o.type + ")", found; int k = 0;
        for (auto& x : d.nodes) if (x.attr["label"] == nm) { found = x.id; ++k; }
        c.check(k == 1, std::to_string(k) + " nodes for layer '" + nm + "'"); c.check(!node.count(found), "two nodes share the id '" + found + "'"); node[found] = o.name;
    }
    // edges, with their ports
    std::multiset<std::string> want, got;
    for (auto& o : cfg.sorted_ops) {
        for (size_t k = 0; k < o.in_ids.size(); ++k) want.insert(phid(o.in_ids[k]) + " -> " + o.name + " in " + std::to_string(k));
        for (size_t k = 0; k < o.out_ids.size(); ++k) want.insert(o.name + " -> " + phid(o.out_ids[k]) + " out " + std::to_string(k));
    }
    auto who = [&](const std::string& id) { auto it = node.find(id); return it == node.end() ? "unknown node '" + id + "'" : it->second; };
    for (auto& e : d.edges) { auto& l = e.attr["label"]; bool out = l.find("out_port") != l.npos; got.insert(who(e.a) + " -> " + who(e.b) + (out ? " out " + num(l, "out_port") : " in " + num(l, "in_port"))); }
    for (auto& w : want) c.check(got.count(w) == want.count(w), "edge " + w + " occurs " + std::to_string(got.count(w)) + " times, expected " + std::to_string(want.count(w)));
    c.check(got.size() == want.size(), "the file has " + std::to_string(got.size()) + " edges, the model " + std::to_string(want.size()));
    label_net(c, n);
}
void unwritable(Case& c) {
    NetOpt o; o.max_nodes = 3; Net n = gen_net(c, o); Built b = build(c, n); Rm rm; auto f = rm("plain"); spit(f, "x");
    std::string p; switch (c.draw(3)) { case 0: p = scratch("no/such/dir/m.dot"); break; case 1: p = f + "/m.dot"; break; default: p = "/dev/full"; }
    c.desc << n.str() << " to " << (p == "/dev/full" ? p : p.substr(p.rfind('/', p.size() - 7))); c.publish();
    bool threw = false; try { dw::save_dot(b.model.cfg(), p); } catch (const std::exception&) { threw = true; }
    c.check(threw, "writing to a path that cannot be written did not raise an exception"); c.nontrivial();
}
}
PBT_PROPERTY("C34", "random layer graphs with ordinary and awkward layer names, exported and parsed back with a DOT reader; non-trivial = at least two layers and a fan-out, several inputs or outputs, or four layers (or: an unwritable path)") {
    pbt::Registry::get().assumptions.push_back("the graph library the repository uses (ade) is absent; a shim with the same interface takes its place");
    pbt::facet("graphs", 6000, graphs, 12, 40);
    pbt::large_facet("graphs-large", 200, graphs);
    pbt::facet("unwritable", 300, unwritable, 6, 40);
}
