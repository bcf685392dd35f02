// Files in a scratch directory, and comparison of models and configurations.
#pragma once
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <deepworks/serialization.hpp>
#include "graph.hpp"

inline std::string scratch(const std::string& n) {
    const char* d = getenv("PBT_SCRATCH"); return std::string(d ? d : ".") + "/" + std::to_string(getpid()) + "-" + n;
}
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(s.data(), std::streamsize(s.size())); }
struct Rm { std::vector<std::string> ps; std::string operator()(const std::string& n) { ps.push_back(scratch(n)); return ps.back(); } ~Rm() { for (auto& p : ps) { chmod(p.c_str(), 0600); unlink(p.c_str()); } } };

inline std::string attr_str(const dw::Attribute& a) {
    std::ostringstream o; o << int(a.shape()) << ":" << int(a.type()) << ":"; char b[64];
    auto f = [&](float x) { uint32_t u; memcpy(&u, &x, 4); snprintf(b, sizeof b, "%08x", u); o << b << " "; };
    if (a.shape() == dw::AttrShape::VALUE) { if (a.type() == dw::AttrType::INT) o << a.get<int>(); else f(a.get<float>()); }
    else if (a.type() == dw::AttrType::INT) o << a.get<std::array<int, 2>>()[0] << "," << a.get<std::array<int, 2>>()[1];
    else { f(a.get<std::array<float, 2>>()[0]); f(a.get<std::array<float, 2>>()[1]); }
    return o.str();
}
inline std::map<std::string, std::string> attrs_str(const dw::Attributes& m) { std::map<std::string, std::string> r; for (auto& kv : m) r[kv.first] = attr_str(kv.second); return r; }
inline void same_cfg(Case& c, const dw::Model::Config& a, const dw::Model::Config& b, const std::string& w) {
    c.check(a.input_ids == b.input_ids, w + ": input ids " + str(b.input_ids) + ", expected " + str(a.input_ids));
    c.check(a.output_ids == b.output_ids, w + ": output ids " + str(b.output_ids) + ", expected " + str(a.output_ids));
    c.check(a.ph_map.size() == b.ph_map.size(), w + ": another number of placeholders");
    for (auto& kv : a.ph_map) c.check(b.ph_map.count(kv.first) && b.ph_map.at(kv.first).shape == kv.second.shape && b.ph_map.at(kv.first).id == kv.second.id, w + ": placeholder " + std::to_string(kv.first) + " differs");
    c.check(a.sorted_ops.size() == b.sorted_ops.size(), w + ": another number of operations");
    for (size_t i = 0; i < a.sorted_ops.size(); ++i) {
        auto &x = a.sorted_ops[i], &y = b.sorted_ops[i]; std::string o = w + ": operation " + std::to_string(i) + " ";
        c.check(x.name == y.name, o + "is named '" + y.name + "', expected '" + x.name + "'"); c.check(x.type == y.type, o + "has type " + y.type + ", expected " + x.type);
        c.check(x.in_ids == y.in_ids && x.out_ids == y.out_ids, o + "is connected differently"); c.check(attrs_str(x.attrs) == attrs_str(y.attrs), o + "has other attributes");
    }
}
// Structure by layer name: type, attributes, where the inputs come from.
inline std::map<std::string, std::string> structure_of(const dw::Model& m) {
    auto& cfg = m.cfg(); std::map<int, std::string> src; std::map<std::string, std::string> r; std::ostringstream io;
    for (size_t i = 0; i < cfg.input_ids.size(); ++i) { src[cfg.input_ids[i]] = "input" + std::to_string(i); io << str(cfg.ph_map.at(cfg.input_ids[i]).shape) << " "; }
    for (auto& o : cfg.sorted_ops) {
        std::ostringstream s; s << o.type << "("; for (int i : o.in_ids) s << "<" << src[i] << ">"; s << ")"; for (auto& kv : attrs_str(o.attrs)) s << " " << kv.first << "=" << kv.second;
        src[o.out_ids.at(0)] = o.name; s << " -> " << str(cfg.ph_map.at(o.out_ids[0]).shape); r["layer " + o.name] = s.str();
    }
    io << "->"; for (int i : cfg.output_ids) io << " <" << src[i] << ">"; r["io"] = io.str();
    return r;
}
inline void same_structure(Case& c, const dw::Model& a, const dw::Model& b, const std::string& w) {
    auto x = structure_of(a), y = structure_of(b);
    for (auto& kv : x) { c.check(y.count(kv.first), w + ": " + kv.first + " is missing"); c.check(y[kv.first] == kv.second, w + ": " + kv.first + " is " + y[kv.first] + ", expected " + kv.second); }
    c.check(x.size() == y.size() && a.layers().size() == b.layers().size(), w + ": additional layers");
    c.check(a.inputs().size() == b.inputs().size() && a.outputs().size() == b.outputs().size(), w + ": another number of inputs or outputs");
    for (size_t i = 0; i < a.inputs().size(); ++i) c.check(a.inputs()[i].shape() == b.inputs()[i].shape(), w + ": input " + std::to_string(i) + " has another shape");
    for (size_t i = 0; i < a.outputs().size(); ++i) c.check(a.outputs()[i].shape() == b.outputs()[i].shape(), w + ": output " + std::to_string(i) + " has another shape");
}
using Snap = std::map<std::string, std::pair<dw::Shape, std::string>>;
inline Snap snap_state(const dw::Model::StateDict& s) { Snap r; for (auto& kv : s) r[kv.first] = {kv.second.shape(), std::string(reinterpret_cast<const char*>(kv.second.data()), 4 * kv.second.total())}; return r; }
inline void same_state(Case& c, const Snap& want, const dw::Model::StateDict& got, const std::string& w) {
    auto g = snap_state(got); c.check(g.size() == want.size(), w + ": another number of state entries");
    for (auto& kv : want) { c.check(g.count(kv.first), w + ": state lacks " + kv.first); c.check(g[kv.first].first == kv.second.first, w + ": shape of " + kv.first + " differs"); c.check(g[kv.first].second == kv.second.second, w + ": " + kv.first + " is not bit-identical"); }
}
inline void garbage_state(Case& c, dw::Model::StateDict& s) {   // any bit pattern
    std::map<std::string, dw::Tensor> o(s.begin(), s.end());
    for (auto& kv : o) { pbt::Expand x(c.seed32()); int m = int(c.draw(3)); for (size_t i = 0; i < kv.second.total(); ++i) { uint32_t b = uint32_t(x.u64() >> 16); if (m == 1) b = 0x0a0d1a00u + (b & 0xff); if (m == 2) { static const uint32_t t[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 0x7f800001u, 1u, 0x807fffffu, 0x0d0a0d0au, 0x1a1a1a1au, 0xffffffffu}; b = t[b % 11]; } memcpy(kv.second.data() + i, &b, 4); } }
}
inline void odd_names(Case& c, Net& n) {
    if (c.flag(25)) for (auto& k : n.nodes) if (c.flag(30)) {
        std::string base = c.pick(std::vector<std::string>{std::string("a\0b", 3), "line\nbreak", "\xff\xfe", std::string(300, 'x'), "\"quoted\"", "\x1a\r\n", " "});
        k.name = base + "#" + std::to_string(k.out);
    }
}
