// C02: copyTo, views, printing.
#include "layerutil.hpp"
#include <deepworks/deepworks.hpp>
#include <sstream>
#include <iomanip>
#include <deque>

namespace {
std::vector<int> gshape(Case& c, int64_t cap = 5000) {
    if (pbt::big()) return large_shape(c, 5000, 1000000);
    int rank = int(c.sized(1, 5, 10, 8)); std::vector<int> s(rank); int64_t tot = 1;
    for (auto& d : s) { d = int(c.sized(1, 6, 400, 12)); if (tot * d > cap) d = 1; tot *= d; }
    return s;
}
void bits(Case& c, float* p, size_t n) {
    pbt::Expand x(c.seed32()); int mode = int(c.draw(3));
    for (size_t i = 0; i < n; ++i) {
        uint32_t b = uint32_t(x.u64());
        if (mode == 1) { float f = float(int(x.below(2000)) - 1000); memcpy(&b, &f, 4); }
        if (mode == 2) b = uint32_t(i + 1);
        memcpy(p + i, &b, 4);
    }
}
void copy_ok(Case& c) {
    auto s = gshape(c);
    GT a(c, s), b(c, s);
    bits(c, a.data(), a.size()); a.take();
    c.desc << "copyTo " << str(s) << (a.store ? " from view" : "") << (b.store ? " into view" : ""); c.publish();
    int n = int(c.integer(1, 3));
    for (int k = 0; k < n; ++k) {
        if (c.flag(25)) {                  // the destination holds almost the same: equal bits or equal-comparing values here and there
            pbt::Expand e(c.seed32()); bool zeros = c.flag(60);
            for (size_t i = 0; i < a.size(); ++i) {
                if (zeros && e.below(3)) { uint32_t z = e.below(2) ? 0u : 0x80000000u; memcpy(a.data() + i, &z, 4); z ^= 0x80000000u; memcpy(b.data() + i, &z, 4); }
                else if (e.below(3)) memcpy(b.data() + i, a.data() + i, 4);
            }
            a.take(); c.label("almost-equal-destination");
        }
        dw::Tensor dst = b.t;          // through another handle of the same tensor
        a.t.copyTo(k % 2 ? b.t : dst);
        c.check(a.unchanged(), "source modified by copyTo");
        c.check(memcmp(a.data(), b.data(), a.size() * 4) == 0, "destination differs from the source");
        c.check(a.guards_ok() && b.guards_ok(), "memory next to the tensors was written");
        c.check(b.t.shape() == s, "destination shape changed");
        bits(c, a.data(), a.size()); a.take();
        // no aliasing was created by the copy
        std::vector<float> old = a.snap; (void)old;
        b.take();
        if (a.size()) { uint32_t u; memcpy(&u, a.data(), 4); u ^= 1; memcpy(a.data(), &u, 4); a.take(); }
        c.check(b.unchanged(), "destination aliases the source after the copy");
    }
    c.nontrivial(a.size() > 1);
    c.label(a.size() > 1000 ? "large" : "small");
}
void copy_rejected(Case& c) {
    auto s = gshape(c, 600); auto r = s;
    int kind = int(c.draw(5));
    switch (kind) {
    case 0: r[c.draw(r.size())] += 1 + int(c.draw(3)); break;
    case 1: r.push_back(1); break;
    case 2: r.insert(r.begin(), 1); break;
    case 3: { size_t i = c.draw(r.size()), j = c.draw(r.size()); std::swap(r[i], r[j]); if (r == s) r.push_back(2); break; }
    case 4: r.clear(); break;                 // unallocated destination
    }
    c.desc << "copyTo " << str(s) << " -> " << (kind == 4 ? "unallocated" : str(r)); c.publish();
    GT a(c, s); bits(c, a.data(), a.size()); a.take();
    GT b; if (kind != 4) { b = GT(c, r); bits(c, b.data(), b.size()); b.take(); }
    bool threw = false;
    try { a.t.copyTo(b.t); } catch (const std::exception&) { threw = true; }
    c.check(threw, "mismatching destination accepted");
    c.check(a.unchanged() && a.guards_ok(), "source changed by rejected copy");
    if (kind != 4) c.check(b.unchanged() && b.guards_ok() && b.t.shape() == r, "destination changed by rejected copy");
    else c.check(b.t.empty() && b.t.shape().empty() , "unallocated destination changed");
    c.nontrivial();
}
void copy_empty_to_empty(Case& c) {
    dw::Tensor a, b; bool threw = false;
    c.desc << "unallocated to unallocated";
    try { a.copyTo(b); } catch (const std::exception&) { threw = true; }
    c.check(threw, "copy into an unallocated tensor accepted");
}
void views(Case& c) {
    // several disjoint views over one buffer, random reads/writes/copies through them
    std::vector<float> buf(2048); for (size_t i = 0; i < buf.size(); ++i) buf[i] = float(i);
    std::vector<float> model = buf;
    struct V { size_t off; std::vector<int> s; };
    std::vector<V> vs; std::deque<dw::Tensor> ts; size_t pos = c.draw(5);
    int n = int(c.integer(1, 5));
    std::vector<int> shared = gshape(c, 200);
    for (int i = 0; i < n; ++i) {
        auto s = c.flag(60) ? shared : gshape(c, 200); size_t t = ref::total(s);
        if (pos + t > buf.size()) break;
        vs.push_back({pos, s}); ts.emplace_back(s, buf.data() + pos); pos += t + c.draw(4);
        c.desc << "view " << str(s) << "@" << vs.back().off << " ";
    }
    if (vs.empty()) return;
    c.publish();
    int steps = int(c.integer(1, 10)), copies = 0;
    for (int k = 0; k < steps; ++k) {
        size_t i = c.draw(vs.size()); size_t t = ref::total(vs[i].s);
        switch (c.draw(4)) {
        case 0: { size_t e = c.draw(t); float v = float(c.integer(-99, 99)); ts[i].data()[e] = v; model[vs[i].off + e] = v; break; }
        case 1: { size_t e = c.draw(t); float v = float(c.integer(-99, 99)); buf[vs[i].off + e] = v; model[vs[i].off + e] = v; break; }
        case 2: { size_t j = c.draw(vs.size()); if (j == i || vs[i].s != vs[j].s) break;
                  ts[i].copyTo(ts[j]); for (size_t e = 0; e < t; ++e) model[vs[j].off + e] = model[vs[i].off + e]; ++copies; break; }
        case 3: { dw::Tensor own(vs[i].s); ts[i].copyTo(own);      // out and back in
                  for (size_t e = 0; e < t; ++e) { c.check(own.data()[e] == model[vs[i].off + e], "copy out of a view differs"); own.data()[e] += 1; model[vs[i].off + e] += 1; }
                  own.copyTo(ts[i]); ++copies; break; }
        }
        c.check(memcmp(buf.data(), model.data(), buf.size() * 4) == 0, "memory behind the views differs from what was written");
        for (size_t q = 0; q < vs.size(); ++q) c.check(ts[q].data() == buf.data() + vs[q].off, "view no longer refers to the caller's memory");
    }
    // dropping and re-allocating view handles must not touch the caller's memory
    if (c.flag()) ts[0].allocate({3}); 
    ts.clear();
    c.check(memcmp(buf.data(), model.data(), buf.size() * 4) == 0, "destroying views changed the caller's memory");
    c.nontrivial(copies > 0);
}
void printing(Case& c) {
    auto s = gshape(c, c.flag(4) ? 60000 : c.flag(10) ? 5000 : 300);
    GT a(c, s); int style = gen_style(c, {INTS, UNIT, LOGU, TIES}); fill(c, a.data(), a.size(), style); a.take();
    int prec = int(c.integer(3, 9));
    std::ostringstream got, want; got << std::setprecision(prec); want << std::setprecision(prec);
    bool none = c.flag(3); c.label(a.size() > 1000 ? "print-large" : "print-small");
    if (none) { dw::Tensor e; got << e; want << "[ ]"; }
    else {
        got << a.t; want << "[";
        for (size_t i = 0; i < a.size(); ++i) want << (i ? ", " : "") << a.data()[i];
        want << "]";
    }
    c.desc << "print " << str(s);
    c.check(got.str() == want.str(), "printed '" + got.str().substr(0, 200) + "' expected '" + want.str().substr(0, 200) + "'");
    c.check(a.unchanged(), "printing changed the tensor");
    c.nontrivial(a.size() > 1);
}
}
PBT_PROPERTY("C02", "random shapes, raw bit patterns, owned tensors and guarded views; non-trivial = more than one element is moved, or the call has to be rejected") {
    pbt::facet("copy", 20000, copy_ok, 20, 100);
    pbt::large_facet("copy-large", 300, copy_ok);
    pbt::facet("copy-rejected", 10000, copy_rejected, 20, 100);
    pbt::facet("copy-unallocated", 40, copy_empty_to_empty, 1, 40);
    pbt::facet("views", 20000, views, 20, 100);
    pbt::facet("print", 8000, printing, 10, 100);
}
