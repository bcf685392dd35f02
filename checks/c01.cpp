// C01: tensor geometry over histories, against an explicit model of handles,
// descriptors and storage.
#include "layerutil.hpp"
#include <deepworks/deepworks.hpp>

namespace {
struct Model {                      // one shared tensor body
    std::vector<int> shape; bool allocated = false;
    float* base = nullptr;          // expected data pointer
    std::vector<float> content;     // expected elements (small tensors only)
    bool huge = false;
};
struct Handle { dw::Tensor t; int body; };

uint64_t product(const std::vector<int>& s) { uint64_t p = 1; for (int d : s) p *= uint64_t(d); return p; }

std::vector<int> small_shape(Case& c, bool zero_ok) {
    if (pbt::big()) return large_shape(c, 3000, 300000, 1, 6);
    int rank = int(c.sized(1, 5, 12, 10));
    std::vector<int> s(rank);
    uint64_t tot = 1;
    for (auto& d : s) {
        d = int(c.sized(1, 5, 40, 10));
        if (zero_ok && c.flag(4)) d = 0;
        if (d && tot * d > 3000) d = 1;
        tot *= d ? d : 1;
    }
    return s;
}
std::vector<int> refactor(Case& c, uint64_t total) {        // a random shape with exactly this many elements
    std::vector<int> s;
    if (total == 0) { s = small_shape(c, false); s[c.draw(s.size())] = 0; return s; }
    uint64_t rest = total;
    int rank = int(c.integer(1, 5));
    for (int i = 0; i + 1 < rank; ++i) {
        std::vector<uint64_t> divs;
        for (uint64_t d = 1; d <= 64 && d <= rest; ++d) if (rest % d == 0) divs.push_back(d);
        uint64_t d = c.pick(divs); s.push_back(int(d)); rest /= d;
    }
    while (rest > 1u << 30) { s.push_back(1 << 10); rest >>= 10; }
    s.push_back(int(rest));
    if (c.flag(50)) c.shuffle(s.begin(), s.end());
    return s;
}

void check_all(Case& c, const std::vector<Handle>& hs, const std::vector<Model>& ms, const std::string& when) {
    for (size_t k = 0; k < hs.size(); ++k) {
        const auto& t = hs[k].t; const auto& m = ms[hs[k].body];
        auto ctx = [&] { return "after " + when + ", handle " + std::to_string(k) + ": "; };
        if (t.shape() != m.shape) c.fail(ctx() + "shape " + str(t.shape()) + " expected " + str(m.shape));
        uint64_t total = m.allocated ? product(m.shape) : 0;
        if (t.total() != total) c.fail(ctx() + "total " + std::to_string(t.total()) + " expected " + std::to_string(total) + " shape " + str(m.shape));
        if (t.empty() != (total == 0)) c.fail(ctx() + "empty() wrong");
        if (t.strides().size() != m.shape.size()) c.fail(ctx() + "strides rank");
        uint64_t st = 1;
        for (size_t i = m.shape.size(); i--;) {
            if (t.strides()[i] != st) c.fail(ctx() + "stride " + std::to_string(i) + " is " + std::to_string(t.strides()[i]) + " expected " + std::to_string(st) + " shape " + str(m.shape));
            st *= uint64_t(m.shape[i]);
        }
        if (m.base && total && t.data() != m.base) c.fail(ctx() + "storage is not shared as expected");
        if (!m.huge) for (size_t i = 0; i < total; ++i)
            if (t.data()[i] != m.content[i]) c.fail(ctx() + "element " + std::to_string(i) + " changed");
    }
}

void history(Case& c) {
    std::vector<Handle> hs; std::vector<Model> ms;
    std::vector<float> ext(pbt::sz(8192, 2000000)); for (size_t i = 0; i < ext.size(); ++i) ext[i] = float(i) * 0.5f;
    float serial = 1000;
    auto fresh = [&](Model m) { ms.push_back(std::move(m)); return int(ms.size()) - 1; };
    auto stamp = [&](Handle& h) {         // give an owned tensor recognisable contents
        Model& m = ms[h.body];
        m.base = h.t.data();
        m.content.resize(product(m.shape));
        for (size_t i = 0; i < m.content.size(); ++i) { m.content[i] = serial; h.t.data()[i] = serial; serial += 1; }
    };
    size_t ext_used = 0;
    int steps = int(c.integer(1, pbt::sz(30, 12)));
    int rejected = 0, shared = 0, reshaped = 0;
    for (int k = 0; k < steps; ++k) {
        std::string when; int op = int(c.draw(10));
        if (hs.empty() && op > 3) op = int(c.draw(4));
        if (hs.size() >= 8 && op <= 3) op = 4 + int(c.draw(6));
        switch (op) {
        case 0: { hs.push_back({dw::Tensor(), fresh({})}); when = "default construction"; break; }
        case 1: {
            auto s = small_shape(c, true);
            Model m; m.shape = s; m.allocated = true;
            when = "construction " + str(s);
            hs.push_back({dw::Tensor(s), fresh(m)}); stamp(hs.back()); break;
        }
        case 2: {
            std::vector<int> s; bool huge = c.flag(20);
            Model m; m.allocated = true;
            if (huge) {
                int rank = int(c.integer(1, 5)); uint64_t tot = 1;
                for (int i = 0; i < rank; ++i) { int d = 1 << c.integer(0, 22); if (c.flag(30)) d += int(c.draw(7)); if (double(tot) * d > 1e14) d = 3; tot *= d; s.push_back(d); }
                m.huge = true; m.base = ext.data();
                c.label(tot > 0x7fffffffull ? "view-over-2^31" : "view-large");
            } else {
                s = small_shape(c, false); size_t n = product(s);
                if (ext_used + n > ext.size()) break;
                m.base = ext.data() + ext_used; m.content.assign(m.base, m.base + n); ext_used += n;
            }
            m.shape = s; when = "view " + str(s);
            hs.push_back({dw::Tensor(s, m.base), fresh(m)}); break;
        }
        case 3: {
            auto s = small_shape(c, false);
            float v = float(c.integer(-5, 5)); int kind = int(c.draw(2));
            Model m; m.shape = s; m.allocated = true; m.content.assign(product(s), kind ? v : 0.f);
            when = "factory " + str(s);
            hs.push_back({kind ? dw::Tensor::constant(s, v) : dw::Tensor::zeros(s), fresh(m)});
            ms.back().base = hs.back().t.data(); break;
        }
        case 4: {                                   // share a handle
            size_t a = c.draw(hs.size());
            if (hs.size() < 8 && c.flag(60)) { hs.push_back(hs[a]); when = "copy construction"; }
            else { size_t b = c.draw(hs.size()); hs[b].t = hs[a].t; hs[b].body = hs[a].body; when = "assignment"; }
            ++shared; break;
        }
        case 5: {
            Handle& h = hs[c.draw(hs.size())]; Model& m = ms[h.body];
            auto s = small_shape(c, true);
            if (c.flag(40) && m.allocated && !m.huge && product(m.shape) < 400000) s = c.flag() ? m.shape : refactor(c, product(m.shape));     // the size it has already
            h.t.allocate(s); m.shape = s; m.allocated = true; m.huge = false;
            when = "allocate " + str(s);
            if (product(s)) {                       // storage of its own
                const float* b = h.t.data(), *e = b + product(s);
                c.check(e <= ext.data() || b >= ext.data() + ext.size(), "after " + when + " a former view still uses the caller's memory");
                for (size_t j = 0; j < hs.size(); ++j) if (hs[j].body != h.body && !hs[j].t.empty() && !ms[hs[j].body].huge)
                    c.check(e <= hs[j].t.data() || b >= hs[j].t.data() + hs[j].t.total(), "after " + when + " two independent tensors share storage");
            }
            m.base = nullptr; m.content.clear();
            stamp(h); break;
        }
        case 6: case 7: {
            Handle& h = hs[c.draw(hs.size())]; Model& m = ms[h.body];
            uint64_t tot = m.allocated ? product(m.shape) : 0;
            auto s = refactor(c, tot);
            if (product(s) != tot) break;
            h.t.reshape(s); m.shape = s; m.allocated = true; when = "reshape " + str(s); ++reshaped; break;
        }
        case 8: {                                   // rejected calls
            Handle& h = hs[c.draw(hs.size())]; Model& m = ms[h.body];
            uint64_t tot = m.allocated ? product(m.shape) : 0;
            std::vector<int> s; bool alloc = false;
            switch (c.draw(5)) {
            case 0: s = refactor(c, tot + 1 + c.draw(5)); break;                 // other count
            case 1: s = refactor(c, tot); s.push_back(-1); s.push_back(-1); break;   // negative, product equal
            case 2: s = small_shape(c, false); s[c.draw(s.size())] *= -1; alloc = true; break;
            case 3: s = refactor(c, tot); s[c.draw(s.size())] = -int(c.integer(1, 4)); break;
            case 4: {                                                            // another count that is the same modulo 2^32 (or 2^31)
                uint64_t wrap = c.flag(70) ? 1ull << 32 : 1ull << 31, d = tot ? tot & -tot : 1ull << 16; d = std::min(d, uint64_t(1) << 20);
                if (tot > 1ull << 33 || d < 4) { s = refactor(c, tot + 1); break; }
                s = {int(d), int((tot + wrap) / d)}; c.label("count-modulo-2^32"); break;
            }
            }
            if (c.draw(2) && s.size() > 1) std::swap(s.front(), s.back());
            bool neg = false; for (int d : s) neg |= d < 0;
            if (!neg && product(s) == tot) break;
            when = std::string("rejected ") + (alloc ? "allocate " : "reshape ") + str(s);
            bool threw = false;
            try { if (alloc) h.t.allocate(s); else h.t.reshape(s); } catch (const std::exception&) { threw = true; }
            c.desc << when << "; "; c.publish();
            c.check(threw, when + " on " + str(m.shape) + " was accepted");
            ++rejected; break;
        }
        case 9: {                                   // write through one handle
            Handle& h = hs[c.draw(hs.size())]; Model& m = ms[h.body];
            if (m.huge || m.content.empty()) break;
            size_t i = c.draw(m.content.size()); m.content[i] = serial; h.t.data()[i] = serial; serial += 1; when = "write"; break;
        }
        }
        if (when.empty()) continue;
        if (op != 8) { c.desc << when << "; "; c.publish(); }
        check_all(c, hs, ms, when);
    }
    c.label("ops", steps); c.label("rejections", rejected); c.label("reshapes", reshaped); c.label("shares", shared);
    c.nontrivial(reshaped > 0 && (rejected > 0 || shared > 0));
}
void rejected_ctor(Case& c) {
    auto s = small_shape(c, false); s[c.draw(s.size())] = -int(c.integer(1, 1000));
    c.desc << "constructor with " << str(s);
    float x[4]; bool t1 = false, t2 = false;
    try { dw::Tensor t(s); } catch (const std::exception&) { t1 = true; }
    try { dw::Tensor t(s, x); } catch (const std::exception&) { t2 = true; }
    c.check(t1, "allocating constructor accepted " + str(s));
    c.check(t2, "view constructor accepted " + str(s));
    c.nontrivial();
}
}
PBT_PROPERTY("C01", "random histories of tensor operations on up to 8 handles, checked against a model after every step; non-trivial = the history reshapes and also shares a handle or makes a call that must be rejected") {
    pbt::facet("history", 40000, history, 20, 200);
    pbt::large_facet("large", 300, history);
    pbt::facet("rejected-constructors", 2000, rejected_ctor, 5, 200);
    pbt::Registry::get().assumptions = {"storage of huge shapes is never touched (views over 2^31 elements only inspect geometry)"};
}
