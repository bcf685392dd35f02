// C38: errors keep their description.
#include <condition_variable>
#include <exception>
#include <mutex>
#include <sstream>
#include <thread>
#include <deepworks/initializers.hpp>
#include <deepworks/tensor.hpp>
#include <deepworks/utils/assert.hpp>
#include "dwutil.hpp"
namespace {
using Ex = dw::utils::DeepWorksException;
std::string bit(Case& c) { return c.pick(std::vector<std::string>{"x", "", "a longer piece of a message, which does not fit into a small string", " ", "\n", "%s%n", "\"", "é", std::string(size_t(c.sized(1, 40, 3000)), 'm')}); }
template <class X> void stream_some(Case& c, X& x, std::string& want) {        // `want`: what an ostream makes of the same values
    std::ostringstream o; o << want; auto put = [&](const auto& v) { x << v; o << v; };
    for (int n = int(c.draw(5)); n > 0; --n) switch (c.draw(7)) {
    case 0: put(bit(c)); break;
    case 1: put(int(c.seed32())); break;
    case 2: put(c.pick({0.5f, 1e-7f, 3e38f, -0.f})); break;
    case 3: put("literal"); break;
    case 4: put(size_t(c.seed32()) << 20); break;
    case 5: { std::ostringstream t; ref::Shape s{1, int(c.draw(9)), 3}; t << s.size(); put(t.str()); break; }
    case 6: put(char('a' + c.draw(26))); break;
    }
    want = o.str();
}
bool ends(const std::string& s, const std::string& t) { return s.size() >= t.size() && !s.compare(s.size() - t.size(), t.size(), t); }

// histories of streaming, reading, copying and dropping
void histories(Case& c) {
    struct H { std::unique_ptr<Ex> e; std::string head; std::shared_ptr<std::string> want; std::vector<std::pair<const char*, std::string>> got; };
    std::vector<H> hs; int reads = 0, copies = 0;
    auto fresh = [&] { std::string f = bit(c), fn = bit(c); int line = int(c.draw(100000)); H h; h.e = std::make_unique<Ex>(line, f, fn); h.head = f + "\x01" + fn + "\x01" + std::to_string(line); h.want = std::make_shared<std::string>(); hs.push_back(std::move(h)); };
    auto read = [&](H& h) {
        const Ex& k = *h.e; const char* p = c.flag() ? k.what() : static_cast<const std::exception&>(k).what();
        c.check(p != nullptr, "what() is null"); std::string s(p); ++reads;
        c.check(ends(s, *h.want), "the description is '" + s.substr(0, 300) + "' and lacks '" + h.want->substr(0, 300) + "'");
        std::string rest = h.head; for (size_t a = 0, b; a <= rest.size(); a = b + 1) { b = rest.find('\x01', a); if (b == rest.npos) b = rest.size(); std::string part = rest.substr(a, b - a); c.check(s.find(part) != s.npos, "the description '" + s.substr(0, 300) + "' does not tell the place '" + part.substr(0, 100) + "'"); }
        h.got.emplace_back(p, s);
    };
    auto recheck = [&] { for (auto& h : hs) for (auto& g : h.got) c.check(g.second == g.first, "a description read earlier changed or vanished while its exception lives"); };
    fresh();
    int steps = int(c.sized(2, 10, 40));
    for (int s = 0; s < steps; ++s) {
        size_t k = c.draw(hs.size()); std::string what;
        switch (c.draw(7)) {
        case 0: what = "new"; fresh(); break;
        // adding to an exception may change what was read from it, and from its copies
        case 1: { what = "stream"; bool only = hs[k].want.use_count() == 1; if (only) { hs[k].got.clear(); stream_some(c, *hs[k].e, *hs[k].want); } break; }
        case 2: case 3: what = "read"; read(hs[k]); break;
        case 4: { what = "copy"; H h; h.head = hs[k].head; h.want = hs[k].want; h.e = std::make_unique<Ex>(*hs[k].e); hs.push_back(std::move(h)); ++copies; break; }
        case 6: { what = "assign"; size_t j = c.draw(hs.size()); *hs[j].e = *hs[k].e; hs[j].head = hs[k].head; hs[j].want = hs[k].want; hs[j].got.clear(); ++copies; break; }
        case 5: if (hs.size() > 1) { what = "drop"; hs.erase(hs.begin() + long(k)); } break;
        }
        c.desc << what << "; "; c.publish(); recheck();
    }
    for (auto& h : hs) read(h);
    recheck();
    c.nontrivial(reads > 1 && copies > 0);
}
[[noreturn]] void raise(int depth, const std::string& a, int b) { if (depth) raise(depth - 1, a, b); DeepWorks_Throw() << a << b << "!"; }
void guard(int x, int limit) { DeepWorks_Assert(x < limit && "x is too large"); }
// thrown, caught, rethrown, carried to other threads
void thrown(Case& c) {
    std::string a = bit(c); int b = int(c.draw(1000)), depth = int(c.draw(4)), T = int(c.integer(1, 4)); bool assertion = c.flag(30); c.desc << (assertion ? "assertion" : "throw") << " depth " << depth << " threads " << T; c.publish();
    std::string want = assertion ? "x < limit && \"x is too large\"" : a + std::to_string(b) + "!", where = assertion ? "guard" : "raise"; std::exception_ptr p; std::string first; const char* raw = nullptr;
    try {
        try { if (assertion) guard(b, b); else raise(depth, a, b); }
        catch (const std::exception& e) { first = e.what(); if (c.flag()) throw; p = std::current_exception(); raw = e.what(); }
    } catch (const std::exception& e) { p = std::current_exception(); raw = e.what(); }
    c.check(p != nullptr, "no exception"); c.check(first == raw, "the description changed on the way"); c.check(first.find(want) != first.npos && first.find(where) != first.npos && first.find("c38.cpp") != first.npos, "the description '" + first.substr(0, 300) + "' lacks '" + want.substr(0, 200) + "' or the place");
    std::vector<std::string> seen(static_cast<size_t>(T)); std::vector<std::thread> th; std::mutex mu; std::condition_variable cv; bool go = false; bool copy = c.flag();
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
        { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return go; }); }
        for (int r = 0; r < 3; ++r) { try { std::rethrow_exception(p); } catch (const Ex& e) { if (copy) { Ex mine(e); seen[size_t(t)] = mine.what(); } else seen[size_t(t)] = e.what(); } }
    });
    { std::lock_guard<std::mutex> l(mu); go = true; } cv.notify_all();
    for (auto& t : th) t.join();
    for (auto& s : seen) c.check(s == first, "another thread reads '" + s.substr(0, 300) + "' instead of '" + first.substr(0, 300) + "'");
    c.check(first == raw, "the description read first vanished");
    c.nontrivial(T > 1 || depth > 0); c.label(assertion ? "assertion" : "throw");
}
// two errors at once: nested handlers, each with its own text
void nested(Case& c) {
    int n = int(c.integer(2, 6)); std::vector<std::string> w; c.desc << n << " errors at once"; c.publish();
    std::function<void(int)> go = [&](int i) {
        if (i == n) return;
        std::string a = bit(c); w.push_back(a + std::to_string(i) + "!");
        try { raise(0, a, i); } catch (const std::exception& e) {
            const char* p = e.what(); go(i + 1);
            c.check(std::string(p).find(w[size_t(i)]) != std::string::npos, "an error lost its description when another was raised");
            c.check(std::string(e.what()) == p, "an error changed its description when another was raised");
        }
    };
    go(0); c.nontrivial();
}
// errors of the library itself
void library(Case& c) {
    int kind = int(c.draw(6)); dw::Shape s; for (int n = int(c.integer(1, 4)); n > 0; --n) s.push_back(int(c.integer(1, 5)));
    dw::Tensor t(s); dw::Shape bad = s; bad[c.draw(bad.size())] += 1 + int(c.draw(3)); std::string got; c.desc << "kind " << kind << " " << str(s) << " / " << str(bad); c.publish(); const char* raw = nullptr; std::exception_ptr p;
    try {
        switch (kind) {
        case 0: t.reshape(bad); break;
        case 1: { dw::Shape neg = s; neg[c.draw(neg.size())] = -1 - int(c.draw(3)); t.allocate(neg); break; }
        case 2: { dw::Tensor u(bad); t.copyTo(u); break; }
        case 3: { dw::Shape neg = s; neg[c.draw(neg.size())] = -1; dw::Tensor u(neg); break; }
        case 4: { dw::Shape neg = s; neg[0] = -2; dw::Tensor::constant(neg, 1.f); break; }
        case 5: { dw::Shape neg = s; neg[0] = -3; dw::Tensor::uniform(neg); break; }
        }
    } catch (const std::exception& e) { raw = e.what(); got = raw; p = std::current_exception(); const char* again = e.what(); c.check(got == again && got == raw, "reading the description twice gives two texts"); }
    c.check(p != nullptr, "no exception"); c.check(!got.empty(), "an error without description");
    c.check(got == raw, "the description vanished while the exception lives");
    c.nontrivial(); c.label("kind" + std::to_string(kind));
}
}
PBT_PROPERTY("C38", "exceptions built from generated pieces, streamed to, read, copied, dropped, thrown, rethrown and read in other threads, compared with what an output stream makes of the same pieces; errors of the tensor functions; non-trivial = a copy and several readings (thrown: several threads or nested calls)") {
    pbt::facet("histories", 6000, histories, 12, 40);
    pbt::facet("thrown", 3000, thrown, 12, 20, true);
    pbt::facet("nested", 1500, nested, 12, 40);
    pbt::facet("library", 1500, library, 12, 40);
}
