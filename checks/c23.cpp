// C23: decoded images hold exactly the file's pixels.
#include "images.hpp"
namespace {
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
void decode(Case& c, bool jpeg) {
    int n = int(c.sized(1, 1, 3)); std::vector<Img> ms; std::vector<std::string> ps;
    for (int i = 0; i < n; ++i) {
        Img m = jpeg ? gen_jpeg(c) : gen_png(c); std::string p = gen_path(c, jpeg);
        while (std::count(ps.begin(), ps.end(), p)) p.insert(p.rfind('/') + 1, "z");
        put(p, m.file); c.desc << m.what << "; "; ms.push_back(m); ps.push_back(p);
    }
    c.publish();
    int reads = int(c.sized(1, 2, 5));
    for (int r = 0; r < reads; ++r) {
        size_t k = c.draw(n); const Img& m = ms[k];
        // the path argument is a string_view and need not be NUL-terminated
        std::string buf = ps[k]; std::string_view path(buf);
        if (c.flag(30)) { buf += c.pick(std::vector<std::string>{"x", ".png", "/junk", ".jpg"}); path = std::string_view(buf).substr(0, ps[k].size()); }
        dw::Shape hwc{m.h, m.w, m.ch};
        switch (c.draw(4)) {
        case 0: { auto t = dw::io::ReadImage(path); c.check(t.shape() == hwc, "shape " + str(t.shape()) + ", expected " + str(hwc) + " for " + m.what); check_pixels(c, m, t, "reading"); break; }
        case 1: { dw::Tensor t; dw::io::ReadImage(path, t); c.check(t.shape() == hwc, "shape " + str(t.shape()) + ", expected " + str(hwc) + " for " + m.what); check_pixels(c, m, t, "reading into an empty tensor"); break; }
        case 2: {
            dw::Shape s = hwc; switch (c.draw(5)) { case 1: s = {m.ch, m.h, m.w}; break; case 2: s = {m.h * m.w * m.ch}; break; case 3: s = {1, m.h, m.w, m.ch}; break; case 4: s = {m.h, m.w * m.ch}; break; default: break; }
            GT g(c, s); auto t = g.t; dw::io::ReadImage(path, t);
            c.check(t.data() == g.data(), "a given tensor was replaced instead of filled"); c.check(t.shape() == s, "the shape of a given tensor was changed");
            check_pixels(c, m, t, "reading into a given tensor " + str(s)); c.check(g.guards_ok(), "reading wrote outside the given tensor"); break;
        }
        default: {
            dw::Shape s = hwc; switch (c.draw(4)) { case 0: s[0] += 1; break; case 1: s[1] += int(c.integer(1, 3)); break; case 2: s[2] += 1; break; case 3: if (s[0] > 1) s[0] -= 1; else s[1] += 1; break; }
            GT g(c, s); auto t = g.t;
            c.check(throws([&] { dw::io::ReadImage(path, t); }), "a tensor of shape " + str(s) + " was accepted for " + m.what);
            c.check(g.guards_ok(), "a rejected read wrote outside the given tensor"); c.label("rejected"); break;
        }
        }
    }
    for (auto& p : ps) unlink(p.c_str());
    rmdir(scratch().c_str());
    c.nontrivial(ms[0].w > 1 && ms[0].h > 1);
}
}
PBT_PROPERTY("C23", "images encoded by the harness with every PNG colour type, bit depth and interlacing and JPEG quality, subsampling and mode, read through every entry point; non-trivial = more than one row and column") {
    pbt::Registry::get().assumptions.push_back("JPEG oracle is libjpeg with default settings, PNG oracle is the pixel array the harness encoded; 16-bit samples may be reduced by truncation or rounding; images with a transparency chunk are not generated");
    pbt::large_facet("png-large", 200, [](Case& c) { decode(c, false); });
    pbt::large_facet("jpeg-large", 150, [](Case& c) { decode(c, true); });
    pbt::facet("png", 16000, [](Case& c) { decode(c, false); }, 12, 100);
    pbt::facet("jpeg", 12000, [](Case& c) { decode(c, true); }, 12, 100);
}
