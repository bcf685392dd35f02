// C24: unreadable image files raise an exception and nothing worse.
#include "images.hpp"
#include <dirent.h>
namespace {
int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// do not let a damaged header ask for gigabytes
bool too_big(const Bytes& f, bool jpeg) {
    if (jpeg) {
        // any frame header in the file
        for (size_t i = 0; i + 9 < f.size(); ++i)
            if (f[i] == 0xff && f[i + 1] >= 0xc0 && f[i + 1] <= 0xcf) {
                size_t h = f[i + 5] << 8 | f[i + 6], w = f[i + 7] << 8 | f[i + 8];
                if (h * w > 300000) return true;
            }
        int w, h, ch; if (ref_jpeg(f, w, h, ch, nullptr, true)) return size_t(w) * h > 300000;
        return false;
    }
    if (f.size() < 26) return false;
    size_t w = size_t(f[16]) << 24 | f[17] << 16 | f[18] << 8 | f[19], h = size_t(f[20]) << 24 | f[21] << 16 | f[22] << 8 | f[23];
    return w * h > 300000 || w > 1000000 || h > 1000000;
}
void fix_crcs(Bytes& f) {
    size_t i = 8;
    while (i + 12 <= f.size()) {
        size_t n = size_t(f[i]) << 24 | f[i + 1] << 16 | f[i + 2] << 8 | f[i + 3];
        if (n > f.size() || i + 12 + n > f.size()) return;
        uLong k = crc32(0, f.data() + i + 4, uInt(n + 4));
        for (int b = 0; b < 4; ++b) f[i + 8 + n + b] = (unsigned char)(k >> (24 - 8 * b));
        i += 12 + n;
    }
}
struct Bad { std::string path, what; bool must_throw; bool known = false; Img ref; };   // known: what the file decodes to if it is accepted
// expected "valid" pixels or damage; returns the path to read
Bad gen_bad(Case& c, const std::string& dir, int no) {
    Bad b; Img m = gen_img(c, 24); bool jpeg = m.jpeg; Bytes f = m.file; b.must_throw = false;
    std::string ext = jpeg ? ".jpg" : ".png"; std::string name = dir + "/bad" + std::to_string(no);
    switch (c.draw(11)) {
    case 0: b = {name + ext, "missing " + ext, true}; if (c.flag(30)) b.path = dir + "/nodir/x" + ext; return b;
    case 1: f.clear(); b.what = "empty"; b.must_throw = true; break;
    case 2: { size_t n = c.flag(30) ? c.integer(0, std::min<size_t>(f.size() - 1, 40)) : c.integer(0, f.size() - 1); f.resize(n); b.what = "truncated to " + std::to_string(n) + " of " + std::to_string(m.file.size());
              if (n < 8) b.must_throw = true; break; }
    case 3: case 4: { int k = int(c.sized(1, 3, 12)); for (int i = 0; i < k; ++i) { size_t at = c.flag(40) ? c.integer(0, std::min<size_t>(f.size() - 1, 64)) : c.integer(0, f.size() - 1); f[at] = (unsigned char)(c.flag() ? f[at] ^ (1 << c.draw(8)) : c.draw(256)); } b.what = std::to_string(k) + " bytes changed"; break; }
    case 5: { if (jpeg) { size_t at = c.integer(2, f.size() - 1); f.erase(f.begin() + at, f.begin() + std::min<size_t>(f.size(), at + c.integer(1, 20))); b.what = "bytes removed"; }
              else { int k = int(c.sized(1, 3, 8)); for (int i = 0; i < k; ++i) { size_t at = c.integer(8, f.size() - 1); f[at] = (unsigned char)c.draw(256); } fix_crcs(f); b.what = "changed with valid checksums"; } break; }
    case 6: { size_t at = c.integer(0, f.size()); Bytes j(c.integer(1, 30)); for (auto& v : j) v = (unsigned char)c.draw(256); f.insert(f.begin() + at, j.begin(), j.end()); b.what = "bytes inserted"; break; }
    case 7: { f.assign(c.integer(1, 200), 0); pbt::Expand x(c.seed32()); for (auto& v : f) v = (unsigned char)x.below(256); if (f[0] == 0xff || f[0] == 0x89) f[0] = 'x'; b.what = "not an image"; b.must_throw = true; break; }
    case 8: { ext = jpeg ? ".png" : ".jpg"; b.what = "content of the other format"; b.must_throw = true; jpeg = !jpeg; break; }
    case 9: { std::string e = c.pick(std::vector<std::string>{".bmp", "", ".", ".pngx", ".txt", ".gif", ".jpgg"}); name += e; put(name, f); b = {name, "unsupported extension '" + e + "'", true}; return b; }
    default: { std::string p = name + "d" + ext; mkdir(p.c_str(), 0700); b = {p, "a directory named " + ext, true}; return b; }
    }
    if (too_big(f, jpeg)) { f.resize(std::min<size_t>(f.size(), 10)); b.what += " (cut: huge header)"; b.must_throw = true; }
    b.what = m.what + " " + b.what; b.path = name + ext;
    put(b.path, f);
    // the decoders themselves say which damage is beyond repair and what the rest decodes to
    bool trns = false; b.ref.what = b.what;
    if (jpeg) { b.known = ref_jpeg(f, b.ref.w, b.ref.h, b.ref.ch, &b.ref.a); b.ref.b = b.ref.a; } else b.known = ref_png(f, b.ref, trns);
    if (!b.known) b.must_throw = true;
    if (trns) b.known = false;
    return b;
}
// true if it threw
bool try_read(Case& c, const Bad& b, int mode, GT* given) {
    try {
        if (mode == 2) { auto t = given->t; dw::io::ReadImage(b.path, t); if (b.known) check_pixels(c, b.ref, t, "reading"); return false; }
        dw::Tensor t; if (mode) dw::io::ReadImage(b.path, t); else t = dw::io::ReadImage(b.path);
        c.check(!t.empty() && t.shape().size() == 3, b.what + " gave a tensor of shape " + str(t.shape()));
        for (int d : t.shape()) c.check(d > 0, b.what + " gave a tensor of shape " + str(t.shape()));
        c.check(t.total() == size_t(ref::total(t.shape())), "inconsistent tensor");
        if (b.known) { c.check(t.shape() == dw::Shape{b.ref.h, b.ref.w, b.ref.ch}, b.what + " gave a tensor of shape " + str(t.shape())); check_pixels(c, b.ref, t, "reading"); }
        for (size_t i = 0; i < t.total(); ++i) { float v = t.data()[i]; c.check(v >= 0 && v <= 255 && v == std::floor(v), b.what + ": element " + std::to_string(i) + " is " + fstr(v) + ", not a pixel value"); }
        return false;
    } catch (const pbt::Failure&) { throw; }
    catch (const std::exception&) { return true; }
}
void history(Case& c) {
    std::string dir = scratch_dir();
    Img good = gen_img(c, 24); std::string gp = dir + (good.jpeg ? "/good.jpg" : "/good.png"); put(gp, good.file);
    int n = int(c.sized(1, 2, 4)); std::vector<Bad> bad; for (int i = 0; i < n; ++i) { bad.push_back(gen_bad(c, dir, i)); c.desc << bad.back().what << "; "; }
    c.publish();
    const dw::Tensor first = dw::io::ReadImage(gp);
    auto again = [&] {
        auto t = dw::io::ReadImage(gp);
        c.check(t.shape() == first.shape() && !memcmp(t.data(), first.data(), 4 * t.total()), "a valid image (" + good.what + ") reads differently afterwards");
    };
    int fds = open_fds(); bool threw_any = false;
    for (auto& b : bad) {
        int mode = int(c.draw(3)); std::unique_ptr<GT> g; if (mode == 2) { g = std::make_unique<GT>(c, dw::Shape{int(c.integer(1, 8)), int(c.integer(1, 8)), int(c.integer(1, 4))}); }
        bool threw = try_read(c, b, mode, g.get());            // warms up whatever is allocated once
        c.check(threw || !b.must_throw, b.what + " was read without an exception");
        c.label(threw ? "threw" : "tolerated"); if (b.must_throw && b.ref.w) c.label("pixel data beyond repair"); threw_any |= threw;
        size_t live = pbt::live_bytes();
        for (int k = 0; k < 3; ++k) c.check(try_read(c, b, mode, g.get()) == threw, b.what + ": reading it again behaves differently");
#if defined(__SANITIZE_ADDRESS__)
        size_t after = pbt::live_bytes();
        c.check(after <= live, b.what + ": three reads leak " + std::to_string(long(after) - long(live)) + " bytes");
#endif
        (void)live;
        if (g) c.check(g->guards_ok(), b.what + ": reading wrote outside the given tensor");
        int now = open_fds(); c.check(now == fds, b.what + ": " + std::to_string(now - fds) + " file descriptors leaked by 4 reads");
        if (c.flag(50)) again();
    }
    again();
    for (auto& b : bad) { unlink(b.path.c_str()); rmdir(b.path.c_str()); }
    unlink(gp.c_str()); rmdir(dir.c_str());
    c.nontrivial(threw_any);
}
}
PBT_PROPERTY("C24", "histories of damaged, missing, truncated, foreign and unsupported files read between valid ones, each read four times; non-trivial = at least one read raised") {
    pbt::Registry::get().assumptions.push_back("files whose header asks for more than 300,000 pixels are cut instead of decoded, to bound memory");
    pbt::facet("histories", 12000, history, 12, 60);
}
