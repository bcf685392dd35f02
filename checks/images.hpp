// Generated PNG and JPEG files together with what decoding them must give.
#pragma once
#include <png.h>
#include <cstdio>
#include <jpeglib.h>
#include <csetjmp>
#include <zlib.h>
#include <deepworks/image_reader.hpp>
#include "dwutil.hpp"
using Bytes = std::vector<unsigned char>;
struct Img {
    bool jpeg = false; int h = 0, w = 0, ch = 0; Bytes file;
    std::vector<unsigned char> a, b;      // expected samples; b: other accepted 16->8 bit conversion
    std::string what;
};
inline std::string scratch() { const char* p = getenv("PBT_SCRATCH"); return std::string(p ? p : "/tmp") + "/" + std::to_string(getpid()); }
inline std::string scratch_dir() { auto d = scratch(); mkdir(d.c_str(), 0700); return d; }
inline void put(const std::string& path, const Bytes& b) { FILE* f = fopen(path.c_str(), "wb"); if (!f) throw std::runtime_error("harness: cannot write " + path); fwrite(b.data(), 1, b.size(), f); fclose(f); }

inline void gen_pixels(Case& c, Bytes& px) {      // raw bytes of some texture
    pbt::Expand x(c.seed32()); int how = int(c.draw(4));
    for (size_t i = 0; i < px.size(); ++i) px[i] = how == 0 ? (unsigned char)x.below(256) : how == 1 ? (unsigned char)(i * 7) : how == 2 ? (unsigned char)(x.below(2) ? 255 : 0) : (unsigned char)(128 + int(x.below(9)) - 4);
}
inline Img gen_png(Case& c, int maxdim = 40) {
    Img m; m.w = int(c.sized(1, 9, maxdim)); m.h = int(c.sized(1, 9, maxdim));
    if (pbt::big()) { m.w = int(c.sized(1, 1200, 5000, 20)); m.h = int(c.integer(1, std::max(1, 150000 / m.w))); if (m.h > 3000) m.h = 3000; if (c.flag(15)) { m.w = int(c.integer(1, 40)); m.h = int(c.integer(1000, 6000)); } }
    else if (c.flag(5)) { (c.flag() ? m.w : m.h) = int(c.integer(1, 400)); }
    struct T { int type, depth; };
    static const std::vector<T> types = {{PNG_COLOR_TYPE_RGB, 8}, {PNG_COLOR_TYPE_GRAY, 8}, {PNG_COLOR_TYPE_RGB_ALPHA, 8}, {PNG_COLOR_TYPE_GRAY_ALPHA, 8}, {PNG_COLOR_TYPE_PALETTE, 8},
        {PNG_COLOR_TYPE_GRAY, 1}, {PNG_COLOR_TYPE_GRAY, 2}, {PNG_COLOR_TYPE_GRAY, 4}, {PNG_COLOR_TYPE_GRAY, 16}, {PNG_COLOR_TYPE_RGB, 16}, {PNG_COLOR_TYPE_RGB_ALPHA, 16}, {PNG_COLOR_TYPE_GRAY_ALPHA, 16},
        {PNG_COLOR_TYPE_PALETTE, 1}, {PNG_COLOR_TYPE_PALETTE, 2}, {PNG_COLOR_TYPE_PALETTE, 4}};
    T t = c.pick(types); bool inter = c.flag(25);
    int stored = t.type == PNG_COLOR_TYPE_RGB ? 3 : t.type == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : t.type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
    m.ch = t.type == PNG_COLOR_TYPE_PALETTE ? 3 : stored;
    std::vector<png_color> pal; if (t.type == PNG_COLOR_TYPE_PALETTE) { pal.resize(c.integer(1, 1 << t.depth)); pbt::Expand x(c.seed32()); for (auto& p : pal) { p.red = x.below(256); p.green = x.below(256); p.blue = x.below(256); } }
    m.what = "png " + std::to_string(m.w) + "x" + std::to_string(m.h) + " type" + std::to_string(t.type) + " depth" + std::to_string(t.depth) + (inter ? " interlaced" : "");
    Bytes raw(size_t(m.w) * m.h * stored * (t.depth == 16 ? 2 : 1)); gen_pixels(c, raw);
    size_t row = (size_t(m.w) * stored * t.depth + 7) / 8; Bytes packed(row * m.h, 0);
    m.a.resize(size_t(m.w) * m.h * m.ch); m.b.resize(m.a.size());
    for (int y = 0; y < m.h; ++y) for (int k = 0; k < m.w * stored; ++k) {
        size_t i = size_t(y) * m.w * stored + k;
        if (t.depth == 16) {
            unsigned v = raw[2 * i] << 8 | raw[2 * i + 1]; packed[y * row + 2 * k] = v >> 8; packed[y * row + 2 * k + 1] = v & 255;
            m.a[i] = v >> 8; m.b[i] = (v * 255u + 32767u) / 65535u;
        } else {
            unsigned maxv = (1u << t.depth) - 1, v = raw[i] & maxv; if (!pal.empty()) v %= pal.size();
            if (t.depth == 8) packed[y * row + k] = v; else packed[y * row + k * t.depth / 8] |= v << (8 - t.depth - (k * t.depth) % 8);
            if (!pal.empty()) { m.a[3 * i] = pal[v].red; m.a[3 * i + 1] = pal[v].green; m.a[3 * i + 2] = pal[v].blue; }
            else m.a[i] = t.type == PNG_COLOR_TYPE_GRAY ? v * 255 / maxv : v;
        }
    }
    if (t.depth != 16) m.b = m.a;
    static std::string why; png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, [](png_structp q, png_const_charp m) { why = m; longjmp(png_jmpbuf(q), 1); }, [](png_structp, png_const_charp) {}); png_infop info = png_create_info_struct(p);
    std::vector<png_bytep> rows(m.h); for (int y = 0; y < m.h; ++y) rows[y] = packed.data() + y * row;
    if (setjmp(png_jmpbuf(p))) throw std::runtime_error("harness: png encoder failed: " + why);
    png_set_write_fn(p, &m.file, [](png_structp q, png_bytep d, png_size_t n) { auto* o = static_cast<Bytes*>(png_get_io_ptr(q)); o->insert(o->end(), d, d + n); }, nullptr);
    png_set_IHDR(p, info, m.w, m.h, t.depth, t.type, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if (!pal.empty()) png_set_PLTE(p, info, pal.data(), int(pal.size()));
    bool gam = c.flag(15); if (gam) png_set_gAMA(p, info, c.pick({0.45455, 1.0, 0.2}));
    if (c.flag(15)) { png_text tx{}; tx.compression = PNG_TEXT_COMPRESSION_NONE; tx.key = const_cast<char*>("Comment"); tx.text = const_cast<char*>("hello"); tx.text_length = 5; png_set_text(p, info, &tx, 1); }
    if (c.flag(10)) png_set_pHYs(p, info, 100, 200, PNG_RESOLUTION_METER);
    // chunks which describe the samples without changing them
    if (c.flag(10)) { int d = pal.empty() ? t.depth : 8; auto q = png_byte(c.integer(1, d)); png_color_8 sb{q, q, q, q, q}; png_set_sBIT(p, info, &sb); m.what += " sBIT"; }
    if (c.flag(10)) { png_color_16 bg{}; bg.index = 0; bg.red = bg.green = bg.blue = bg.gray = t.depth < 8 ? 1 : 77; png_set_bKGD(p, info, &bg); m.what += " bKGD"; }
    if (!gam && c.flag(8)) { png_set_sRGB(p, info, PNG_sRGB_INTENT_PERCEPTUAL); m.what += " sRGB"; }
    else if (c.flag(8)) { png_set_cHRM(p, info, 0.3127, 0.329, 0.64, 0.33, 0.3, 0.6, 0.15, 0.06); m.what += " cHRM"; }
    if (c.flag(8)) { png_set_oFFs(p, info, 3, 5, PNG_OFFSET_PIXEL); m.what += " oFFs"; }
    if (c.flag(8)) { png_time tm{2020, 2, 29, 1, 2, 3}; png_set_tIME(p, info, &tm); }
    std::vector<png_color> suggested;
    if (pal.empty() && stored >= 3 && c.flag(10)) { suggested.resize(c.integer(1, 256)); for (auto& k : suggested) k = {1, 2, 3}; png_set_PLTE(p, info, suggested.data(), int(suggested.size())); m.what += " suggested-palette"; }
    png_set_compression_level(p, int(c.integer(0, 9)));
    png_set_filter(p, 0, c.pick({PNG_FILTER_NONE, PNG_ALL_FILTERS, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH}));
    if (c.flag(20)) png_set_compression_buffer_size(p, size_t(c.integer(10, 300)));      // several IDAT chunks
    png_write_info(p, info); png_write_image(p, rows.data()); png_write_end(p, info); png_destroy_write_struct(&p, &info);
    if (c.flag(5)) { m.file.insert(m.file.end(), size_t(c.integer(1, 50)), 'x'); m.what += " trailing-data"; }
    return m;
}
struct JErr { jpeg_error_mgr base; jmp_buf j; };
inline jpeg_error_mgr* quiet(JErr& e) {
    jpeg_std_error(&e.base);
    e.base.error_exit = [](j_common_ptr ci) { longjmp(reinterpret_cast<JErr*>(ci->err)->j, 1); };
    e.base.output_message = [](j_common_ptr) {};
    return &e.base;
}
// the reference decoder: libjpeg with default settings; false if it gives up
inline bool ref_jpeg(const Bytes& f, int& w, int& h, int& ch, std::vector<unsigned char>* px, bool header_only = false) {
    jpeg_decompress_struct ci{}; JErr e; ci.err = quiet(e);
    if (setjmp(e.j)) { jpeg_destroy_decompress(&ci); return false; }
    jpeg_create_decompress(&ci);
    jpeg_mem_src(&ci, f.data(), f.size());
    jpeg_read_header(&ci, TRUE);
    w = int(ci.image_width); h = int(ci.image_height); ch = ci.num_components;
    if (header_only) { jpeg_destroy_decompress(&ci); return true; }
    jpeg_start_decompress(&ci);
    w = int(ci.output_width); h = int(ci.output_height); ch = ci.output_components;
    px->resize(size_t(w) * h * ch);
    while (ci.output_scanline < ci.output_height) { JSAMPROW r = px->data() + size_t(ci.output_scanline) * w * ch; jpeg_read_scanlines(&ci, &r, 1); }
    jpeg_finish_decompress(&ci); jpeg_destroy_decompress(&ci);
    return true;
}
// the reference PNG decoder: libpng; false if it reports an error before all pixels are decoded.
// a and b hold the two accepted reductions of 16-bit samples; trns: the file has a transparency chunk
inline bool ref_png1(const Bytes& f, bool scale, int& w, int& h, int& ch, bool& trns, std::vector<unsigned char>* px, std::vector<png_bytep>* rows) {
    struct Src { const Bytes* f; size_t at; } src{&f, 8};
    if (f.size() < 8 || png_sig_cmp(f.data(), 0, 8)) return false;
    png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, [](png_structp q, png_const_charp) { longjmp(png_jmpbuf(q), 1); }, [](png_structp, png_const_charp) {});
    png_infop info = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &info, nullptr); return false; }
    png_set_read_fn(p, &src, [](png_structp q, png_bytep d, png_size_t n) {
        auto* s = static_cast<Src*>(png_get_io_ptr(q));
        if (n > s->f->size() - s->at) png_error(q, "Read Error");
        memcpy(d, s->f->data() + s->at, n); s->at += n;
    });
    png_set_sig_bytes(p, 8); png_read_info(p, info);
    if (png_get_color_type(p, info) == PNG_COLOR_TYPE_PALETTE) png_set_palette_to_rgb(p);
    else if (png_get_bit_depth(p, info) < 8) png_set_expand_gray_1_2_4_to_8(p);
    if (scale) png_set_scale_16(p); else png_set_strip_16(p);
    png_set_interlace_handling(p); png_read_update_info(p, info);
    w = int(png_get_image_width(p, info)); h = int(png_get_image_height(p, info)); ch = png_get_channels(p, info);
    trns = png_get_valid(p, info, PNG_INFO_tRNS);
    size_t rb = png_get_rowbytes(p, info); px->assign(rb * h, 0); rows->resize(h);
    for (int y = 0; y < h; ++y) (*rows)[y] = px->data() + y * rb;
    png_read_image(p, rows->data());
    trns |= bool(png_get_valid(p, info, PNG_INFO_tRNS));
    png_destroy_read_struct(&p, &info, nullptr);
    return true;
}
inline bool ref_png(const Bytes& f, Img& m, bool& trns) {
    std::vector<png_bytep> rows; m.jpeg = false;
    return ref_png1(f, true, m.w, m.h, m.ch, trns, &m.a, &rows) && ref_png1(f, false, m.w, m.h, m.ch, trns, &m.b, &rows);
}
inline Img gen_jpeg(Case& c, int maxdim = 48) {
    Img m; m.jpeg = true; m.w = int(c.sized(1, 20, maxdim)); m.h = int(c.sized(1, 20, maxdim));
    if (pbt::big()) { m.w = int(c.sized(1, 1200, 5000, 20)); m.h = int(c.integer(1, std::max(1, 150000 / m.w))); if (m.h > 3000) m.h = 3000; if (c.flag(15)) { m.w = int(c.integer(1, 40)); m.h = int(c.integer(1000, 6000)); } }
    else if (c.flag(5)) { (c.flag() ? m.w : m.h) = int(c.integer(1, 400)); }
    bool grey = c.flag(30); m.ch = grey ? 1 : 3;
    Bytes px(size_t(m.w) * m.h * m.ch); gen_pixels(c, px);
    jpeg_compress_struct ci{}; JErr e; ci.err = quiet(e);
    unsigned char* out = nullptr; unsigned long n = 0;
    if (setjmp(e.j)) throw std::runtime_error("harness: jpeg encoder failed");
    jpeg_create_compress(&ci); jpeg_mem_dest(&ci, &out, &n);
    ci.image_width = m.w; ci.image_height = m.h; ci.input_components = m.ch; ci.in_color_space = grey ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&ci);
    int q = int(c.integer(1, 100)); jpeg_set_quality(&ci, q, TRUE);
    bool prog = c.flag(20); if (prog) jpeg_simple_progression(&ci);
    int sub = 0; if (!grey) { sub = int(c.draw(4)); ci.comp_info[0].h_samp_factor = sub & 1 ? 1 : 2; ci.comp_info[0].v_samp_factor = sub & 2 ? 1 : 2; if (c.flag(10)) { jpeg_set_colorspace(&ci, JCS_RGB); sub = 9; } else if (c.flag(10)) { ci.comp_info[0].h_samp_factor = 4; ci.comp_info[0].v_samp_factor = 1; sub = 4; } }
    if (c.flag(10)) ci.dct_method = c.flag() ? JDCT_IFAST : JDCT_FLOAT;
    if (c.flag(10)) { ci.write_JFIF_header = FALSE; m.what = "no-jfif "; }
    if (c.flag(10)) ci.write_Adobe_marker = TRUE;
    if (c.flag(10)) { ci.density_unit = 1; ci.X_density = 72; ci.Y_density = 144; }
    ci.optimize_coding = c.flag(); if (c.flag(20)) ci.restart_interval = unsigned(c.integer(1, 5));
    m.what += "jpeg " + std::to_string(m.w) + "x" + std::to_string(m.h) + "x" + std::to_string(m.ch) + " q" + std::to_string(q) + (prog ? " progressive" : "") + " sub" + std::to_string(sub);
    jpeg_start_compress(&ci, TRUE);
    if (c.flag(15)) {                                     // EXIF with an orientation, which is not part of the stored pixels
        unsigned char ex[] = {'E','x','i','f',0,0,'I','I',42,0,8,0,0,0,1,0,0x12,1,3,0,1,0,0,0,(unsigned char)c.integer(1, 8),0,0,0,0,0,0,0};
        jpeg_write_marker(&ci, JPEG_APP0 + 1, ex, sizeof ex); m.what += " exif";
    }
    if (c.flag(15)) jpeg_write_marker(&ci, JPEG_COM, reinterpret_cast<const JOCTET*>("note"), 4);
    while (ci.next_scanline < ci.image_height) { JSAMPROW r = px.data() + size_t(ci.next_scanline) * m.w * m.ch; jpeg_write_scanlines(&ci, &r, 1); }
    jpeg_finish_compress(&ci); jpeg_destroy_compress(&ci);
    m.file.assign(out, out + n); free(out);
    if (c.flag(5)) { m.file.insert(m.file.end(), size_t(c.integer(1, 50)), 'x'); m.what += " trailing-data"; }
    int w, h, ch; std::vector<unsigned char> d;
    if (!ref_jpeg(m.file, w, h, ch, &d) || w != m.w || h != m.h || ch != m.ch) throw std::runtime_error("harness: reference decoder failed");
    m.a = m.b = d;
    return m;
}
inline Img gen_img(Case& c, int maxdim = 40) { return c.flag() ? gen_jpeg(c, maxdim) : gen_png(c, maxdim); }
inline std::string gen_path(Case& c, bool jpeg) {
    std::string stem = c.pick(std::vector<std::string>{"a", "img.1", "x.png.y", "with space", "jpeg", "png", "deep.jpg"});
    return scratch_dir() + "/" + stem + (jpeg ? (c.flag() ? ".jpg" : ".jpeg") : ".png");
}
inline void check_pixels(Case& c, const Img& m, const dw::Tensor& t, const std::string& how) {
    c.check(t.total() == m.a.size(), how + ": " + std::to_string(t.total()) + " elements, the image has " + std::to_string(m.a.size()));
    for (size_t i = 0; i < m.a.size(); ++i) {
        float v = t.data()[i];
        if (v != float(m.a[i]) && v != float(m.b[i]))
            c.fail(how + " of " + m.what + ": element " + std::to_string(i) + " (row " + std::to_string(i / (size_t(m.w) * m.ch)) + ", column " + std::to_string(i / m.ch % m.w) + ", channel " + std::to_string(i % m.ch) + ") is " + fstr(v) + ", the file holds " + std::to_string(m.a[i]));
    }
}
