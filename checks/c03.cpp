// C03: layout conversions.
#include "layerutil.hpp"
#include <deepworks/utils/utils.hpp>
namespace {
void conv(Case& c) {
    std::vector<int> s(4); int64_t tot = 1;
    if (pbt::big()) s = large_shape(c, 20000, 1000000, 4, 4);
    else for (auto& d : s) { d = int(c.sized(1, 6, 70, 15)); if (tot * d > 20000) d = 1; tot *= d; }
    int N = s[0], C = s[1], H = s[2], W = s[3];
    std::vector<int> h{N, H, W, C};
    GT a(c, s), b(c, h), back(c, s);
    pbt::Expand x(c.seed32());
    for (size_t i = 0; i < a.size(); ++i) { uint32_t u = uint32_t(x.u64()); memcpy(a.data() + i, &u, 4); }
    a.take();
    c.desc << "NCHW " << str(s); c.publish();
    dw::utils::NCHW2NHWC(a.t, b.t);
    c.check(a.unchanged() && a.guards_ok() && b.guards_ok(), "source or neighbouring memory modified");
    size_t i = 0;
    for (int n = 0; n < N; ++n) for (int ch = 0; ch < C; ++ch) for (int y = 0; y < H; ++y) for (int z = 0; z < W; ++z, ++i)
        if (memcmp(a.data() + i, b.data() + ((size_t(n) * H + y) * W + z) * C + ch, 4)) c.fail("NCHW->NHWC misplaces element " + std::to_string(i));
    b.take();
    dw::utils::NHWC2NCHW(b.t, back.t);
    c.check(b.unchanged() && b.guards_ok() && back.guards_ok(), "NHWC->NCHW modified source or neighbouring memory");
    c.check(memcmp(back.data(), a.data(), a.size() * 4) == 0, "NHWC->NCHW is not the inverse of NCHW->NHWC");
    // opposite round trip
    GT p(c, h), q(c, s), r(c, h);
    for (size_t k = 0; k < p.size(); ++k) { uint32_t u = uint32_t(x.u64()); memcpy(p.data() + k, &u, 4); }
    p.take();
    dw::utils::NHWC2NCHW(p.t, q.t);
    dw::utils::NCHW2NHWC(q.t, r.t);
    c.check(p.unchanged() && q.guards_ok() && r.guards_ok(), "round trip modified source or neighbouring memory");
    c.check(memcmp(p.data(), r.data(), p.size() * 4) == 0, "NCHW->NHWC is not the inverse of NHWC->NCHW");
    c.nontrivial(C > 1 && H * W > 1);
    c.label(N > 1 && C > 1 && H > 1 && W > 1 && H != W ? "all-dims" : "degenerate");
}
}
PBT_PROPERTY("C03", "random 4-D shapes with raw bit patterns; non-trivial = more than one channel and more than one pixel, so the permutation is not the identity") {
    pbt::facet("convert", 40000, conv, 20, 100);
    pbt::large_facet("large", 200, conv);
}
