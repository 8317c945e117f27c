// Helpers around the library's public API, and reference models.
#pragma once
#include "pbt.h"
#include <memory>
#include "pico-cnn/pico-cnn.h"
using namespace pico_cnn::naive;
using pico_cnn::op_type;
typedef std::unique_ptr<Tensor> T;

inline Tensor *make(const std::vector<uint32_t> &sh) {
    switch (sh.size()) {
    case 1: return new Tensor(sh[0]);
    case 2: return new Tensor(sh[0], sh[1]);
    case 3: return new Tensor(sh[0], sh[1], sh[2]);
    default: return new Tensor(sh[0], sh[1], sh[2], sh[3]);
    }
}
inline Tensor *make(const std::vector<uint32_t> &sh, const std::vector<float> &v) {
    Tensor *t = make(sh);
    for (uint32_t i = 0; i < t->num_elements(); i++) t->access_blob(i) = v[i];
    return t;
}
// dimension i of a tensor, or the expected value where the class does not show it
template <class X> auto dim_at(const X &t, size_t i, uint32_t, int) -> decltype((uint32_t)t.shape_[i]) { return t.shape_[i]; }
template <class X> uint32_t dim_at(const X &, size_t, uint32_t want, long) { return want; }
inline uint32_t prod(const std::vector<uint32_t> &s) { uint32_t p = 1; for (auto x : s) p *= x; return p; }
inline std::string shape_str(const std::vector<uint32_t> &s) {
    std::string o = "("; for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(s[i]); return o + ")";
}
inline std::vector<float> data(const Tensor &t) {
    std::vector<float> v(t.num_elements());
    for (uint32_t i = 0; i < v.size(); i++) v[i] = t.access_blob(i);
    return v;
}
// previous contents of an output buffer must not matter
inline void dirty(pbt::Case &c, Tensor &t) {
    static const float v[] = {0.0f, 1e30f, -7.5f, 123456.0f};
    int k = c.in(0, 5);
    for (uint32_t i = 0; i < t.num_elements(); i++) t.access_blob(i) = k < 4 ? v[k] : k == 4 ? NAN : (float)i + 0.5f;
}
// |got - ref| <= eps * terms * magnitude
inline void compare(pbt::Case &c, const Tensor &out, const std::vector<double> &ref, const std::vector<double> &mag, double terms, const char *what = "wrong value") {
    if (out.num_elements() != ref.size()) c.fail("harness", "size mismatch");
    for (uint32_t i = 0; i < ref.size(); i++) {
        double g = out.access_blob(i), tol = 1.2e-7 * (terms + 4) * mag[i] + 1e-37;
        if (!(std::fabs(g - ref[i]) <= tol))
            c.fail(what, "element " + std::to_string(i) + ": got " + pbt::hexf(g) + ", expected " + pbt::hexf(ref[i]) + " (tolerance " + pbt::hexf(tol) + ")");
    }
}
inline void exact(pbt::Case &c, const Tensor &out, const std::vector<float> &ref, const char *what = "wrong value") {
    for (uint32_t i = 0; i < ref.size(); i++)
        if (!pbt::same_value(out.access_blob(i), ref[i]))
            c.fail(what, "element " + std::to_string(i) + ": got " + pbt::hexf(out.access_blob(i)) + ", expected " + pbt::hexf(ref[i]));
}
inline void exact_bits(pbt::Case &c, const Tensor &out, const std::vector<float> &ref, const char *what) {
    for (uint32_t i = 0; i < ref.size(); i++)
        if (!pbt::same_bits(out.access_blob(i), ref[i]))
            c.fail(what, "element " + std::to_string(i) + ": got " + pbt::hexf(out.access_blob(i)) + ", expected " + pbt::hexf(ref[i]));
}

// multiples of 1/4: sums of products of moderate size are exact in any order of summation
inline bool quarters(const std::vector<float> &v) { for (float x : v) if (x * 4 != std::rint(x * 4)) return false; return true; }
// bound on the rounding error of a sum of products with this magnitude
inline double sum_tol(bool quarter, double mag, double ref, double terms) {
    if (quarter && mag * 16 < 16777216.0) return 3e-7 * std::fabs(ref);
    return 1.2e-7 * terms * mag + 1e-37;
}

// ---- convolution -------------------------------------------------------------
struct ConvSpec {
    bool d1 = false, bias = false, nopad = false;
    uint32_t cin = 1, cout = 1, groups = 1, kh = 1, kw = 1, sh = 1, sw = 1, pt = 0, pl = 0, pb = 0, pr = 0, h = 1, w = 1;
    uint32_t oh() const { return (h + pt + pb - kh) / sh + 1; }
    uint32_t ow() const { return (w + pl + pr - kw) / sw + 1; }
    std::string str() const {
        std::ostringstream o;
        o << (d1 ? "conv1d" : "conv2d") << " in=" << cin << "x" << h << "x" << w << " out=" << cout << " groups=" << groups << " kernel=" << kh << "x" << kw
          << " stride=" << sh << "," << sw << " pads=" << (nopad ? std::string("none") : std::to_string(pt) + "," + std::to_string(pl) + "," + std::to_string(pb) + "," + std::to_string(pr))
          << (bias ? " bias" : "");
        return o.str();
    }
    void fill(pbt::Filler &fi, pbt::Filler &fw, std::vector<float> &in, std::vector<float> &wt, std::vector<float> &b) const {
        in.resize(cin * h * w); for (auto &x : in) x = fi.next();
        wt.resize(cout * (cin / groups) * kh * kw); for (auto &x : wt) x = fw.next();
        b.resize(cout); for (auto &x : b) x = fw.next();
    }
    T input(const std::vector<float> &v) const { return T(d1 ? make({1, cin, w}, v) : make({1, cin, h, w}, v)); }
    T kernel(const std::vector<float> &v) const { return T(d1 ? make({cout, cin / groups, kw}, v) : make({cout, cin / groups, kh, kw}, v)); }
    T output() const { return T(d1 ? make({1, cout, ow()}) : make({1, cout, oh(), ow()})); }
    // Configuration arrays have exactly the documented number of entries and
    // are overwritten and freed once the layer is built.
    std::unique_ptr<Convolution> layer(Tensor *k, Tensor *b) const {
        std::vector<uint32_t> p = d1 ? std::vector<uint32_t>{pl, pr} : std::vector<uint32_t>{pt, pl, pb, pr};
        std::vector<uint32_t> s = d1 ? std::vector<uint32_t>{sw} : std::vector<uint32_t>{sh, sw};
        std::unique_ptr<Convolution> l(new Convolution("conv", 0, op_type::Conv, k, b, nopad ? nullptr : p.data(), s.data(), groups));
        for (auto &x : p) x = 77; for (auto &x : s) x = 55;
        return l;
    }
    void reference(const std::vector<float> &in, const std::vector<float> &wt, const std::vector<float> &b, std::vector<double> &ref, std::vector<double> &mag) const {
        uint32_t cg = cin / groups, og = cout / groups, OH = oh(), OW = ow();
        ref.assign(cout * OH * OW, 0); mag.assign(ref.size(), 0);
        for (uint32_t o = 0; o < cout; o++) for (uint32_t y = 0; y < OH; y++) for (uint32_t x = 0; x < OW; x++) {
            double a = bias ? b[o] : 0, m = std::fabs(a);
            for (uint32_t i = 0; i < cg; i++) for (uint32_t r = 0; r < kh; r++) for (uint32_t q = 0; q < kw; q++) {
                long iy = (long)y * sh + r - pt, ix = (long)x * sw + q - pl;
                if (iy < 0 || ix < 0 || iy >= (long)h || ix >= (long)w) continue;
                double t = (double)wt[((o * cg + i) * kh + r) * kw + q] * in[(((o / og) * cg + i) * h + iy) * w + ix];
                a += t; m += std::fabs(t);
            }
            ref[(o * OH + y) * OW + x] = a; mag[(o * OH + y) * OW + x] = m;
        }
    }
};
inline uint32_t odd_kernel(pbt::Case &c) { return c.chance(6) ? 11 + 2 * c.in(0, 3) : 1 + 2 * c.pick<uint32_t>({0, 1, 1, 1, 2, 2, 3, 4}); }
inline ConvSpec gen_conv(pbt::Case &c, bool d1) {
    ConvSpec s; s.d1 = d1;
    int style = c.in(0, 5);  // 0-2 plain, 3 grouped, 4 depthwise, 5 anything
    bool wide = c.chance(20);
    uint32_t cg = wide ? c.in(5, 18) : c.in(1, 4), og = c.chance(20) ? c.in(5, 18) : c.in(1, 4);
    if (style >= 3) s.groups = c.chance(30) ? c.in(5, 12) : c.in(1, 4);
    if (style == 4) cg = 1;
    s.cin = cg * s.groups; s.cout = og * s.groups;
    s.kw = odd_kernel(c); s.kh = d1 ? 1 : odd_kernel(c);
    if (!d1 && c.chance(90)) s.kh = s.kw;
    s.sw = c.pick<uint32_t>({1, 1, 2, 3, 4, 7}); s.sh = d1 ? 1 : c.pick<uint32_t>({1, 1, 2, 3, 4, 7});
    if (!d1 && c.chance(90)) s.sh = s.sw;
    s.nopad = c.chance(60);
    if (!s.nopad) {
        int pm = c.in(0, 4);
        if (pm == 1) { s.pl = s.pr = s.kw / 2; if (!d1) s.pt = s.pb = s.kh / 2; }
        else if (pm >= 2) {
            uint32_t mw = pm == 4 ? s.kw + 3 : s.kw / 2 + 1, mh = pm == 4 ? s.kh + 3 : s.kh / 2 + 1;
            s.pl = c.in(0, mw); s.pr = c.in(0, mw);
            if (!d1) { s.pt = c.in(0, mh); s.pb = c.in(0, mh); }
        }
    }
    auto dim = [&](uint32_t k, uint32_t p) {
        uint32_t lo = k > p ? k - p : 1;
        int m = c.in(0, 7);
        if (m == 0) return lo;                       // smallest that fits
        if (m == 7) return lo + c.in(0, 28);
        return lo + c.in(0, 9);
    };
    s.w = dim(s.kw, s.pl + s.pr); s.h = d1 ? 1 : dim(s.kh, s.pt + s.pb);
    s.bias = c.flip();
    if (uint32_t n = c.large()) {
        uint32_t budget = 300000;     // multiplications
        int what = d1 ? c.pick<int>({0, 0, 0, 2, 3, 4, 5}) : c.in(0, 5);
        if (what == 0) s.w = std::max(s.w, n);
        else if (what == 1 && !d1) s.h = std::max(s.h, n);
        else if (what == 4) {         // kernel
            n = std::min(n, 1500u) | 1;
            bool wide = d1 || c.flip();
            (wide ? s.kw : s.kh) = n;
            s.groups = 1; s.cin = c.in(1, 2); s.cout = c.in(1, 2);
            (wide ? s.w : s.h) = dim(n, wide ? s.pl + s.pr : s.pt + s.pb);
            if (!d1) (wide ? s.h : s.w) = wide ? dim(s.kh, s.pt + s.pb) : dim(s.kw, s.pl + s.pr);
            c.label("large kernel");
            return s;
        }
        else if (what == 5) { (d1 || c.flip() ? s.sw : s.sh) = n; c.label("large stride"); return s; }
        else if (what == 2) { s.groups = 1; s.cin = n; s.cout = c.in(1, 2); }
        else if (c.flip()) { s.groups = 1; s.cin = c.in(1, 3); s.cout = n; }
        else { s.groups = n; s.cin = n; s.cout = n * c.in(1, 2); }
        auto cost = [&] { return (uint64_t)s.oh() * s.ow() * s.cout * (s.cin / s.groups) * s.kh * s.kw; };
        auto low = [&](uint32_t k, uint32_t p) { return k > p ? k - p : 1; };
        if (cost() > budget) { if (what != 0) s.w = std::min(s.w, low(s.kw, s.pl + s.pr) + 1); if (what != 1 && !d1) s.h = std::min(s.h, low(s.kh, s.pt + s.pb) + 1); }
        if (cost() > budget && what < 2) { s.groups = s.cin = s.cout = 1; }
        if (cost() > budget) { s.kw = 1; s.pl = s.pr = std::min(s.pl, 1u); if (!d1) { s.kh = 1; s.pt = s.pb = std::min(s.pt, 1u); } }
        if (cost() > budget && what >= 2) { s.w = 1; s.pl = s.pr = 0; if (!d1) { s.h = 1; s.pt = s.pb = 0; } }
    }
    return s;
}
