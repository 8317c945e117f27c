// Every layer type of the library behind one interface: generator of
// configurations, generator of inputs, and an independent reference model.
#pragma once
#include "lib.h"
#include <memory>

struct Expect { std::vector<double> ref, tol; };  // |out-ref| <= tol (tol 0: exactly equal)

struct AnyLayer {
    std::string desc;
    std::vector<std::pair<Tensor *, std::vector<float>>> params;  // tensor, expected contents
    std::vector<T> own;
    bool in_place_ok = false;
    unsigned features = 0;                       // of the configuration, for the non-triviality rule
    virtual ~AnyLayer() {}
    virtual void build() = 0;                    // construct the library object
    virtual void destroy() = 0;
    virtual std::vector<uint32_t> gen_shape(pbt::Case &c) = 0;       // an admissible input shape
    virtual std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) = 0;
    virtual void run(Tensor *in, Tensor *out) = 0;
    virtual bool twin() { return false; }        // builds a second library object over the same parameters
    virtual void run_twin(Tensor *, Tensor *) {}
    virtual uint32_t fill_mask() { return (1u << pbt::F_COUNT) - 1; }
    virtual void adjust(std::vector<float> &) {}
    virtual Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) = 0;
    std::vector<std::vector<float> *> model;     // the reference model's copy of each parameter
    Tensor *param(const std::vector<uint32_t> &sh, std::vector<float> &v) {
        own.emplace_back(make(sh, v)); params.push_back({own.back().get(), v}); model.push_back(&v); return own.back().get();
    }
    // new parameter values (loading weights again): rotated and scaled by a power of two
    void update_params(bool up) {
        for (size_t i = 0; i < params.size(); i++) {
            auto &v = *model[i];
            std::rotate(v.begin(), v.begin() + (v.size() > 1), v.end());
            for (auto &x : v) x *= up ? 2.0f : 0.5f;
            params[i].second = v;
            for (uint32_t k = 0; k < v.size(); k++) params[i].first->access_blob(k) = v[k];
        }
    }
    void check_params(pbt::Case &c) {
        for (auto &p : params) exact_bits(c, *p.first, p.second, "parameter modified");
    }
};
typedef std::unique_ptr<AnyLayer> L;
static const double EPS = 1.2e-7;

template <class Lib> struct LayerOf : AnyLayer {
    std::unique_ptr<Lib> lib, second;
    void destroy() override { lib.reset(); second.reset(); }
    bool twin() override { std::unique_ptr<Lib> a(std::move(lib)); build(); second = std::move(lib); lib = std::move(a); return true; }
    void run_twin(Tensor *in, Tensor *out) override { second->run(in, out); }
    void run(Tensor *in, Tensor *out) override { lib->run(in, out); }
};

// ---- convolution
struct ConvLayer : LayerOf<Convolution> {
    ConvSpec s; std::vector<float> w, b; Tensor *k = nullptr, *bt = nullptr;
    ConvLayer(pbt::Case &c, bool d1) {
        s = gen_conv(c, d1);
        pbt::Filler f = pbt::filler(c);
        w.resize(s.cout * (s.cin / s.groups) * s.kh * s.kw); for (auto &x : w) x = f.next();
        b.resize(s.cout); for (auto &x : b) x = f.next();
        k = param(d1 ? std::vector<uint32_t>{s.cout, s.cin / s.groups, s.kw} : std::vector<uint32_t>{s.cout, s.cin / s.groups, s.kh, s.kw}, w);
        if (s.bias) bt = param({s.cout}, b);
        desc = s.str() + " weights:" + pbt::fill_name(f.kind);
        features = (s.cin / s.groups > 1) + (s.groups > 1) + (s.sh > 1 || s.sw > 1) + (s.pt || s.pl || s.pb || s.pr) +
                   (s.pt != s.pb || s.pl != s.pr) + (s.kh != s.kw) + s.bias + (s.kh > 1 || s.kw > 1);
    }
    void build() override { lib = s.layer(k, bt); }
    bool first = true;
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        if (!first) {
            auto d = [&](uint32_t kk, uint32_t p) { uint32_t lo = kk > p ? kk - p : 1; return lo + c.in(0, 8); };
            s.w = d(s.kw, s.pl + s.pr); if (!s.d1) s.h = d(s.kh, s.pt + s.pb);
        }
        first = false;
        return s.d1 ? std::vector<uint32_t>{1, s.cin, s.w} : std::vector<uint32_t>{1, s.cin, s.h, s.w};
    }
    void set(const std::vector<uint32_t> &in) { s.w = in.back(); if (!s.d1) s.h = in[2]; }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override {
        set(in);
        return s.d1 ? std::vector<uint32_t>{1, s.cout, s.ow()} : std::vector<uint32_t>{1, s.cout, s.oh(), s.ow()};
    }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        set(sh);
        Expect e; s.reference(in, w, b, e.ref, e.tol);
        bool q = quarters(in) && quarters(w) && quarters(b);
        for (size_t i = 0; i < e.tol.size(); i++) e.tol[i] = sum_tol(q, e.tol[i], e.ref[i], s.cin / s.groups * s.kh * s.kw + 6);
        return e;
    }
};

// ---- pooling
struct PoolSpec {
    bool d1, nopad, big; uint32_t kh, kw, sh, sw, pt, pl, pb, pr;
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) const {
        if (d1) return {in[0], in[1], (in[2] + pl + pr - kw) / sw + 1};
        return {in[0], in[1], (in[2] + pt + pb - kh) / sh + 1, (in[3] + pl + pr - kw) / sw + 1};
    }
    std::string str() const {
        std::ostringstream o;
        o << (d1 ? "1d" : "2d") << " kernel=" << kh << "x" << kw << " stride=" << sh << "," << sw << " pads=" << (nopad ? std::string("none") : std::to_string(pt) + "," + std::to_string(pl) + "," + std::to_string(pb) + "," + std::to_string(pr));
        return o.str();
    }
    unsigned features() const { return (kh > 1 || kw > 1) + (sh != 1 || sw != 1) + (pt || pl || pb || pr) + (pt != pb || pl != pr) + (kh != kw) + (sh > kh || sw > kw); }
    // for every window: first/last real index and number of real positions per axis
    template <class F> void windows(const std::vector<uint32_t> &in, F f) const {
        uint32_t H = d1 ? 1 : in[2], W = in.back();
        auto os = out_shape(in);
        uint32_t OH = d1 ? 1 : os[2], OW = os.back(), o = 0;
        for (uint32_t n = 0; n < in[0] * in[1]; n++) for (uint32_t y = 0; y < OH; y++) for (uint32_t x = 0; x < OW; x++, o++) {
            long y0 = (long)y * sh - pt, y1 = y0 + kh, x0 = (long)x * sw - pl, x1 = x0 + kw;
            if (d1) { y0 = 0; y1 = 1; }
            y0 = std::max(y0, 0L); x0 = std::max(x0, 0L); y1 = std::min(y1, (long)H); x1 = std::min(x1, (long)W);
            f(o, (size_t)n * H * W, W, y0, y1, x0, x1);
        }
    }
};
inline PoolSpec gen_pool(pbt::Case &c, bool d1) {
    PoolSpec p{};
    p.d1 = d1;
    p.kw = c.pick<uint32_t>({1, 2, 2, 3, 3, 4, 5, 7}); p.kh = d1 ? 1 : (c.chance(100) ? p.kw : c.pick<uint32_t>({1, 2, 2, 3, 3, 4, 5, 7}));
    p.sw = c.pick<uint32_t>({1, 1, 2, 2, 3, 4, 6}); p.sh = d1 ? 1 : (c.chance(100) ? p.sw : c.pick<uint32_t>({1, 1, 2, 2, 3, 4, 6}));
    if (c.chance(12)) { (d1 || c.flip() ? p.kw : p.kh) = c.in(6, 15); if (!d1 && c.flip()) p.kh = p.kw; if (c.flip()) p.sw = c.in(5, 9); c.label("wide kernel"); }
    if (uint32_t l = c.large()) {
        p.big = true;
        int what = c.in(0, 3);
        if (what == 0) p.kw = d1 ? l : std::min(l, 1100u);
        else if (what == 1) (d1 ? p.kw : p.kh) = std::min(l, 1100u);
        else if (what == 2) p.sw = l;
        else (d1 ? p.sw : p.sh) = l;
        c.label(what < 2 ? "large kernel" : "large stride");
    }
    p.nopad = c.chance(60);
    if (!p.nopad && !c.chance(30)) {
        int m = c.in(0, 2);
        p.pl = m == 0 ? p.kw / 2 : c.in(0, p.kw - 1); p.pr = m == 0 ? p.kw / 2 : m == 1 ? p.pl : c.in(0, p.kw - 1);
        if (p.kw == 1) p.pl = p.pr = 0;
        if (!d1) {
            p.pt = m == 0 ? p.kh / 2 : c.in(0, p.kh - 1); p.pb = m == 0 ? p.kh / 2 : m == 1 ? p.pt : c.in(0, p.kh - 1);
            if (p.kh == 1) p.pt = p.pb = 0;
        }
    }
    // few windows of a large kernel
    if (p.kw > 200) p.pl = std::min(p.pl, p.kw / 2), p.pr = std::min(p.pr, p.kw / 2);
    if (p.kh > 200) p.pt = std::min(p.pt, p.kh / 2), p.pb = std::min(p.pb, p.kh / 2);
    return p;
}
template <class Lib> struct PoolBase : LayerOf<Lib> {
    PoolSpec p;
    PoolBase(pbt::Case &c, bool d1) { p = gen_pool(c, d1); this->features = p.features(); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        auto d = [&](uint32_t k, uint32_t pad) { uint32_t lo = k > pad ? k - pad : 1; int m = c.in(0, 7); return m == 0 ? lo : m == 7 ? lo + c.in(0, 24) : lo + c.in(0, 8); };
        uint32_t n = c.chance(70) ? c.in(2, 3) : 1, ch = c.chance(20) ? c.in(5, 20) : c.in(1, 4);
        uint32_t h = p.d1 ? 1 : d(p.kh, p.pt + p.pb), w = d(p.kw, p.pl + p.pr);
        if (p.big) n = 1, ch = 1;
        else if (uint32_t l = c.large()) {
            int what = c.in(0, 3);
            if (what == 0) { w = std::max(w, l); if (l > 60) n = 1, ch = c.in(1, 2); }
            else if (what == 1 && !p.d1) { h = std::max(h, l); n = 1, ch = c.in(1, 2); }
            else if (what == 2) { n = l; if (l > 1000) ch = 1; }
            else { ch = l; if (l > 1000) n = 1; }
            if ((uint64_t)n * ch * h * w > 400000) { if (what) w = p.kw > p.pl + p.pr ? p.kw - p.pl - p.pr : 1; if (what != 1 && !p.d1) h = p.kh > p.pt + p.pb ? p.kh - p.pt - p.pb : 1; }
        }
        if (p.d1) return {n, ch, w};
        return {n, ch, h, w};
    }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return p.out_shape(in); }
    // arrays of the full documented size; overwritten and freed afterwards
    template <class F> void with_arrays(F f) {
        std::vector<uint32_t> k = p.d1 ? std::vector<uint32_t>{p.kw, 9} : std::vector<uint32_t>{p.kh, p.kw};
        std::vector<uint32_t> s = p.d1 ? std::vector<uint32_t>{p.sw, 9} : std::vector<uint32_t>{p.sh, p.sw};
        std::vector<uint32_t> q = p.d1 ? std::vector<uint32_t>{p.pl, p.pr, 3, 5} : std::vector<uint32_t>{p.pt, p.pl, p.pb, p.pr};
        f(k.data(), s.data(), p.nopad ? nullptr : q.data());
        for (auto &x : k) x = 44; for (auto &x : s) x = 33; for (auto &x : q) x = 22;
    }
};
struct MaxPoolLayer : PoolBase<MaxPooling> {
    MaxPoolLayer(pbt::Case &c, bool d1) : PoolBase(c, d1) { desc = "maxpool " + p.str(); }
    void build() override { with_arrays([&](uint32_t *k, uint32_t *s, uint32_t *q) { lib.reset(new MaxPooling("mp", 0, op_type::MaxPool, k, s, q)); }); }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        Expect e; e.ref.resize(prod(p.out_shape(sh))); e.tol.assign(e.ref.size(), 0);
        p.windows(sh, [&](uint32_t o, size_t base, uint32_t W, long y0, long y1, long x0, long x1) {
            double m = -INFINITY;
            for (long y = y0; y < y1; y++) for (long x = x0; x < x1; x++) m = std::max(m, (double)in[base + y * W + x]);
            e.ref[o] = m;
        });
        return e;
    }
};
struct AvgPoolLayer : PoolBase<AveragePooling> {
    bool inc;
    AvgPoolLayer(pbt::Case &c, bool d1) : PoolBase(c, d1) { inc = c.flip(); desc = "avgpool " + p.str() + (inc ? " padding counted" : " padding not counted"); features += !inc; }
    void build() override { with_arrays([&](uint32_t *k, uint32_t *s, uint32_t *q) { lib.reset(new AveragePooling("ap", 0, op_type::AveragePool, k, s, q, inc)); }); }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        Expect e; e.ref.resize(prod(p.out_shape(sh))); e.tol.resize(e.ref.size());
        p.windows(sh, [&](uint32_t o, size_t base, uint32_t W, long y0, long y1, long x0, long x1) {
            double a = 0, m = 0; double n = inc ? (double)p.kh * p.kw : (double)(y1 - y0) * (x1 - x0);
            for (long y = y0; y < y1; y++) for (long x = x0; x < x1; x++) { a += in[base + y * W + x]; m += std::fabs(in[base + y * W + x]); }
            e.ref[o] = a / n; e.tol[o] = EPS * (p.kh * p.kw + 4) * m / n + 1e-37;
        });
        return e;
    }
};
template <class Lib, bool MAXI> struct GlobalPoolLayer : LayerOf<Lib> {
    bool d1;
    GlobalPoolLayer(pbt::Case &, bool d) : d1(d) { this->desc = std::string(MAXI ? "globalmax " : "globalavg ") + (d1 ? "1d" : "2d"); this->features = 2; }
    void build() override { this->lib.reset(new Lib("gp", 0, MAXI ? op_type::GlobalMaxPool : op_type::GlobalAveragePool, nullptr, nullptr, nullptr)); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        uint32_t n = c.chance(80) ? c.in(2, 3) : 1, ch = c.chance(20) ? c.in(6, 24) : c.in(1, 5);
        auto d = [&] { return c.chance(30) ? c.in(10, 40) : c.in(1, 7); };
        uint32_t h = d1 ? 1 : d(), w = d();
        if (uint32_t l = c.large()) {
            int what = c.in(0, 3);
            if (l > 1000) n = ch = h = w = 1;
            (what == 0 ? w : what == 1 && !d1 ? h : what == 2 ? n : ch) = l;
        }
        if (d1) return {n, ch, w};
        return {n, ch, h, w};
    }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return d1 ? std::vector<uint32_t>{in[0], in[1], 1} : std::vector<uint32_t>{in[0], in[1], 1, 1}; }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        uint32_t ch = sh[0] * sh[1], n = prod(sh) / ch; Expect e;
        for (uint32_t k = 0; k < ch; k++) {
            double a = 0, m = 0, mx = -INFINITY;
            for (uint32_t i = 0; i < n; i++) { double v = in[k * n + i]; a += v; m += std::fabs(v); mx = std::max(mx, v); }
            e.ref.push_back(MAXI ? mx : a / n); e.tol.push_back(MAXI ? 0 : EPS * (n + 4) * m / n + 1e-37);
        }
        return e;
    }
};

// ---- fully connected / matrix product
struct FcLayer : LayerOf<FullyConnected> {
    uint32_t K, N, big = 0; bool bias; std::vector<float> w, b; Tensor *k = nullptr, *bt = nullptr;
    FcLayer(pbt::Case &c) {
        auto d = [&] { return c.chance(25) ? c.in(17, 90) : c.in(1, 12); };
        K = d(); N = d(); bias = c.flip();
        if ((big = c.large())) { if (c.chance(170)) { K = big; N = c.in(1, 3); } else { N = big; K = c.in(1, 3); } }
        pbt::Filler f = pbt::filler(c);
        w.resize(N * K); for (auto &x : w) x = f.next();
        b.resize(N); for (auto &x : b) x = f.next();
        k = param({N, K}, w); bool flat = c.flip(); if (bias) bt = flat ? param({N}, b) : param({1, N}, b);
        desc = "fc " + std::to_string(K) + "->" + std::to_string(N) + (bias ? " bias" : "") + " weights:" + pbt::fill_name(f.kind); features = 1 + (K > 1) + (N > 1) + bias;
    }
    void build() override { lib.reset(new FullyConnected("fc", 0, op_type::Gemm, k, bt)); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        uint32_t rows = c.chance(120) ? c.in(2, big > 5000 ? 2 : 7) : 1;
        if (!big) if (uint32_t l = c.large()) if ((uint64_t)l * K * N < 400000) rows = l;
        return {rows, K};
    }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return {in[0], N}; }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        Expect e; bool q = quarters(in) && quarters(w) && quarters(b);
        for (uint32_t m = 0; m < sh[0]; m++) for (uint32_t n = 0; n < N; n++) {
            double a = bias ? b[n] : 0, g = std::fabs(a);
            for (uint32_t j = 0; j < K; j++) { double t = (double)in[m * K + j] * w[n * K + j]; a += t; g += std::fabs(t); }
            e.ref.push_back(a); e.tol.push_back(sum_tol(q, g, a, K + 5));
        }
        return e;
    }
};
struct MatMulLayer : LayerOf<MatMul> {
    uint32_t K, N, big = 0; std::vector<float> w; Tensor *k = nullptr;
    MatMulLayer(pbt::Case &c) {
        auto d = [&] { return c.chance(25) ? c.in(17, 90) : c.in(1, 12); };
        K = d(); N = d();
        if ((big = c.large())) { if (c.chance(170)) { K = big; N = c.in(1, 3); } else { N = big; K = c.in(1, 3); } }
        pbt::Filler f = pbt::filler(c);
        w.resize(N * K); for (auto &x : w) x = f.next();
        k = param({K, N}, w);
        desc = "matmul " + std::to_string(K) + "->" + std::to_string(N) + " weights:" + pbt::fill_name(f.kind); features = 1 + (K > 1) + (N > 1);
    }
    void build() override { lib.reset(new MatMul("mm", 0, op_type::MatMul, k)); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        uint32_t rows = c.chance(120) ? c.in(2, big > 5000 ? 2 : 7) : 1;
        if (!big) if (uint32_t l = c.large()) if ((uint64_t)l * K * N < 400000) rows = l;
        return {rows, K};
    }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return {in[0], N}; }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        Expect e; bool q = quarters(in) && quarters(w);
        for (uint32_t m = 0; m < sh[0]; m++) for (uint32_t n = 0; n < N; n++) {
            double a = 0, g = 0;
            for (uint32_t j = 0; j < K; j++) { double t = (double)in[m * K + j] * w[j * N + n]; a += t; g += std::fabs(t); }
            e.ref.push_back(a); e.tol.push_back(sum_tol(q, g, a, K + 5));
        }
        return e;
    }
};

// ---- batch normalization
struct BnLayer : LayerOf<BatchNormalization> {
    bool d1; uint32_t C; float eps; std::vector<float> g, b, m, v; Tensor *t[4];
    BnLayer(pbt::Case &c, bool d) : d1(d) {
        C = c.chance(30) ? c.in(8, 40) : c.in(1, 6);
        if (uint32_t l = c.large()) C = l;
        eps = c.pick<float>({1e-5f, 1e-3f, 0.0f, 0.1f, 1e-7f, 2.0f, 3.1e-6f, 0.7f}); if (c.chance(60)) eps *= 1 + c.u16() / 65536.0f;
        pbt::Filler f = pbt::filler(c), fv = pbt::filler(c);
        for (auto *p : {&g, &b, &m}) { p->resize(C); for (auto &x : *p) x = f.next(); }
        v.resize(C); for (auto &x : v) { x = std::fabs(fv.next()); if (eps < 1e-6f && x < 1e-3f) x = 0.5f; }
        t[0] = param({C}, g); t[1] = param({C}, b); t[2] = param({C}, m); t[3] = param({C}, v);
        std::ostringstream o; o << "batchnorm " << (d1 ? "1d" : "2d") << " channels=" << C << " eps=" << eps << " params:" << pbt::fill_name(f.kind) << " variance:" << pbt::fill_name(fv.kind); desc = o.str();
        features = 1 + (C > 1);
    }
    void build() override { lib.reset(new BatchNormalization("bn", 0, op_type::BatchNormalization, t[0], t[1], t[2], t[3], eps)); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        uint32_t h = c.in(1, 9), w = c.chance(30) ? c.in(10, 40) : c.in(1, 9);
        if (C > 300) h = 1, w = c.in(1, 3);
        else if (uint32_t l = c.large()) { if (l > 1000) h = w = 1; if ((uint64_t)C * h * w * l < 400000) (d1 || c.flip() ? w : h) = l; }
        return d1 ? std::vector<uint32_t>{1, C, w} : std::vector<uint32_t>{1, C, h, w};
    }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return in; }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        uint32_t n = prod(sh) / C; Expect e;
        for (uint32_t k = 0; k < C; k++) for (uint32_t i = 0; i < n; i++) {
            double s = g[k] / std::sqrt((double)v[k] + (double)eps), x = in[k * n + i];
            e.ref.push_back(s * (x - m[k]) + b[k]);
            e.tol.push_back(EPS * 6 * (std::fabs(s) * (std::fabs(x) + std::fabs(m[k])) + std::fabs(b[k])) + 1e-37);
        }
        return e;
    }
};

// ---- activations
inline std::vector<uint32_t> gen_any_shape(pbt::Case &c) {
    uint32_t r = c.in(1, 4), big = c.chance(20) ? 12 : 5; std::vector<uint32_t> s;
    for (uint32_t i = 0; i < r; i++) s.push_back(c.in(1, r == 1 ? big * 8 : big));
    if (uint32_t l = c.large()) { if (l > 1000) for (auto &x : s) x = 1; s[c.in(0, r - 1)] = l; }
    return s;
}
enum Act { A_ID, A_RELU, A_LEAKY, A_PRELU, A_CLIP, A_SIGMOID, A_TANH, A_COUNT };
// The identity activation is the library's base class.
struct ActLayer : AnyLayer {
    int kind; float p = 0, q = 0; std::vector<uint32_t> fixed; std::vector<float> sl; Tensor *slope = nullptr;
    std::function<void(Tensor *, Tensor *)> f; std::shared_ptr<void> lib;
    ActLayer(pbt::Case &c, int kind) : kind(kind) {
        static const char *n[] = {"identity", "relu", "leakyrelu", "prelu", "clip", "sigmoid", "tanh"};
        std::ostringstream o; o << n[kind]; features = 2; in_place_ok = true;
        if (kind == A_LEAKY) { p = c.pick<float>({0.01f, 0.1f, 0.0f, 1.0f, 2.5f, -0.5f}); if (c.chance(60)) p *= 1 + c.u16() / 65536.0f; o << " leak=" << p; }
        if (kind == A_CLIP) {
            p = c.pick<float>({0.0f, -1.0f, -2.5f, 1.0f, -3.402823466e38f, -300.0f}); q = c.pick<float>({6.0f, 1.0f, 0.0f, 0.5f, 3.402823466e38f, -0.25f});
            if (c.chance(100)) { p = ((int)c.u16() - 32768) / 3001.0f; q = ((int)c.u16() - 32768) / 5003.0f; }
            if (q < p) std::swap(p, q);
            o << " [" << p << "," << q << "]";
        }
        if (kind == A_PRELU) {
            fixed = gen_any_shape(c); sl.resize(prod(fixed)); pbt::Filler fl = pbt::filler(c); for (auto &x : sl) x = fl.next();
            slope = param(fixed, sl); o << " slopes " << shape_str(fixed) << ":" << pbt::fill_name(fl.kind);
        }
        desc = o.str();
    }
    template <class X> void hold(X *x) { lib = std::shared_ptr<void>(x, [](void *y) { delete (X *)y; }); f = [x](Tensor *i, Tensor *o) { x->run(i, o); }; }
    void build() override {
        switch (kind) {
        case A_ID: hold(new ActivationFunction("a", 0, op_type::Unknown)); break;
        case A_RELU: hold(new ReLU("a", 0, op_type::ReLU)); break;
        case A_LEAKY: hold(new LeakyReLU("a", 0, op_type::LeakyReLU, p)); break;
        case A_PRELU: hold(new ParameterizedReLU("a", 0, op_type::ParamReLU, slope)); break;
        case A_CLIP: hold(new Clip("a", 0, op_type::Clip, p, q)); break;
        case A_SIGMOID: hold(new Sigmoid("a", 0, op_type::Sigmoid)); break;
        default: hold(new TanH("a", 0, op_type::TanH)); break;
        }
    }
    void destroy() override { f = nullptr; lib.reset(); }
    void run(Tensor *i, Tensor *o) override { f(i, o); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override { return kind == A_PRELU ? fixed : gen_any_shape(c); }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return in; }
    Expect expect(const std::vector<uint32_t> &, const std::vector<float> &in) override {
        Expect e;
        for (size_t i = 0; i < in.size(); i++) {
            double x = in[i], y = x, t = 0;
            switch (kind) {
            case A_RELU: y = x < 0 ? 0 : x; break;
            case A_LEAKY: if (x < 0) { y = (double)p * x; t = EPS * std::fabs(y) + 1e-44; } break;
            case A_PRELU: if (x < 0) { y = (double)sl[i] * x; t = EPS * std::fabs(y) + 1e-44; } break;
            case A_CLIP: y = x < p ? p : x > q ? q : x; break;
            case A_SIGMOID: y = x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); t = 2e-6; break;
            case A_TANH: y = std::tanh(x); t = 1e-6 * std::fabs(y) + 1e-30; break;
            }
            e.ref.push_back(y); e.tol.push_back(t);
        }
        return e;
    }
};
struct SoftmaxLayer : LayerOf<Softmax> {
    int style = 0; float offset = 0;
    SoftmaxLayer(pbt::Case &c) {
        style = c.in(0, 7); features = 2;
        // 0-3 as filled; 4 shifted by a large constant; 5 scaled up; 6 all equal; 7 spread over the float range
        offset = c.pick<float>({-1e4f, 2e4f, -3e5f, 9e3f, 1e30f, -1e30f, 120.0f, -12000.0f});
        std::ostringstream o; o << "softmax style=" << style; if (style == 4) o << " offset=" << offset; desc = o.str();
    }
    void build() override { lib.reset(new Softmax("sm", 0, op_type::Softmax)); }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override { if (c.chance(20)) return {1, c.in(50, 400)}; return gen_any_shape(c); }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return in; }
    void adjust(std::vector<float> &v) override {
        for (auto &x : v) {
            if (style == 4) x += offset;
            if (style == 5) x *= 1000.0f;
            if (style == 6) x = offset;
            if (style == 7) x = x < 0 ? -3e38f : x == 0 ? 0 : 3e38f;
        }
    }
    Expect expect(const std::vector<uint32_t> &, const std::vector<float> &in) override {
        long double m = -INFINITY, s = 0; Expect e;
        for (float x : in) m = std::max(m, (long double)x);
        for (float x : in) s += expl((long double)x - m);
        for (float x : in) { double y = (double)(expl((long double)x - m) / s); e.ref.push_back(y); e.tol.push_back(1e-6 + 1e-5 * y); }
        return e;
    }
};
// (the bias parameter of LRN is optional, also for this harness)
template <class X> X *new_lrn(float a, float b, uint16_t n, float bias) {
    if constexpr (std::is_constructible<X, const char *, uint32_t, op_type, float, float, uint16_t, float>::value) return new X("lrn", 0, op_type::LRN, a, b, n, bias);
    else return nullptr;
}
static const bool LRN_HAS_BIAS = std::is_constructible<LRN, const char *, uint32_t, op_type, float, float, uint16_t, float>::value;
struct LrnLayer : LayerOf<LRN> {
    float alpha, beta, bias = 1; uint16_t n; bool with_bias;
    LrnLayer(pbt::Case &c) {
        alpha = c.pick<float>({1e-4f, 1.0f, 0.5f, 2.0f, 1e-2f, 0.0f}); beta = c.pick<float>({0.75f, 0.5f, 1.0f, 2.0f, 0.25f});
        if (c.chance(60)) alpha *= 1 + c.u16() / 65536.0f; if (beta <= 1 && c.chance(60)) beta *= 1 + c.u16() / 65536.0f;
        n = c.in(1, 12); if (uint32_t l = c.large()) n = std::min(l, 65535u); with_bias = c.flip() && LRN_HAS_BIAS; if (with_bias) { bias = c.pick<float>({1.0f, 2.0f, 0.5f, 1.5f, 10.0f}); if (c.chance(60)) bias *= 1 + c.u16() / 65536.0f; }
        std::ostringstream o; o << "lrn alpha=" << alpha << " beta=" << beta << " n=" << n; if (with_bias) o << " bias=" << bias; desc = o.str();
        features = 1 + (n > 1) + (n % 2 == 0) + (bias != 1);
    }
    void build() override {
        if (with_bias) lib.reset(new_lrn<LRN>(alpha, beta, n, bias));
        else lib.reset(new LRN("lrn", 0, op_type::LRN, alpha, beta, n));
    }
    std::vector<uint32_t> gen_shape(pbt::Case &c) override {
        uint32_t b = c.chance(80) ? c.in(2, 3) : 1, ch = c.in(1, 14), h = c.in(1, 4), w = c.in(1, 4);
        if (uint32_t l = c.large()) { if (l > 1000) b = ch = h = w = 1; int what = c.in(0, 5); (what == 0 ? b : what == 1 ? h : what == 2 ? w : ch) = l; }
        return {b, ch, h, w};
    }
    std::vector<uint32_t> out_shape(const std::vector<uint32_t> &in) override { return in; }
    Expect expect(const std::vector<uint32_t> &sh, const std::vector<float> &in) override {
        Expect e; e.ref.resize(in.size()); e.tol.resize(in.size()); long C = sh[1], P = sh[2] * sh[3];
        for (long b = 0; b < sh[0]; b++) for (long ch = 0; ch < C; ch++) for (long i = 0; i < P; i++) {
            long from = std::max(0L, ch - n / 2), to = std::min(C - 1, ch + n / 2); double s = 0;
            for (long k = from; k <= to; k++) { double x = in[(b * C + k) * P + i]; s += x * x; }
            size_t o = (b * C + ch) * P + i;
            e.ref[o] = in[o] / std::pow((double)bias + (double)alpha / n * s, (double)beta);
            e.tol[o] = std::fabs(e.ref[o]) * EPS * ((beta + 1) * (n + 7) + 4) + 1e-37;
        }
        return e;
    }
};

enum Kind { K_CONV2, K_CONV1, K_MAX2, K_MAX1, K_AVG2, K_AVG1, K_GMAX2, K_GMAX1, K_GAVG2, K_GAVG1, K_FC, K_MATMUL, K_BN2, K_BN1, K_ACT, K_SOFTMAX, K_LRN, K_COUNT };
inline L gen_layer(pbt::Case &c, int kind, int act = -1) {
    switch (kind) {
    case K_CONV2: return L(new ConvLayer(c, false));
    case K_CONV1: return L(new ConvLayer(c, true));
    case K_MAX2: return L(new MaxPoolLayer(c, false));
    case K_MAX1: return L(new MaxPoolLayer(c, true));
    case K_AVG2: return L(new AvgPoolLayer(c, false));
    case K_AVG1: return L(new AvgPoolLayer(c, true));
    case K_GMAX2: return L(new GlobalPoolLayer<GlobalMaxPooling, true>(c, false));
    case K_GMAX1: return L(new GlobalPoolLayer<GlobalMaxPooling, true>(c, true));
    case K_GAVG2: return L(new GlobalPoolLayer<GlobalAveragePooling, false>(c, false));
    case K_GAVG1: return L(new GlobalPoolLayer<GlobalAveragePooling, false>(c, true));
    case K_FC: return L(new FcLayer(c));
    case K_MATMUL: return L(new MatMulLayer(c));
    case K_BN2: return L(new BnLayer(c, false));
    case K_BN1: return L(new BnLayer(c, true));
    case K_ACT: return L(new ActLayer(c, act >= 0 ? act : (int)c.in(0, A_COUNT - 1)));
    case K_SOFTMAX: return L(new SoftmaxLayer(c));
    default: return L(new LrnLayer(c));
    }
}
inline void check_values(pbt::Case &c, const Tensor &out, const Expect &e, const char *what = "wrong value") {
    if (out.num_elements() != e.ref.size()) c.fail("harness", "size mismatch");
    for (uint32_t i = 0; i < e.ref.size(); i++) {
        double g = out.access_blob(i);
        if (!(std::fabs(g - e.ref[i]) <= e.tol[i]))
            c.fail(what, "element " + std::to_string(i) + " of " + std::to_string(e.ref.size()) + ": got " + pbt::hexf(g) + ", expected " + pbt::hexf(e.ref[i]) + " (tolerance " + pbt::hexf(e.tol[i]) + ")");
    }
}
inline std::vector<float> gen_input(pbt::Case &c, AnyLayer &l, const std::vector<uint32_t> &sh) {
    pbt::Filler f = pbt::filler(c, l.fill_mask());
    std::vector<float> v(prod(sh)); for (auto &x : v) x = f.next();
    l.adjust(v);
    c.text << " input " << shape_str(sh) << ":" << pbt::fill_name(f.kind);
    return v;
}
// One layer, one or more runs on generated inputs against the reference.
inline void simple_layer_property(pbt::Case &c, AnyLayer &l) {
    c.text << l.desc;
    l.build();
    int runs = c.chance(60) ? 2 : 1;
    for (int r = 0; r < runs; r++) {
        auto sh = l.gen_shape(c);
        auto v = gen_input(c, l, sh);
        T in(make(sh, v)), out(make(l.out_shape(sh)));
        if (r == 0) c.nontrivial = l.features >= 2 && out->num_elements() > 1;
        dirty(c, *out);
        l.run(in.get(), out.get());
        check_values(c, *out, l.expect(sh, v), r ? "wrong value on the second run" : "wrong value");
    }
    l.destroy();
}
