// Binary weights files: generator, field map for corruption, and an
// independent strict reader used as oracle.
#pragma once
#include "lib.h"

struct WNet {   // what the network provides
    std::vector<std::vector<uint32_t>> kshape;   // kernel tensor shapes
    std::vector<uint32_t> bsize;                 // bias tensor sizes
};
struct WFile {
    std::string bytes;
    std::vector<size_t> size_fields;    // offsets of 32-bit counts
    std::vector<size_t> type_at;        // offsets of layer type lines
    std::vector<size_t> name_at;
    size_t end_at = 0, count_at = 0;
    std::string desc;
    std::vector<std::vector<float>> kernels, biases;    // expected contents
    unsigned kinds = 0, arrays = 0, shared = 0;
};
inline void put32(std::string &s, uint32_t v) { s.append((const char *)&v, 4); }
inline void putf(std::string &s, const std::vector<float> &v) { s.append((const char *)v.data(), v.size() * 4); }

struct WGen {
    pbt::Case &c; WNet net; WFile f; int style; uint64_t s;
    WGen(pbt::Case &cc) : c(cc) { style = c.in(0, 2); s = c.u16() * 0x9e3779b97f4a7c15ULL + 7; }
    float value() {
        if (style == 0) return (float)(f.arrays * 100 + (pbt::splitmix(s) % 90)) * 0.5f;
        uint32_t u = (uint32_t)pbt::splitmix(s);
        if (style == 1) { static const uint32_t sp[] = {0x0a0a0a0a, 0x00000a00, 0x80000000, 0x7f800000, 0xffc00001, 0x7fa00001, 1, 0x0d0a1a00, 0x00646e65}; if (u % 3 == 0) u = sp[(u >> 8) % 9]; }
        return pbt::bits(u);
    }
    std::vector<float> values(uint32_t n) { std::vector<float> v(n); for (auto &x : v) x = value(); f.arrays++; return v; }
    std::string name() {
        int how = c.in(0, 5);
        uint32_t n = how == 0 ? 0 : how == 5 ? c.in(90, 400) : c.in(1, 20);
        std::string o;
        for (uint32_t i = 0; i < n; i++) { char ch = how == 4 ? (char)c.in(1, 255) : (char)c.in(33, 126); if (ch == '\n') ch = ' '; o += ch; if (how == 5 && i > 8) { o.append(n - i, 'x'); break; } }
        return o;
    }
    void field(uint32_t v) { f.size_fields.push_back(f.bytes.size()); put32(f.bytes, v); }
    void bias(bool present, uint32_t n) {
        if (!present) { field(0); return; }
        auto v = values(n); field(n); putf(f.bytes, v); f.biases.push_back(v); net.bsize.push_back(n);
    }
    uint32_t budget = 200000;    // elements of large arrays
    uint32_t d(uint32_t small, uint32_t big, uint32_t others = 1) {
        if (!big_ok) return c.chance(25) ? c.in(1, big) : c.in(1, small);
        uint32_t n = c.chance(60) ? c.large_size() : 0;
        if (n && (uint64_t)n * others <= budget) { budget -= n * others; return n; }
        return c.in(1, small);
    }
    bool big_ok = false;
    void build(uint32_t max_layers) {
        uint32_t n = c.chance(12) ? 0 : c.in(1, max_layers);
        if (max_layers > 4 && c.u16() >= 65536 - 200) { big_ok = true; c.label("large arrays"); }
        if (max_layers > 4 && c.u16() >= 65536 - 25) { n = c.in(9, 900); big_ok = false; c.label("many layers"); }
        f.bytes = "FD\n"; f.bytes += name() + "\n";
        f.count_at = f.bytes.size(); put32(f.bytes, n);
        std::ostringstream o;
        for (uint32_t i = 0; i < n; i++) {
            int kind = c.in(0, 6);
            static const char *types[] = {"Conv", "Gemm", "MatMul", "Conv", "BatchNormalization", "Add", "Transpose"};
            f.kinds |= 1u << kind;
            f.name_at.push_back(f.bytes.size());
            f.bytes += name() + "\n";
            f.type_at.push_back(f.bytes.size());
            f.bytes += std::string(types[kind]) + "\n";
            bool stored = c.chance(40);   // kernel already stored by an earlier layer
            bool b = c.flip();
            switch (kind) {
            case 0: case 3: {
                bool d1 = kind == 3;
                uint32_t oc = d(4, 12), ic = d(4, 9, oc), kh = d1 ? 1 : d(4, 7, oc * ic), kw = d(4, 9, oc * ic * kh);
                o << (d1 ? " conv1d " : " conv ") << oc << "x" << ic << "x" << kh << "x" << kw << (stored ? " (stored)" : "") << (b ? "+b" : "");
                if (stored) { f.shared++; for (int k = 0; k < 4; k++) field(0); }
                else {
                    net.kshape.push_back(d1 ? std::vector<uint32_t>{oc, ic, kw} : std::vector<uint32_t>{oc, ic, kh, kw});
                    auto v = values(oc * ic * kh * kw);
                    field(oc); field(ic); field(kh); field(kw); putf(f.bytes, v); f.kernels.push_back(v);
                }
                bias(b, oc);
                break;
            }
            case 4: {
                uint32_t ch = d(6, 40);
                o << " bn " << ch << (stored ? " (partly stored)" : "");
                for (int k = 0; k < 4; k++) bias(!(stored && c.flip()), ch);
                f.shared += stored;
                break;
            }
            case 5: { uint32_t ch = d(6, 40); o << " add " << ch << (stored ? " (stored)" : ""); f.shared += stored; bias(!stored, ch); break; }
            default: {
                uint32_t h = d(8, 30), w = d(8, 30, h);
                o << " " << types[kind] << " " << h << "x" << w << (stored ? " (stored)" : "") << (b ? "+b" : "");
                if (stored) { f.shared++; for (int k = 0; k < 3; k++) field(0); }
                else {
                    net.kshape.push_back({h, w});
                    auto v = values(h * w);
                    field(1); field(h); field(w); putf(f.bytes, v); f.kernels.push_back(v);
                }
                bias(b && kind == 1, h);
            }
            }
        }
        f.end_at = f.bytes.size();
        f.bytes += "end\n";
        o << (style == 0 ? " values:plain" : style == 1 ? " values:special bits" : " values:random bits");
        f.desc = std::to_string(n) + " layers:" + o.str();
    }
};

// Strict reader of the documented layout. 1: well-formed and fits the network,
// 0: broken, -1: not decided (counts beyond the network, or equal element
// counts under different dimensions).
struct WOracle {
    const std::string &b; const WNet &net; size_t p = 0; bool unknown = false;
    std::vector<std::vector<float>> k, v;      // expected after reading
    size_t ki = 0, vi = 0;
    WOracle(const std::string &bytes, const WNet &n) : b(bytes), net(n) {}
    bool line(std::string &o) { size_t e = b.find('\n', p); if (e == std::string::npos) return false; o = b.substr(p, e - p); p = e + 1; return true; }
    bool u32(uint32_t &x) { if (b.size() - p < 4) return false; memcpy(&x, b.data() + p, 4); p += 4; return true; }
    bool floats(std::vector<float> &o, uint64_t n) { if ((b.size() - p) / 4 < n) return false; o.resize(n); memcpy(o.data(), b.data() + p, n * 4); p += n * 4; return true; }
    int bias() {
        uint32_t n; if (!u32(n)) return 0;
        if (n == 0) return 1;
        if (vi >= net.bsize.size()) return -1;
        if (net.bsize[vi] != n) return 0;
        if (!floats(v[vi], n)) return 0;
        vi++; return 1;
    }
    int kernel(const std::vector<uint32_t> &dims) {
        bool any = false, all = true;
        for (auto d : dims) { any |= d != 0; all &= d != 0; }
        if (!any) return 1;
        if (!all) return -1;
        if (ki >= net.kshape.size()) return -1;
        const auto &s = net.kshape[ki];
        unsigned __int128 n = 1; for (auto d : dims) n *= d;
        if (n != prod(s)) return 0;
        std::vector<uint32_t> want = dims;
        if (dims.size() == 3) want = {dims[1], dims[2]};
        else if (s.size() == 3 && dims[2] == 1) want = {dims[0], dims[1], dims[3]};
        if (want != s || (dims.size() == 3 && dims[0] != 1)) return -1;
        if (!floats(k[ki], (uint64_t)n)) return 0;
        ki++; return 1;
    }
    int run() {
        std::string t; uint32_t n;
        if (b.compare(0, 3, "FD\n") != 0) return 0;
        p = 3;
        if (!line(t) || !u32(n)) return 0;
        if (t.find('\0') != std::string::npos) unknown = true;
        for (uint32_t i = 0; i < n; i++) {
            std::string ty; int r = 1;
            if (!line(t) || !line(ty)) return unknown ? -1 : 0;
            if (ty.find('\0') != std::string::npos) return -1;
            if (ty == "Conv") {
                std::vector<uint32_t> d(4); for (auto &x : d) if (!u32(x)) return 0;
                r = kernel(d); if (r > 0) r = bias();
            } else if (ty == "Gemm" || ty == "MatMul" || ty == "Transpose") {
                std::vector<uint32_t> d(3); for (auto &x : d) if (!u32(x)) return 0;
                r = kernel(d); if (r > 0) r = bias();
            } else if (ty == "BatchNormalization") { for (int q = 0; q < 4 && r > 0; q++) r = bias(); }
            else if (ty == "Add") r = bias();
            else return 0;
            if (r <= 0) return r;
        }
        return b.compare(p, 4, "end\n") == 0 ? 1 : 0;
    }
};

// The network's parameter tensors; pointer arrays are padded cyclically so that
// a file with more arrays than the network has never indexes past them.
struct WTensors {
    std::vector<T> own; std::vector<Tensor *> k, b; size_t nk, nb;
    float init = 12345.0f;
    std::vector<std::vector<float>> k0, b0;
    WTensors(const WNet &n, size_t pad) {
        for (auto &s : n.kshape) { own.emplace_back(make(s)); k.push_back(own.back().get()); k0.emplace_back(prod(s), init); }
        for (auto s : n.bsize) { own.emplace_back(make({s})); b.push_back(own.back().get()); b0.emplace_back(s, init); }
        nk = k.size(); nb = b.size();
        if (pad) {
            if (!nk) { own.emplace_back(make({2, 3})); k.push_back(own.back().get()); }
            if (!nb) { own.emplace_back(make({3})); b.push_back(own.back().get()); }
            while (k.size() < pad) k.push_back(k[k.size() - (nk ? nk : 1)]);
            while (b.size() < pad) b.push_back(b[b.size() - (nb ? nb : 1)]);
        }
        for (auto &t : own) for (uint32_t i = 0; i < t->num_elements(); i++) t->access_blob(i) = init;
    }
    int32_t read(const std::string &path) { Tensor **kp = k.data(), **bp = b.data(); return read_binary_weights(path.c_str(), &kp, &bp); }
};
