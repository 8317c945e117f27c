#include "pbt.h"
#include "lib.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include "pico-cnn/io/write_float.h"
using namespace pbt;
const char *PROP_ID = "C18";
const char *PROP_RULE = "a case reads a generated grey-map file (drawn pixels, header form, padding, range, possibly broken), or writes a generated image as grey map (checked byte for byte and read back) or as text floats (parsed back bit for bit); non-trivial: more than one pixel; distinct by choice bytes";
const unsigned QUICK_CASES = 120000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 6000, THOROUGH_FUZZ = 500000;

static uint32_t dim(Case &c) { if (uint32_t k = c.large()) return std::min(k, 2000u); return c.chance(12) ? c.in(10, 300) : c.in(1, 9); }

static void check_read(Case &c, const std::string &path, const std::vector<uint8_t> &px, uint32_t h, uint32_t w, uint8_t pad, float lo, float hi) {
    fp_t *img = nullptr; uint16_t H = 0, W = 0;
    int fds = open_fds(); size_t m0 = live_bytes();
    int32_t rc = read_pgm(&img, path.c_str(), pad, lo, hi, &H, &W);
    if (rc != 0) c.fail("wrong status", "a valid grey-map file was rejected");
    if (H != h || W != w) c.fail("wrong size", "read " + std::to_string(W) + "x" + std::to_string(H) + ", expected " + std::to_string(w) + "x" + std::to_string(h));
    uint32_t PH = h + 2 * pad, PW = w + 2 * pad;
    for (uint32_t y = 0; y < PH; y++) for (uint32_t x = 0; x < PW; x++) {
        double e = lo, g = img[(size_t)y * PW + x];
        if (y >= pad && x >= pad && y < pad + h && x < pad + w) e = lo + (px[(size_t)(y - pad) * w + (x - pad)] / 255.0) * ((double)hi - lo);
        if (!(std::fabs(g - e) <= 1e-6 * (std::fabs(hi - lo) + std::fabs(lo)))) c.fail("wrong value", "row " + std::to_string(y) + " column " + std::to_string(x) + " (padding included): got " + hexf(g) + ", expected " + hexf(e));
    }
    free(img);
    if ((long)live_bytes() > (long)m0) c.fail("memory leak", "memory remains after the caller freed the image");
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
}

// independent grey-map parser
static bool parse_pgm(const std::string &b, uint32_t &w, uint32_t &h, std::vector<uint8_t> &px) {
    size_t p = 2; if (b.compare(0, 2, "P5") != 0) return false;
    uint32_t v[3];
    for (int k = 0; k < 3; k++) {
        for (;;) {
            if (p >= b.size()) return false;
            if (b[p] == '#') { while (p < b.size() && b[p] != '\n') p++; }
            else if (isspace((unsigned char)b[p])) p++;
            else break;
        }
        if (!isdigit((unsigned char)b[p])) return false;
        v[k] = 0; while (p < b.size() && isdigit((unsigned char)b[p])) v[k] = v[k] * 10 + (b[p++] - '0');
    }
    if (v[2] != 255 || p >= b.size() || !isspace((unsigned char)b[p])) return false;
    p++;
    w = v[0]; h = v[1];
    if (b.size() - p != (size_t)w * h) return false;
    px.assign(b.begin() + p, b.end());
    return true;
}

void property(Case &c) {
    int mode = c.in(0, 3);
    if (mode <= 1) {   // read
        uint32_t h = dim(c), w = dim(c);
        int big = c.chance(2) ? c.in(1, 4) : 0;
        if (big == 1) { h = 65535 - c.in(0, 3); w = 1; } if (big == 2) { w = 65535 - c.in(0, 3); h = 1; }
        uint8_t pad = c.flip() ? 0 : c.chance(20) ? c.in(5, 255) : c.in(1, 4);
        if (big == 1 || big == 2 || h * w > 4000) pad = std::min<uint8_t>(pad, 4);
        std::vector<uint8_t> px(h * w); int style = c.in(0, 3); uint64_t s = c.u16() + 1;
        for (size_t i = 0; i < px.size(); i++) { uint32_t r = (uint32_t)splitmix(s); px[i] = style == 0 ? i * 3 + 1 : style == 1 ? (uint8_t)" \n\t\r\v\f0#1"[r % 9] : style == 2 ? r : (r % 2 ? 255 : 0); }
        if (c.flip() && !px.empty()) px[0] = c.pick<uint8_t>({10, 32, 9, 13, 35, 48});
        std::string b = "P5\n"; uint32_t nc = c.pick<uint32_t>({1, 0, 1, 2}), inner = 0;
        auto comment = [&] { b += "#"; uint32_t l = c.chance(30) ? c.in(90, 300) : c.in(0, 20); for (uint32_t i = 0; i < l; i++) b += (char)(i % 7 ? 'a' + i % 26 : ' '); b += "\n"; };
        auto blank = [&] { if (c.chance(40)) { b += "\n"; comment(); inner++; } else b += c.chance(60) ? "\n" : c.chance(20) ? c.pick<std::string>({"\t", "  ", " \n", "\r\n"}) : " "; };
        for (uint32_t k = 0; k < nc; k++) comment();
        b += std::to_string(w); blank(); b += std::to_string(h);
        if (c.chance(60)) blank(); else b += "\n";
        b += "255\n";
        size_t head = b.size();
        b.append((const char *)px.data(), px.size());
        static const float lows[] = {0, -1, 0, -128, 0.5f}, highs[] = {1, 1, 255, 127, 0.75f};
        int rk = c.in(0, 4);
        c.text << "read " << w << "x" << h << " comments " << nc << "+" << inner << " padding " << (int)pad << " range " << lows[rk] << ".." << highs[rk] << " first byte " << (int)px[0];
        int defect = c.chance(40) ? c.in(1, 3) : 0;
        c.nontrivial = px.size() > 1;
        if (defect) {
            std::string path = c.scratch + "/missing";
            if (defect == 2) { b[c.in(0, 1)] = (char)c.in(97, 122); path = write_file(c, "p", b); }
            if (defect == 3) { b.resize(c.in(0, b.size() - 1)); path = write_file(c, "p", b); }
            c.text << (defect == 1 ? " missing" : defect == 2 ? " wrong magic" : " truncated to " + std::to_string(b.size()));
            c.label(defect == 1 ? "missing" : defect == 2 ? "wrong magic" : b.size() > head ? "truncated pixels" : "truncated header");
            fp_t *img = nullptr; uint16_t H = 0, W = 0; int fds = open_fds(); size_t m0 = live_bytes();
            if (read_pgm(&img, path.c_str(), pad, lows[rk], highs[rk], &H, &W) == 0) c.fail("accepted", "a missing or broken grey-map file was reported as read");
            if (open_fds() != fds) c.fail("descriptor leak", "file left open");
            (void)m0;
            return;
        }
        c.label(inner ? "read with comment inside the header" : nc ? "read with comment" : "read without comment"); if (pad) c.label("read with padding");
        check_read(c, write_file(c, "p", b), px, h, w, pad, lows[rk], highs[rk]);
        return;
    }
    uint32_t h = dim(c), w = dim(c);
    if (c.chance(2)) { if (c.flip()) { h = 65535; w = 1; } else { w = 65535; h = 1; } }
    std::vector<float> v((size_t)h * w);
    int style = c.in(0, 8); Filler f = filler(c); uint64_t s = c.u16() + 5;
    float k0 = c.pick<float>({0.0f, 5.25f, -2000.0f, 1e30f, 3.4e38f, -1e-40f});
    for (auto &x : v) {
        uint32_t r = (uint32_t)splitmix(s);
        x = style == 0 ? k0 : style == 1 ? (float)(r % 256) : style == 2 ? 5000.0f + (float)(r % 1000) : style == 3 ? -9000.0f - (float)(r % 1000)
          : style == 4 ? (r % 2 ? 3.4e38f : -3.4e38f) * ((float)(r >> 16) / 65536.0f) : style == 5 ? (float)(r % 5) * 1e-41f : style == 6 ? (float)(r % 256) / 255.0f : f.next();
        if (mode == 3 && style >= 7) { x = bits(r); if (!std::isfinite(x)) x = 0; }
    }
    c.text << (mode == 2 ? "write grey map " : "write floats ") << w << "x" << h << " style " << style << (style == 0 ? " constant " + hexf(k0) : style >= 7 ? std::string(":") + fill_name(f.kind) : "");
    c.nontrivial = v.size() > 1;
    std::vector<float> keep = v;
    std::string path = c.scratch + "/o";
    bool bad = c.chance(6);
    if (bad) path = c.scratch + "/no-dir/o";
    int fds = open_fds(); size_t m0 = live_bytes();
    int32_t rc = mode == 2 ? write_pgm(v.data(), h, w, path.c_str()) : write_float(v.data(), h, w, path.c_str());
    if ((long)live_bytes() > (long)m0) c.fail("memory leak", "writer");
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
    for (size_t i = 0; i < v.size(); i++) if (!same_bits(v[i], keep[i])) c.fail("image modified", "writer");
    if (bad) { c.label("unwritable path"); if (rc == 0) c.fail("wrong status", "writing into a missing directory was reported as success"); return; }
    if (rc != 0) c.fail("wrong status", "writing failed");
    std::string b; read_file(path, b);
    if (mode == 3) {
        c.label("float dump");
        std::istringstream is(b); std::string l; size_t i = 0;
        std::getline(is, l); if (l != "FF") c.fail("wrong file", "first line " + l);
        std::getline(is, l); if (l != std::to_string(h)) c.fail("wrong file", "height " + l);
        std::getline(is, l); if (l != std::to_string(w)) c.fail("wrong file", "width " + l);
        while (std::getline(is, l)) {
            char *e; float x = strtof(l.c_str(), &e);
            if (*e || l.empty()) c.fail("wrong file", "line " + l);
            if (i >= v.size()) c.fail("wrong file", "too many values");
            if (!same_bits(x, v[i])) c.fail("value lost", "value " + std::to_string(i) + ": " + hexf(v[i]) + " written as " + l);
            i++;
        }
        if (i != v.size()) c.fail("wrong file", std::to_string(i) + " values instead of " + std::to_string(v.size()));
        return;
    }
    uint32_t W, H; std::vector<uint8_t> px;
    if (!parse_pgm(b, W, H, px)) c.fail("invalid file", "the written file is not a complete 8-bit grey map");
    if (W != w || H != h) c.fail("wrong size", "written " + std::to_string(W) + "x" + std::to_string(H));
    double mn = v[0], mx = v[0]; for (double x : v) { mn = std::min(mn, x); mx = std::max(mx, x); }
    c.label(mn == mx ? "write constant image" : mn > 1000 || mx < -1000 ? "write values beyond +-1000" : "write image");
    for (size_t i = 0; i < px.size(); i++) {
        if (mn == mx) { if (px[i] != px[0]) c.fail("wrong pixel", "a constant image was written with different levels"); continue; }
        double e = (v[i] - mn) / (mx - mn) * 255.0;
        if (std::fabs(px[i] - e) > 1.001 || (v[i] == mx && px[i] != 255) || (v[i] == mn && px[i] != 0)) c.fail("wrong pixel", "pixel " + std::to_string(i) + ": " + std::to_string(px[i]) + ", expected " + hexf(e));
    }
    check_read(c, path, px, h, w, 0, 0, 255);
}
