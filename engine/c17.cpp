#include "pbt.h"
#include "lib.h"
#include "pico-cnn/io/read_mnist.h"
using namespace pbt;
const char *PROP_ID = "C17";
const char *PROP_RULE = "a case is an MNIST image or label file with drawn sizes, pixels, declared and stored counts, request count, padding and range, possibly truncated at any byte, with wrong magic, huge declared dimensions, or missing; non-trivial: at least one complete item is stored and (for images) it has several pixels; distinct by choice bytes";
const unsigned QUICK_CASES = 200000, THOROUGH_CASES = 3000000;
const unsigned QUICK_FUZZ = 10000, THOROUGH_FUZZ = 1000000;

static void be(std::string &s, uint32_t v) { for (int k = 3; k >= 0; k--) s += (char)(v >> (8 * k)); }

void property(Case &c) {
    bool img = c.chance(180);
    uint32_t n = c.in(0, 6), h = c.chance(20) ? 28 : c.in(1, 9), w = c.chance(20) ? 28 : c.in(1, 9);
    if (!img) { h = w = 1; n = c.in(0, 60); }
    if (uint32_t k = c.large()) {
        int what = img ? c.in(0, 2) : 0;
        if (k > 5000 && img && !c.chance(40)) k = 300;
        if (what == 0) { n = k; if (img) { h = std::min(h, 4u); w = std::min(w, 4u); } }
        else { n = std::min(n, 2u); if (what == 1) { h = k; w = std::min(w, 5u); } else { w = k; h = std::min(h, 5u); } }
    }
    uint32_t extra = c.chance(40) ? c.in(1, 3) : 0;     // declared but not stored
    uint32_t declared = n + extra;
    if (c.chance(6)) declared = c.pick<uint32_t>({0xffffffffu, 0x80000000u, 60000u});
    uint32_t dh = h, dw = w;
    int defect = c.chance(150) ? 0 : c.in(1, 5);   // 1 magic 2 missing 3 truncated 4 huge dims 5 short header
    if (defect == 4 && img) { dh = c.pick<uint32_t>({h, 0xffffffffu, 65536u, 0x7fffffffu, 100000u}); dw = c.pick<uint32_t>({0xffffffffu, 65536u, 0x10001u, w, 30000u}); }
    std::string b;
    uint32_t magic = img ? 2051 : 2049;
    if (defect == 1) magic = c.pick<uint32_t>({2050, 0, 0x03080000, 0x01080000, img ? 2049u : 2051u, 0xffffffffu});
    be(b, magic); be(b, declared);
    if (img) { be(b, dh); be(b, dw); }
    size_t head = b.size();
    int style = c.in(0, 3); uint64_t s = c.u16() + 1;
    for (uint32_t i = 0; i < n * h * w; i++) { uint32_t r = (uint32_t)splitmix(s); b += (char)(style == 0 ? i * 7 : style == 1 ? (r % 2 ? 255 : 0) : style == 2 ? r : "\n \t\r\0\xff"[r % 6]); }
    if (defect == 3 || defect == 5) b.resize(c.in(0, defect == 5 ? std::min(head - 1, b.size()) : b.size()));
    uint32_t req = c.flip() ? c.in(0, n + 3) : c.pick<uint32_t>({1, n, 10000, 60000});
    uint8_t pad = img ? (c.flip() ? 0 : c.chance(30) ? c.in(5, 255) : c.in(1, 4)) : 0;
    if (h * w > 2000 || n > 70) pad = std::min<uint8_t>(pad, 3);
    if (dh != h || dw != w) pad = pad > 3 ? 3 : pad;
    static const float lows[] = {0, -1, 0, -128, 0.5f}, highs[] = {1, 1, 255, 127, 0.75f};
    int rk = c.in(0, 4); float lo = lows[rk], hi = highs[rk];
    c.text << (img ? "images " : "labels ") << "stored " << n << " declared " << declared << " " << dh << "x" << dw << " bytes " << b.size() << " requested " << req << " padding " << (int)pad << " range " << lo << ".." << hi << " defect " << defect;
    // how many items are fully in the file
    uint64_t per = (uint64_t)dh * dw, full = 0;
    if (defect != 2 && magic == (img ? 2051u : 2049u) && b.size() >= head && per) full = (b.size() - head) / per;
    uint32_t want = (uint32_t)std::min<uint64_t>(std::min<uint64_t>(full, declared), req);
    bool clean = full >= declared || full >= req;    // nothing the request needs is missing
    c.label(std::string(img ? "images" : "labels") + (want == 0 ? " none" : clean ? " complete" : " file ends early"));
    c.nontrivial = full >= 1 && (!img || per > 1);
    std::string path = defect == 2 ? c.scratch + "/missing" : write_file(c, "m", b);
    int fds = open_fds();
    size_t m0 = live_bytes();
    if (img) {
        fp_t **out = nullptr;
        uint32_t got = read_mnist_images(path.c_str(), &out, req, pad, lo, hi);
        if (got > want) c.fail("invented images", std::to_string(got) + " images returned, only " + std::to_string(want) + " are in the file");
        if (clean && got != want) c.fail("wrong count", std::to_string(got) + " images returned, expected " + std::to_string(want));
        if (!clean && got != 0 && got != want) c.fail("wrong count", std::to_string(got) + " images returned, expected " + std::to_string(want) + " or none");
        uint32_t H = dh + 2 * pad, W = dw + 2 * pad;     // (a file with huge declared dimensions may be long enough for an image)
        for (uint32_t i = 0; i < got; i++) {
            for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) {
                double e = lo, g = out[i][y * W + x];
                if (y >= pad && x >= pad && y < pad + dh && x < pad + dw) e = lo + ((double)(uint8_t)b[head + (size_t)i * dh * dw + (size_t)(y - pad) * dw + (x - pad)] / 255.0) * ((double)hi - lo);
                if (!(std::fabs(g - e) <= 1e-6 * (std::fabs(hi - lo) + std::fabs(lo)))) c.fail("wrong value", "image " + std::to_string(i) + " row " + std::to_string(y) + " column " + std::to_string(x) + ": got " + hexf(g) + ", expected " + hexf(e));
            }
            free(out[i]);
        }
        if (got) free(out);
        long leak = (long)live_bytes() - (long)m0;
        if (clean && got && leak > 0) c.fail("memory leak", std::to_string(leak) + " bytes remain after the caller freed the images");
    } else {
        uint8_t *out = nullptr;
        uint32_t got = read_mnist_labels(path.c_str(), &out, req);
        if (got > want) c.fail("invented labels", std::to_string(got) + " labels returned, only " + std::to_string(want) + " are in the file");
        if (clean && got != want) c.fail("wrong count", std::to_string(got) + " labels returned, expected " + std::to_string(want));
        if (!clean && got != 0 && got != want) c.fail("wrong count", std::to_string(got) + " labels returned, expected " + std::to_string(want) + " or none");
        for (uint32_t i = 0; i < got; i++) if (out[i] != (uint8_t)b[head + i]) c.fail("wrong value", "label " + std::to_string(i));
        if (got) free(out);
        long leak = (long)live_bytes() - (long)m0;
        if (clean && got && leak > 0) c.fail("memory leak", std::to_string(leak) + " bytes remain after the caller freed the labels");
    }
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
}
