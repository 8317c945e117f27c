#include "pbt.h"
#include "lib.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
using namespace pbt;
const char *PROP_ID = "C19";
const char *PROP_RULE = "a case is a means file (hex or decimal floats, or missing/wrong magic/too few numbers/garbage), a label list (drawn line count, lengths up to 700, with or without final newline, drawn request count) or a validation label list; non-trivial: at least two lines (labels) or three values (means); distinct by choice bytes";
const unsigned QUICK_CASES = 200000, THOROUGH_CASES = 3000000;
const unsigned QUICK_FUZZ = 6000, THOROUGH_FUZZ = 500000;

static void means(Case &c) {
    float v[3]; std::string b = "FD\n"; char t[64];
    int form = c.in(0, 2);
    for (auto &x : v) {
        int k = c.in(0, 2);
        x = k == 0 ? (float)c.in(0, 2550) / 10.0f : k == 1 ? bits(c.u32()) : -(float)c.in(0, 1000) * 0.125f;
        if (!std::isfinite(x)) x = 1.5f;
        snprintf(t, sizeof t, form == 0 ? "%a\n" : form == 1 ? "%.9g\n" : "%a\n\n", x); b += t;
    }
    bool cut = c.chance(30); if (cut) b.pop_back();
    int defect = c.chance(160) ? 0 : c.in(1, 5);
    bool ok = defect == 0;
    std::string path;
    if (defect == 2) b = c.pick<std::string>({"", "FD", "XX\n", "FDX\n", "\n", "fd\n", "FD \n"}) + b.substr(3);
    if (defect == 3) { size_t p = 3; int keep = c.in(0, 2); for (int k = 0; k < keep; k++) { p = b.find('\n', p) + 1; while (p < b.size() && b[p] == '\n') p++; } b.resize(p); }
    if (defect == 4) { size_t p = 3; int at = c.in(0, 2); for (int k = 0; k < at; k++) { p = b.find('\n', p) + 1; while (p < b.size() && b[p] == '\n') p++; } b.insert(p, c.pick<std::string>({"abc", "--", "x1", "end", "FD"})); }
    if (defect == 5) b.clear();
    c.text << "means " << hexf(v[0]) << " " << hexf(v[1]) << " " << hexf(v[2]) << " form " << form << " defect " << defect;
    c.label(ok ? "means" : "broken means"); c.nontrivial = true;
    path = defect == 1 ? c.scratch + "/missing" : write_file(c, "f", b);
    float m[3] = {7, 7, 7};
    int32_t rc = read_means(path.c_str(), m);
    if (ok && rc != 0) c.fail("wrong status", "a well-formed means file was rejected");
    if (!ok && rc == 0) c.fail("accepted", "a broken means file was reported as read");
    if (ok) for (int k = 0; k < 3; k++) if (!same_bits(m[k], v[k])) c.fail("wrong value", "mean " + std::to_string(k) + ": got " + hexf(m[k]) + ", expected " + hexf(v[k]));
}

static void labels(Case &c) {
    uint32_t n = c.chance(10) ? c.in(990, 1300) : c.in(0, 12);
    uint64_t s = c.u16() + 1; int style = c.in(0, 3);
    std::vector<std::string> l;
    std::string b;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = (uint32_t)splitmix(s), len = style == 0 ? 1 + r % 30 : style == 1 ? r % 4 : style == 2 ? (r % 3 ? 250 + r % 12 : 5) : r % 700;
        if (n > 100) len = 1 + r % 12;
        std::string t; for (uint32_t k = 0; k < len; k++) { char ch = (char)(33 + splitmix(s) % 94); if (style == 3 && k % 5 == 4) ch = k % 2 ? ' ' : ','; t += ch; }
        l.push_back(t); b += t + "\n";
    }
    bool nofinal = n && !l.back().empty() && c.chance(80);
    if (nofinal) b.pop_back();
    uint32_t req = c.flip() ? 1000 : c.flip() ? n : c.in(0, n + 3);
    bool missing = c.chance(8);
    c.text << "labels " << n << " lines style " << style << " requested " << req << (nofinal ? " no final newline" : "") << (missing ? " missing" : "");
    c.label(missing ? "missing labels" : req < n ? "fewer labels requested" : n > 1000 ? "more than 1000 labels" : "labels"); if (nofinal) c.label("no final newline");
    c.nontrivial = n >= 2;
    std::string path = missing ? c.scratch + "/missing" : write_file(c, "f", b);
    uint32_t want = missing ? 0 : std::min(n, req);
    char **out = nullptr;
    size_t m0 = live_bytes();
    int32_t got = read_imagenet_labels(path.c_str(), &out, req);
    if (got != (int32_t)want) c.fail("wrong count", std::to_string(got) + " labels returned, expected " + std::to_string(want));
    for (uint32_t i = 0; i < want; i++) { if (l[i] != out[i]) c.fail("wrong label", "label " + std::to_string(i) + " is \"" + out[i] + "\", expected \"" + l[i] + "\""); }
    for (uint32_t i = 0; i < want; i++) free(out[i]);
    if (want) free(out);
    if (want && (long)live_bytes() > (long)m0) c.fail("memory leak", "memory remains after the caller freed the labels");
}

static void validation(Case &c) {
    uint32_t n = c.chance(20) ? c.in(13, 400) : c.in(0, 12), style = c.in(0, 2), zeros = c.chance(60) ? c.in(1, 2) : 0, tail = c.chance(40) ? c.in(1, 2) : 0;
    uint64_t s = c.u16() + 1;
    std::vector<uint32_t> cls; std::string b; char t[64];
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = (uint32_t)splitmix(s), k = style == 0 ? r % 1000 : style == 1 ? r % 10000 : (r % 2 ? 1000 + r % 9000 : r % 10);
        cls.push_back(k);
        snprintf(t, sizeof t, zeros == 1 || (zeros == 2 && r & 64) ? "ILSVRC2012_val_%08u.JPEG %05u%s\n" : "ILSVRC2012_val_%08u.JPEG %u%s\n", i + 1, k, tail == 1 ? " " : tail == 2 ? "\r" : ""); b += t;
    }
    bool nofinal = n && c.chance(80); if (nofinal) b.pop_back();
    uint32_t req = c.flip() ? n : c.flip() ? 50000 : c.in(0, n + 3);
    bool missing = c.chance(8);
    c.text << "validation labels " << n << " style " << style << " requested " << req << (nofinal ? " no final newline" : "") << (zeros ? " leading zeros" : "") << (tail ? " tail" : "") << (missing ? " missing" : "");
    c.label(missing ? "missing validation labels" : zeros ? "validation labels with leading zeros" : "validation labels"); c.nontrivial = n >= 2;
    std::string path = missing ? c.scratch + "/missing" : write_file(c, "f", b);
    uint32_t *out = nullptr; size_t m0 = live_bytes();
    // leave digits behind on the stack, as an earlier call may have
    { volatile char junk[4096]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = '7'; }
    int32_t got = read_imagenet_validation_labels(path.c_str(), &out, req);
    if (missing) { if (got != 0) c.fail("wrong status", "a missing file was reported as read"); return; }
    if (n && req && got == 0) c.fail("wrong status", "a well-formed list was reported as an error");
    for (uint32_t i = 1; i <= std::min(n, req); i++) if (out[i] != cls[i - 1]) c.fail("wrong class", "image " + std::to_string(i) + ": class " + std::to_string(out[i]) + ", expected " + std::to_string(cls[i - 1]));
    free(out);
    if ((long)live_bytes() > (long)m0) c.fail("memory leak", "memory remains after the caller freed the classes");
}

void property(Case &c) {
    int fds = open_fds();
    switch (c.in(0, 2)) { case 0: means(c); break; case 1: labels(c); break; default: validation(c); }
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
}
