// Property-based testing engine: a test case is a byte string of choices.
// Random mode draws fresh bytes (and records them), replay/libFuzzer mode
// reads given bytes (zero once exhausted), so that one decoder serves random
// generation, coverage-guided fuzzing, shrinking and replay.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <limits>
#include <algorithm>
#include <iostream>
#include <sanitizer/allocator_interface.h>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}

struct Fail { std::string label, detail; };

static const size_t MAX_CHOICES = 1u << 17;

// fixed, shared text buffer, so that the description survives a crash
struct TextBuf : std::streambuf {
    char *b = nullptr; size_t cap = 0, n = 0;
    int overflow(int ch) override { if (ch != EOF && n + 1 < cap) { b[n++] = (char)ch; b[n] = 0; } return ch; }
};

struct Case {
    TextBuf tb;
    // choice stream
    uint8_t *buf = nullptr;   // MAX_CHOICES bytes (recorded or given)
    uint32_t *len = nullptr;  // number of bytes recorded / given
    size_t pos = 0;
    bool random = false;
    uint64_t rng = 0, word = 0;
    int left = 0;
    // report
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::ostream text{&tb};   // description of the case
    std::string scratch;      // private scratch directory of this process

    Case(char *textbuf, size_t cap) { tb.b = textbuf; tb.cap = cap; textbuf[0] = 0; labels.reserve(512); }

    // the same choices once more
    void rewind() {
        random = false; pos = 0; left = 0; nontrivial = false; labels.clear();
        text.clear(); tb.n = 0; if (tb.b) tb.b[0] = 0;
    }
    uint8_t byte() {
        if (random) {
            if (left == 0) { word = splitmix(rng); left = 8; }
            uint8_t b = (uint8_t)word; word >>= 8; left--;
            if (pos < MAX_CHOICES) { buf[pos] = b; pos++; *len = (uint32_t)pos; return b; }
            return 0;
        }
        if (pos < *len) return buf[pos++];
        pos++;
        return 0;
    }
    uint32_t u16() { uint32_t a = byte(); return (a << 8) | byte(); }
    uint32_t u32() { uint32_t a = u16(); return (a << 16) | u16(); }
    // inclusive range; smaller bytes give smaller values
    uint32_t in(uint32_t lo, uint32_t hi) {
        if (hi <= lo) return lo;
        uint32_t span = hi - lo;
        if (span < 256) return lo + (uint32_t)((byte() * (uint64_t)(span + 1)) >> 8);
        if (span < 65536) return lo + (uint32_t)((u16() * (uint64_t)(span + 1)) >> 16);
        if (span == 0xffffffffu) return u32();
        return lo + (uint32_t)((u32() * (uint64_t)(span + 1)) >> 32);
    }
    // true with probability n/256; zero bytes give false
    bool chance(unsigned n) { return byte() >= 256 - n; }
    bool flip() { return chance(128); }
    // rarely (about 1 in 150) a dimension beyond the usual sizes, very rarely beyond 16 bits; otherwise 0
    uint32_t large_size() {
        uint32_t v = byte();
        if (v >= 240) { labels.push_back(">16-bit size"); return in(65530, 66300); }
        if (v >= 200) return in(1000, 4200);
        if (v >= 100) return in(250, 1100);
        return in(60, 260);
    }
    uint32_t large() {
        uint32_t v = u16();
        if (v < 65536 - 460) return 0;
        labels.push_back("large dimension");
        if (v >= 65536 - 50) { labels.push_back(">16-bit size"); return in(65530, 66300); }
        if (v >= 65536 - 110) return in(1000, 4200);
        if (v >= 65536 - 250) return in(250, 1100);
        return in(60, 260);
    }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + in(0, (uint32_t)l.size() - 1)); }
    void label(const std::string &s) { labels.push_back(s); }
    [[noreturn]] void fail(const std::string &label, const std::string &detail) { throw Fail{label, detail}; }
};

// ---- values -------------------------------------------------------------
inline float bits(uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }
inline uint32_t tobits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
inline bool same_bits(float a, float b) { return tobits(a) == tobits(b); }
// equal as numbers (−0 == +0) or both NaN
inline bool same_value(float a, float b) { return a == b || (a != a && b != b); }
inline std::string hexf(double f) { char b[64]; snprintf(b, sizeof b, "%.9g", f); return b; }

// Fill styles: what a user's data can look like.
enum Fill { F_ZERO, F_SMALLINT, F_IOTA, F_NEG, F_NORMAL, F_TIES, F_WIDE, F_BYTES, F_COUNT };
inline const char *fill_name(int k) {
    static const char *n[] = {"zero", "smallint", "distinct-int", "all-negative", "real", "ties", "wide-range", "bytes"};
    return n[k];
}
struct Filler {
    int kind; uint64_t s; uint32_t i = 0; Case *c;
    float next() {
        i++;
        auto unit = [&]() { return (double)(splitmix(s) >> 11) / 9007199254740992.0; };
        switch (kind) {
        case F_ZERO: return 0.0f;
        case F_SMALLINT: return (float)((int)(splitmix(s) % 17) - 8);
        case F_IOTA: return (float)((i * 7 + s % 5) % 4093) - (float)(s % 1024);
        case F_NEG: return (float)-(0.25 + unit() * 900.0);
        case F_NORMAL: { double a = 0; for (int k = 0; k < 6; k++) a += unit(); return (float)((a - 3.0) * 1.4); }
        case F_TIES: { static const float v[] = {-1.0f, 1.0f, 0.5f, -0.0f, 0.0f, 2.0f}; return v[splitmix(s) % 6]; }
        case F_WIDE: { double m = (unit() * 2 - 1), e = unit() * 16 - 8; return (float)(m * std::pow(10.0, e)); }
        default: return (float)((int)c->byte() - 128) * 0.25f;
        }
    }
};
// mask: bit set of allowed kinds
inline Filler filler(Case &c, uint32_t mask = (1u << F_COUNT) - 1) {
    std::vector<int> kinds;
    for (int k = 0; k < F_COUNT; k++) if (mask & (1u << k)) kinds.push_back(k);
    int k = kinds[c.in(0, (uint32_t)kinds.size() - 1)];
    Filler f{k, 0, 0, &c};
    if (k != F_ZERO && k != F_BYTES) f.s = c.u16() * 0x9e3779b97f4a7c15ULL + 1;
    return f;
}

// ---- resources ------------------------------------------------------------
inline size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
int open_fds();

// runs f in a forked child; returns how it ended
struct Outcome {
    bool returned = false;    // f came back
    bool sanitizer = false;   // a sanitizer reported
    int value = 0;            // f's return value (low 8 bits) if returned
    std::string how;
};
Outcome in_child(Case &c, const std::function<int()> &f);

std::string write_file(Case &c, const std::string &name, const void *data, size_t n);
inline std::string write_file(Case &c, const std::string &name, const std::string &s) { return write_file(c, name, s.data(), s.size()); }
bool read_file(const std::string &path, std::string &out);

}  // namespace pbt

// Supplied by each property:
extern const char *PROP_ID;
extern const char *PROP_RULE;
extern const unsigned QUICK_CASES, THOROUGH_CASES;
extern const unsigned QUICK_FUZZ, THOROUGH_FUZZ;  // libFuzzer runs per job (0: none)
void property(pbt::Case &c);
// Runs the property. What stays allocated or open after the first use only (tables, caches) is no leak: it has to repeat.
inline void settled_property(pbt::Case &c) {
    for (int again = 0; ; again++) {
        try { property(c); return; }
        catch (const pbt::Fail &f) {
            if (again >= 2 || f.label.find(" leak") == std::string::npos) throw;
        }
        c.rewind();
    }
}
