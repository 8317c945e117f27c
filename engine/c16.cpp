#include "pbt.h"
#include "lib.h"
#include <sys/stat.h>
using namespace pbt;
const char *PROP_ID = "C16";
const char *PROP_RULE = "a case is a reference input or output file (well-formed with drawn shape and float bits, or with a drawn defect: missing, truncated at any byte, header or end-marker corruption, mismatching dimensions, unsupported tensor rank, arbitrary bytes) read into a pre-filled tensor and judged by an independent strict reader; non-trivial: more than one element, and well-formed or broken behind the magic number; distinct by choice bytes";
const unsigned QUICK_CASES = 200000, THOROUGH_CASES = 3000000;
const unsigned QUICK_FUZZ = 10000, THOROUGH_FUZZ = 1000000;

static void put32(std::string &s, uint32_t v) { s.append((const char *)&v, 4); }

void property(Case &c) {
    bool input = c.flip();
    // the tensor
    std::vector<uint32_t> sh;
    uint32_t rank = input ? 2 + c.in(0, 2) : 2;
    bool odd_rank = c.chance(8);
    if (odd_rank) rank = input ? 1 : c.pick<uint32_t>({1, 3, 4});
    for (uint32_t i = 0; i < rank; i++) sh.push_back(c.chance(40) ? 1 : c.in(1, c.chance(20) ? 40 : 7));
    if (rank >= 3) sh[0] = 1;
    if (uint32_t k = c.large()) { uint32_t i = c.in(rank >= 3 ? 1 : 0, rank - 1); if (k > 1000) for (auto &x : sh) x = std::min(x, 2u); sh[i] = k; }
    uint32_t ch = rank >= 3 ? sh[1] : 1, h = rank == 4 ? sh[2] : rank == 2 ? sh[0] : 1, w = sh.back(), n = prod(sh);
    // the file
    int style = c.in(0, 2); uint64_t s = c.u16() * 0x9e3779b97f4a7c15ULL + 3;
    std::vector<float> v(n);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t u = (uint32_t)splitmix(s);
        static const uint32_t sp[] = {0x0a0a0a0a, 0x00000a00, 0x80000000, 0x7f800000, 0xffc00001, 0x7fa00001, 1, 0x0d0a1a00, 0x0a646e65};
        v[i] = style == 0 ? (float)i - 3.5f : style == 1 && u % 3 == 0 ? bits(sp[(u >> 8) % 9]) : bits(u);
    }
    std::string b = input ? "FCI\n" : "FCO\n";
    size_t dims_at = 4;
    put32(b, 1);
    if (input) { put32(b, ch); put32(b, h); put32(b, w); } else put32(b, n);
    size_t data_at = b.size();
    b.append((const char *)v.data(), 4 * n);
    size_t end_at = b.size();
    b += "end\n";
    // defect
    int how = c.flip() ? 0 : c.in(1, 9);
    std::string what = "well-formed", path;
    switch (how) {
    case 1: what = "missing"; break;
    case 2: { uint32_t k = c.flip() ? c.in(0, b.size() - 1) : b.size() - 1 - c.in(0, std::min<size_t>(12, b.size() - 1)); b.resize(k); what = "truncated to " + std::to_string(k); break; }
    case 3: { int p = c.in(0, 3); b[p] = (char)c.byte(); what = "magic"; break; }
    case 4: { size_t p = dims_at + 4 * c.in(0, (data_at - dims_at) / 4 - 1); uint32_t x; memcpy(&x, &b[p], 4); uint32_t o = x;
        switch (c.in(0, 5)) { case 0: x++; break; case 1: x--; break; case 2: x = 0; break; case 3: x *= 2; break; case 4: x = c.pick<uint32_t>({0xffffffffu, 0x80000000u, 0x40000001u, 65536u}); break; default: x = c.u32(); }
        memcpy(&b[p], &x, 4); what = "dimension " + std::to_string(o) + "->" + std::to_string(x); break; }
    case 5: { int p = c.in(0, 3); b[end_at + p] = (char)c.byte(); what = "end marker"; break; }
    case 6: { uint32_t i = c.in(0, rank - 1); if (!(rank >= 3 && i == 0)) { sh[i] += c.in(1, 3); what = "tensor larger than the file"; } break; }
    case 7: { size_t p = c.in(0, b.size() - 1); b[p] ^= 1 << c.in(0, 7); what = "bit flip at " + std::to_string(p); break; }
    case 8: { if (rank >= 2 && sh[rank - 1] != sh[rank - 2]) { if (rank != 3) std::swap(sh[rank - 1], sh[rank - 2]); what = "transposed tensor"; } break; }
    case 9: { b = input ? "FCI\n" : "FCO\n"; if (c.flip()) put32(b, 1); uint32_t k = c.in(0, 60); for (uint32_t i = 0; i < k; i++) b += (char)c.byte(); what = "arbitrary bytes"; break; }
    default: break;
    }
    // oracle
    uint32_t ech = rank >= 3 ? sh[1] : 1, eh = rank == 4 ? sh[2] : rank == 2 ? sh[0] : 1, ew = sh.back(), en = prod(sh);
    std::string want = input ? "FCI\n" : "FCO\n";
    put32(want, 1);
    if (input) { put32(want, ech); put32(want, eh); put32(want, ew); } else put32(want, en);
    size_t hd = want.size();
    bool ok = how != 1 && !odd_rank && b.size() >= hd + 4 * (size_t)en + 4 && b.compare(0, hd, want) == 0 && b.compare(hd + 4 * (size_t)en, 4, "end\n") == 0;
    c.text << (input ? "input " : "output ") << "tensor " << shape_str(sh) << " file " << what;
    c.label(std::string(input ? "input " : "output ") + (odd_rank ? "unsupported rank" : ok ? "well-formed" : how == 1 ? "missing" : "broken"));
    c.nontrivial = n > 1 && (ok || b.compare(0, 4, want, 0, 4) == 0);

    T t(make(sh)); for (uint32_t i = 0; i < en; i++) t->access_blob(i) = 4321.0f;
    if (how == 1) { path = c.scratch + "/missing"; if (c.chance(60)) { path = c.scratch + "/dir"; mkdir(path.c_str(), 0755); } if (c.chance(60)) path = ""; }
    else path = write_file(c, "r", b);
    int fds = open_fds();
    Tensor *tp = t.get();
    auto read = [&]() { return input ? read_binary_reference_input_data(path.c_str(), &tp) : read_binary_reference_output_data(path.c_str(), &tp); };
    size_t m0 = live_bytes();
    int32_t rc = read();
    long leak = (long)live_bytes() - (long)m0;
    if (leak > 0) { m0 = live_bytes(); read(); leak = (long)live_bytes() - (long)m0; if (leak > 0) c.fail("memory leak", std::to_string(leak) + " bytes not released"); }
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
    if (tp != t.get()) c.fail("argument modified", "tensor pointer");
    if (ok && rc != 0) c.fail("wrong status", "a well-formed matching file was rejected");
    if (!ok && rc == 0) c.fail("accepted", "a broken or mismatching file was reported as read: " + what);
    if (ok) {
        std::vector<float> x(en); memcpy(x.data(), b.data() + hd, 4 * en);
        exact_bits(c, *t, x, "wrong value");
    }
}
