#include "pbt.h"
#include "wfile.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace pbt;
const char *PROP_ID = "C15";
const char *PROP_RULE = "a case is a weights file with a drawn defect (missing, directory, truncation at any byte, changed magic/type/end marker, changed size field, byte corruption, spliced, repeated or removed pieces, arbitrary bytes), judged by an independent strict reader; non-trivial: the strict reader rejects it and it gets past the magic number; distinct by choice bytes";
const unsigned QUICK_CASES = 120000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 10000, THOROUGH_FUZZ = 1000000;

void property(Case &c) {
    int how = c.in(0, 11);
    std::string bytes, what, path; WNet net;
    if (how == 11) {  // arbitrary content
        net.kshape = {{2, 3}, {2, 1, 3}, {1, 2, 2, 2}}; net.bsize = {2, 3, 1};
        uint32_t n = c.in(0, 600);
        static const char *tok[] = {"FD\n", "end\n", "Conv\n", "Gemm\n", "MatMul\n", "Transpose\n", "Add\n", "BatchNormalization\n", "\n", "x\n"};
        if (c.flip()) bytes = "FD\nm\n";
        while (bytes.size() < n) {
            uint32_t k = c.in(0, 15);
            if (k < 10) bytes += tok[k];
            else if (k < 13) put32(bytes, c.in(0, 3));
            else if (k == 13) put32(bytes, c.u32());
            else bytes += (char)c.byte();
            if (k == 0 && c.chance(20)) break;
        }
        what = "arbitrary bytes";
    } else {
        WGen g(c); g.build(4);
        WFile &f = g.f; net = g.net; bytes = f.bytes;
        c.text << f.desc << "; ";
        auto some = [&](const std::vector<size_t> &v) { return v[c.in(0, v.size() - 1)]; };
        switch (how) {
        case 0: what = "missing"; break;
        case 1: { uint32_t n = c.in(0, bytes.size() - 1); if (c.flip()) n = bytes.size() - 1 - c.in(0, std::min<size_t>(12, bytes.size() - 1)); bytes.resize(n); what = "truncated to " + std::to_string(n); break; }
        case 2: { int p = c.in(0, 2); bytes[p] = (char)c.byte(); what = "magic byte " + std::to_string(p); break; }
        case 3: case 4: {  // size field
            size_t p = f.size_fields.empty() || c.chance(30) ? f.count_at : some(f.size_fields);
            uint32_t v; memcpy(&v, &bytes[p], 4); uint32_t o = v;
            switch (c.in(0, 6)) {
            case 0: v += 1; break; case 1: v -= 1; break; case 2: v *= 2; break; case 3: v = 0; break;
            case 4: v = c.pick<uint32_t>({0xffffffffu, 0x80000000u, 0x40000000u, 0x10000u, 0x7fffffffu, 0x40000001u, 65536u}); break;
            case 5: v += c.in(1, 300); break; default: v = c.u32();
            }
            memcpy(&bytes[p], &v, 4); what = "count at " + std::to_string(p) + " " + std::to_string(o) + "->" + std::to_string(v); break;
        }
        case 5: {  // layer type line
            if (f.type_at.empty()) { bytes[f.end_at] = 'E'; what = "end marker"; break; }
            size_t p = some(f.type_at), e = bytes.find('\n', p);
            static const char *t[] = {"", "conv", "Convo", "Con", "Conv ", "Relu", "Gemm", "Add", "MatMul", "Transpose", "BatchNormalization", "Conv", "Mul", "Reshape"};
            std::string n = t[c.in(0, 13)]; if (c.chance(20)) n = std::string(c.in(90, 600), 'T');
            bytes.replace(p, e - p, n); what = "type -> " + n.substr(0, 30); break;
        }
        case 6: { int p = c.in(0, 3); bytes[f.end_at + p] = (char)c.byte(); what = "end marker byte " + std::to_string(p); break; }
        case 7: { uint32_t n = c.in(1, 4); for (uint32_t i = 0; i < n; i++) { size_t p = c.in(0, bytes.size() - 1); bytes[p] = c.flip() ? bytes[p] ^ (1 << c.in(0, 7)) : (char)c.byte(); what += " byte " + std::to_string(p); } break; }
        case 8: { size_t p = c.in(0, bytes.size() - 1), n = c.in(1, std::min<size_t>(40, bytes.size() - p)); bytes.erase(p, n); what = "removed " + std::to_string(n) + " at " + std::to_string(p); break; }
        case 9: { size_t p = c.in(0, bytes.size() - 1), n = c.in(1, std::min<size_t>(60, bytes.size() - p)); bytes.insert(p, bytes.substr(p, n)); what = "repeated " + std::to_string(n) + " at " + std::to_string(p); break; }
        default: {  // the network has other shapes than the file
            if (!net.kshape.empty() && c.flip()) { auto &s = net.kshape[c.in(0, net.kshape.size() - 1)]; s[c.in(0, s.size() - 1)] += c.in(1, 2); what = "network kernel larger than the file's"; }
            else if (!net.bsize.empty()) { net.bsize[c.in(0, net.bsize.size() - 1)] += 1; what = "network bias larger than the file's"; }
            else if (!net.kshape.empty()) { auto &s = net.kshape[0]; if (s[0] > 1) s[0]--; else s[0]++; what = "network kernel of another size"; }
        }
        }
        if (bytes.size() > 60000) bytes.resize(60000);
    }
    c.text << what;
    int verdict = 0;
    WOracle o(bytes, net);
    WTensors t(net, how == 11 || bytes.size() < 8000 ? 700 : 5000);
    o.k = t.k0; o.v = t.b0;
    if (how == 0) { path = c.scratch + (c.flip() ? "/no-such-file" : "/no-dir/x"); if (c.chance(60)) { path = c.scratch + "/dir"; mkdir(path.c_str(), 0755); } }
    else { verdict = o.run(); path = write_file(c, "w", bytes); }
    c.label(verdict == 0 ? (how == 0 ? "missing" : "must be rejected") : verdict < 0 ? "undecided: memory safety only" : "still well-formed");
    c.nontrivial = verdict == 0 && (how == 0 || bytes.compare(0, 3, "FD\n") == 0);
    int fds = open_fds();
    size_t m0 = live_bytes();
    int32_t rc = t.read(path);
    long leak = (long)live_bytes() - (long)m0;
    if (leak > 0) { m0 = live_bytes(); t.read(path); leak = (long)live_bytes() - (long)m0; if (leak > 0) c.fail("memory leak", std::to_string(leak) + " bytes not released"); }
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
    if (verdict == 0 && rc == 0) c.fail("accepted", "a broken file was reported as read: " + what);
    if (verdict > 0) {
        if (rc != 0) c.fail("wrong status", "a well-formed file was reported as broken");
        for (size_t i = 0; i < t.nk; i++) exact_bits(c, *t.k[i], o.k[i], "wrong kernel value");
        for (size_t i = 0; i < t.nb; i++) exact_bits(c, *t.b[i], o.v[i], "wrong bias value");
    }
}
