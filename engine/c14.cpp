#include "pbt.h"
#include "wfile.h"
using namespace pbt;
const char *PROP_ID = "C14";
const char *PROP_RULE = "a case is a well-formed weights file of zero to eight layers of all types with drawn shapes, names (empty, long, arbitrary bytes), absent biases, already stored arrays and bit patterns, read once or twice into pre-filled tensors plus uncovered extra ones; non-trivial: at least two layers and two arrays; distinct by choice bytes";
const unsigned QUICK_CASES = 120000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 4000, THOROUGH_FUZZ = 300000;

void property(Case &c) {
    WGen g(c); g.build(8);
    uint32_t ek = c.in(0, 2), eb = c.in(0, 2);   // tensors the file does not cover
    for (uint32_t i = 0; i < ek; i++) g.net.kshape.push_back({3, 2});
    for (uint32_t i = 0; i < eb; i++) g.net.bsize.push_back(4);
    c.text << g.f.desc << " uncovered:" << ek << "," << eb;
    c.nontrivial = g.f.name_at.size() >= 2 && g.f.arrays >= 2;
    if (g.f.shared) c.label("already stored arrays");
    for (int k = 0; k < 7; k++) if (g.f.kinds & (1u << k)) { static const char *n[] = {"conv 2d", "gemm", "matmul", "conv 1d", "batch normalization", "add", "transpose"}; c.label(n[k]); }
    { WNet n = g.net; WOracle o(g.f.bytes, n); o.k.resize(n.kshape.size()); o.v.resize(n.bsize.size()); if (o.run() == 0) c.fail("harness", "generator and oracle disagree"); }
    std::string path = write_file(c, "w", g.f.bytes);
    WTensors t(g.net, 0);
    int times = c.chance(60) ? 2 : 1, fds = open_fds();
    for (int r = 0; r < times; r++) {
        int32_t rc = t.read(path);
        if (rc != 0) c.fail("wrong status", "a well-formed file was reported as broken (" + std::to_string(rc) + ")");
        for (size_t i = 0; i < t.nk; i++) exact_bits(c, *t.k[i], i < g.f.kernels.size() ? g.f.kernels[i] : t.k0[i], i < g.f.kernels.size() ? "wrong kernel value" : "uncovered kernel changed");
        for (size_t i = 0; i < t.nb; i++) exact_bits(c, *t.b[i], i < g.f.biases.size() ? g.f.biases[i] : t.b0[i], i < g.f.biases.size() ? "wrong bias value" : "uncovered bias changed");
    }
    if (open_fds() != fds) c.fail("descriptor leak", "file left open");
}
