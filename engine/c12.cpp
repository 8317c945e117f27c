#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C12";
const char *PROP_RULE = "a case draws a rank two to four shape, per-side pads (0-9, asymmetric), a border value, data, and whether a new tensor is created or an existing, pre-filled one is used (once or twice); non-trivial: at least one side padded and several elements; distinct by choice bytes";
const unsigned QUICK_CASES = 400000, THOROUGH_CASES = 6000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 200000;

void property(Case &c) {
    uint32_t rank = 2 + c.in(0, 2);
    std::vector<uint32_t> s;
    for (uint32_t i = 0; i < rank; i++) s.push_back(c.chance(40) ? 1 : c.in(1, i + 2 < rank ? 4 : 9));
    if (c.chance(8)) s.back() = c.in(10, 300);
    if (uint32_t l = c.large()) { if (l > 1000) for (auto &x : s) x = 1; s[c.in(0, rank - 1)] = l; }
    std::vector<uint32_t> p(rank == 3 ? 2 : 4);
    bool many = prod(s) > 2000;
    int pm = c.in(0, 4);
    for (auto &x : p) x = pm == 0 ? 0 : c.chance(80) ? 0 : c.in(1, 9);
    if (c.chance(2)) { uint32_t &x = p[c.in(0, p.size() - 1)]; x = c.in(10, 300); if (!many && prod(s) < 100 && c.chance(40)) x = c.in(250, 4200); }
    if (pm == 1 && !many) for (auto &x : p) x = p[0];
    std::vector<uint32_t> d = s;
    if (rank == 3) d[2] += p[0] + p[1];
    else { d[rank - 2] += p[0] + p[2]; d[rank - 1] += p[1] + p[3]; }
    bool dflt = c.chance(80);
    float init = dflt ? 0.0f : c.pick<float>({0.0f, -1.0f, 3.5f, -INFINITY, INFINITY, 1e-30f, -0.0f, -3.4e38f, 255.0f});
    Filler f = filler(c);
    int uses = c.in(0, 3);   // 0: expand, 1: into a fresh tensor, 2: into a dirty one, 3: twice into the same
    c.text << "pad " << shape_str(s) << " by " << shape_str(p) << " with " << (dflt ? std::string("default") : hexf(init)) << (uses == 0 ? " new" : uses == 1 ? " into fresh" : uses == 2 ? " into pre-filled" : " twice into the same tensor") << " data:" << fill_name(f.kind);
    c.label(uses == 0 ? "new tensor" : uses == 1 ? "fresh destination" : uses == 2 ? "pre-filled destination" : "reused destination");
    c.label("rank " + std::to_string(rank));
    bool any = false; for (auto x : p) any |= x != 0;
    c.nontrivial = any && prod(s) > 1;
    T dst(uses == 0 ? nullptr : make(d));
    if (uses == 2) dirty(c, *dst);
    for (int r = 0; r < (uses == 3 ? 2 : 1); r++) {
        std::vector<float> v(prod(s)); for (auto &x : v) x = f.next();
        T src(make(s, v));
        float b = r == 0 && uses == 3 ? 77.0f : init;
        std::vector<uint32_t> pc = p;
        Tensor *ret;
        if (uses == 0) { ret = dflt ? src->expand_with_padding(pc.data()) : src->expand_with_padding(pc.data(), b); dst.reset(ret); }
        else {
            ret = dflt && b == 0 ? src->copy_with_padding_into(dst.get(), pc.data()) : src->copy_with_padding_into(dst.get(), pc.data(), b);
            if (ret != dst.get()) c.fail("wrong result", "the destination is not returned");
        }
        if (pc != p) c.fail("argument modified", "padding array changed");
        exact_bits(c, *src, v, "source modified");
        if (dst->num_dimensions() != rank) c.fail("wrong shape", "rank");
        for (uint32_t i = 0; i < rank; i++) if (dim_at(*dst, i, d[i], 0) != d[i]) c.fail("wrong shape", "dimension " + std::to_string(i) + " is not " + std::to_string(d[i]));
        uint32_t H = rank == 3 ? 1 : s[rank - 2], W = s[rank - 1], dH = rank == 3 ? 1 : d[rank - 2], dW = d[rank - 1], maps = prod(s) / (H * W);
        uint32_t top = rank == 3 ? 0 : p[0], left = rank == 3 ? p[0] : p[1];
        std::vector<float> want(prod(d), b);
        for (uint32_t m = 0; m < maps; m++) for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++)
            want[(m * dH + y + top) * dW + x + left] = v[(m * H + y) * W + x];
        for (uint32_t i = 0; i < want.size(); i++)
            if (!(b == 0 && want[i] == 0 ? dst->access_blob(i) == 0 : same_bits(dst->access_blob(i), want[i])))
                c.fail("wrong value", "element " + std::to_string(i) + ": got " + hexf(dst->access_blob(i)) + ", expected " + hexf(want[i]));
    }
}
