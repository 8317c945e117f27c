#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C13";
const char *PROP_RULE = "a case draws rank two to four, one to six inputs with one to six channels each, batches one to four, spatial sizes, repeated inputs and a pre-filled destination (1 in 40: another dimension, which must be refused); non-trivial: at least two inputs with several elements each; distinct by choice bytes";
const unsigned QUICK_CASES = 300000, THOROUGH_CASES = 5000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 200000;

void property(Case &c) {
    bool refused = c.chance(6);
    uint32_t rank = 2 + c.in(0, 2), n = c.in(1, 6), b = c.chance(110) ? c.in(2, 4) : 1;
    std::vector<uint32_t> rest;
    for (uint32_t i = 2; i < rank; i++) rest.push_back(c.in(1, 6));
    uint32_t huge = 0;
    if ((huge = c.large())) {
        if (huge > 1000) { b = 1; n = std::min(n, 3u); for (auto &x : rest) x = 1; }
        int what = c.in(0, 2);
        if (what == 0 && !rest.empty()) { rest[c.in(0, rest.size() - 1)] = huge; huge = 0; }
        else if (what == 1) { b = huge; huge = 0; }
    }
    uint32_t most = c.chance(30) ? 20 : 6;
    if (c.chance(1)) { n = c.in(7, 700); b = std::min(b, 2u); for (auto &x : rest) x = std::min(x, 2u); huge = 0; most = 4; c.label("many inputs"); }
    uint32_t per = prod(rest), total = 0;
    std::vector<T> in; std::vector<std::vector<float>> v; std::vector<uint32_t> ch; std::vector<Tensor *> ptr;
    std::vector<size_t> which;
    Filler f = filler(c);
    c.text << "concat rank " << rank << " batches " << b << " rest " << shape_str(rest) << " channels";
    for (uint32_t i = 0; i < n; i++) {
        if (i && c.chance(40)) which.push_back(c.in(0, which.size() - 1) % in.size());
        else {
            uint32_t k = c.in(1, most);
            if (huge) { k = huge; huge = 0; }
            std::vector<uint32_t> s{b, k}; s.insert(s.end(), rest.begin(), rest.end());
            v.emplace_back(prod(s)); for (auto &x : v.back()) x = f.next();
            in.emplace_back(make(s, v.back())); ch.push_back(k); which.push_back(in.size() - 1);
        }
        ptr.push_back(in[which.back()].get()); total += ch[which.back()];
        c.text << " " << ch[which.back()] << "#" << which.back();
    }
    std::vector<uint32_t> d{b, total}; d.insert(d.end(), rest.begin(), rest.end());
    T dst(make(d)); dirty(c, *dst);
    auto save = ptr;
    if (refused) {
        uint32_t dim = c.pick<uint32_t>({0, 2, 3, 4, 0xffffffffu});
        c.text << " dimension " << dim; c.label("refused dimension"); c.nontrivial = true;
        Outcome o = in_child(c, [&]() { dst->concatenate_from(n, ptr.data(), dim); return 0; });
        if (o.sanitizer) c.fail("memory error", o.how);
        if (o.returned) c.fail("not refused", "concatenation along dimension " + std::to_string(dim) + " was accepted");
        return;
    }
    dst->concatenate_from(n, ptr.data(), 1);
    c.label("rank " + std::to_string(rank) + (b > 1 ? " batches" : " one batch"));
    c.nontrivial = n >= 2 && per * b > 1;
    if (ptr != save) c.fail("argument modified", "input list");
    for (size_t i = 0; i < in.size(); i++) exact_bits(c, *in[i], v[i], "input modified");
    std::vector<float> want;
    for (uint32_t q = 0; q < b; q++) for (size_t w : which) want.insert(want.end(), v[w].begin() + q * ch[w] * per, v[w].begin() + (q + 1) * ch[w] * per);
    exact_bits(c, *dst, want, "wrong value");
}
