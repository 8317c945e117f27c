#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C07";
const char *PROP_RULE = "a case draws one of seven activations, its parameters, a shape of rank 1-4, data style, and whether the output is the input itself; non-trivial: several elements of both signs; distinct by choice bytes";
const unsigned QUICK_CASES = 480000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 150000;

void property(Case &c) {
    int k = c.in(0, A_COUNT - 1);
    ActLayer l(c, k);
    c.text << l.desc;
    l.build();
    auto sh = l.gen_shape(c);
    auto v = gen_input(c, l, sh);
    if (k == A_RELU || k == A_CLIP || k == A_ID) if (c.chance(40)) for (auto &x : v) if (c.chance(40)) x = c.flip() ? INFINITY : -INFINITY;
    T in(make(sh, v)), out(make(sh));
    bool neg = false, pos = false; for (float x : v) { neg |= x < 0; pos |= x > 0; }
    c.nontrivial = v.size() > 1 && neg && pos;
    c.label(l.desc.substr(0, l.desc.find(' ')));
    dirty(c, *out);
    l.run(in.get(), out.get());
    Expect e = l.expect(sh, v);
    for (uint32_t i = 0; i < v.size(); i++) {
        double g = out->access_blob(i);
        if (!(g == e.ref[i] || std::fabs(g - e.ref[i]) <= e.tol[i]))
            c.fail("wrong value", "element " + std::to_string(i) + " of " + std::to_string(v.size()) + ", input " + hexf(v[i]) + ": got " + hexf(g) + ", expected " + hexf(e.ref[i]));
    }
    // the output may be the input itself
    if (k != A_ID) {
        l.run(in.get(), in.get());
        for (uint32_t i = 0; i < v.size(); i++)
            if (!same_value(in->access_blob(i), out->access_blob(i)))
                c.fail("in-place differs", "element " + std::to_string(i) + ": in place " + hexf(in->access_blob(i)) + ", separate " + hexf(out->access_blob(i)));
    }
    l.destroy();
}
