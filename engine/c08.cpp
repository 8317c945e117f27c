#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C08";
const char *PROP_RULE = "a case draws a shape of rank 1-4, logits from every data style, optionally shifted by a constant up to 1e30, scaled by 1000, all equal, or at the ends of the float range; non-trivial: several elements; distinct by choice bytes. Checked: exact values, range, sum, order, and invariance under an exactly representable shift";
const unsigned QUICK_CASES = 400000, THOROUGH_CASES = 1500000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 100000;

void property(Case &c) {
    SoftmaxLayer l(c);
    c.text << l.desc;
    c.label("style " + std::to_string(l.style));
    l.build();
    auto sh = l.gen_shape(c);
    auto v = gen_input(c, l, sh);
    T in(make(sh, v)), out(make(sh));
    c.nontrivial = v.size() > 1;
    dirty(c, *out);
    l.run(in.get(), out.get());
    double sum = 0;
    for (uint32_t i = 0; i < v.size(); i++) {
        double p = out->access_blob(i);
        if (!std::isfinite(p)) c.fail("not finite", "element " + std::to_string(i) + " is " + hexf(p));
        if (p < 0 || p > 1) c.fail("outside [0,1]", "element " + std::to_string(i) + " is " + hexf(p));
        sum += p;
    }
    if (std::fabs(sum - 1) > 1e-6 * (v.size() + 10)) c.fail("sum", "the probabilities sum to " + hexf(sum));
    check_values(c, *out, l.expect(sh, v));
    for (uint32_t i = 0; i + 1 < v.size() && i < 200; i++)
        if (v[i] > v[i + 1] && out->access_blob(i) < out->access_blob(i + 1) - 1e-7) c.fail("order", "larger logit, smaller probability at " + std::to_string(i));
    l.destroy();
}
