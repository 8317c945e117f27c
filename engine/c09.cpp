#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C09";
const char *PROP_RULE = "a case draws alpha, beta, window size 1-12, optional bias, batch, channels 1-14 and data style; non-trivial: window larger than one and several channels; distinct by choice bytes";
const unsigned QUICK_CASES = 1000000, THOROUGH_CASES = 1500000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 100000;

void property(Case &c) {
    LrnLayer l(c);
    c.label(l.n % 2 ? "odd window" : "even window");
    c.label(l.with_bias ? "explicit bias" : "default bias");
    simple_layer_property(c, l);
    c.nontrivial = c.nontrivial && l.n > 1;
}
