#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C06";
const char *PROP_RULE = "a case draws rank, channels, parameters, epsilon, input size and data style; non-trivial: several channels and several elements; distinct by choice bytes";
const unsigned QUICK_CASES = 480000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 100000;

void property(Case &c) {
    bool d1 = c.chance(100);
    BnLayer l(c, d1);
    c.label(d1 ? "1d" : "2d");
    if (l.eps == 0) c.label("epsilon zero");
    simple_layer_property(c, l);
}
