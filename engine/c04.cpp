#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C04";
const char *PROP_RULE = "a case draws max or average, rank, batch, channels, size, data style and previous output contents; non-trivial: several channels or batches; distinct by choice bytes";
const unsigned QUICK_CASES = 360000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 100000;

void property(Case &c) {
    int k = c.in(0, 3);
    static const int kinds[] = {K_GMAX2, K_GMAX1, K_GAVG2, K_GAVG1};
    L l = gen_layer(c, kinds[k]);
    c.label(l->desc);
    simple_layer_property(c, *l);
}
