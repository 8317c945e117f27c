#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C01";
const char *PROP_RULE = "a case draws rank, channels, groups, odd kernel, stride, per-side padding (or none), input size, bias presence, data style and dirty output; non-trivial: at least two of {several input channels per group, several groups, stride>1, padding, asymmetric padding, non-square kernel or input, bias, kernel>1} hold and the output has several elements; distinct by choice bytes";
const unsigned QUICK_CASES = 240000, THOROUGH_CASES = 1500000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 150000;

void property(Case &c) {
    bool d1 = c.chance(90);
    ConvLayer l(c, d1);
    ConvSpec &s = l.s;
    c.label(d1 ? "1d" : "2d");
    if (s.groups > 1) c.label(s.groups == s.cin ? "depthwise" : "grouped");
    if (s.pt != s.pb || s.pl != s.pr) c.label("asymmetric padding");
    if (s.nopad) c.label("null padding");
    if (s.sh != s.sw) c.label("stride differs");
    if (s.kh != s.kw) c.label("kernel non-square");
    c.label(s.bias ? "bias" : "no bias");
    simple_layer_property(c, l);
}
