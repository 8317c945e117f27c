#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C03";
const char *PROP_RULE = "a case draws rank, kernel, stride, padding below the kernel size (or none), batch, channels, size, data style and previous output contents; non-trivial: at least two of {kernel>1, stride>1, padding, asymmetric padding, non-square, stride beyond kernel, padding not counted} hold and the output has several elements; distinct by choice bytes";
const unsigned QUICK_CASES = 480000, THOROUGH_CASES = 2000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 150000;

void property(Case &c) {
    bool d1 = c.chance(90);
    AvgPoolLayer l(c, d1);
    c.label(d1 ? "1d" : "2d");
    if (l.p.pt != l.p.pb || l.p.pl != l.p.pr) c.label("asymmetric padding");
    if (l.p.nopad) c.label("null padding"); else if (l.p.pl || l.p.pr || l.p.pt || l.p.pb) c.label("padded");
    if (l.p.sh > l.p.kh || l.p.sw > l.p.kw) c.label("stride beyond kernel");
    if (l.p.kh != l.p.kw) c.label("kernel non-square");
    c.label(l.inc ? "padding counted" : "padding not counted");
    simple_layer_property(c, l);
}
