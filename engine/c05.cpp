#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C05";
const char *PROP_RULE = "a case draws fully connected or matrix product, sizes up to 90 (rarely beyond 16 bits), bias (1-D or 1xN), one to seven input rows and data style, or (1 in 40) an input or output that is not two-dimensional, which must be refused; non-trivial: several rows or columns with inner size above one; distinct by choice bytes";
const unsigned QUICK_CASES = 300000, THOROUGH_CASES = 1500000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 100000;

void property(Case &c) {
    if (c.chance(6)) {
        c.label("refused rank");
        FcLayer l(c);
        std::vector<uint32_t> in{1, l.K}, out{1, l.N};
        int how = c.in(1, 6);
        if (how == 1) in = {l.K};
        if (how == 2) in = {1, 1, l.K};
        if (how == 3) in = {1, 1, 1, l.K};
        if (how == 4) in = {1, l.K, 1, 1};
        if (how == 5) out = {l.N};
        if (how == 6) out = {1, 1, 1, l.N};
        c.text << l.desc << " input " << shape_str(in) << " output " << shape_str(out);
        c.nontrivial = true;
        Outcome o = in_child(c, [&]() { l.build(); T i(make(in)), u(make(out)); l.run(i.get(), u.get()); return 0; });
        if (o.sanitizer) c.fail("memory error", "running ended with " + o.how);
        if (o.returned) c.fail("not refused", "a fully connected layer ran on tensors that are not two-dimensional");
        return;
    }
    bool fc = c.flip();
    c.label(fc ? "fully connected" : "matmul");
    L l = gen_layer(c, fc ? K_FC : K_MATMUL);
    simple_layer_property(c, *l);
}
