#include "pbt.h"
#include "layers.h"
#include <map>
using namespace pbt;
const char *PROP_ID = "C10";
const char *PROP_RULE = "a case is a history of 3-16 construct/run/reuse/update-weights/destroy steps over up to four live layers of all kinds with a pool of reused, pre-filled output tensors; non-trivial: at least two runs, and (two layer kinds, a second run of one layer, or a reused output); distinct by choice bytes";
const unsigned QUICK_CASES = 400000, THOROUGH_CASES = 1500000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 100000;

struct Known { T t; std::vector<uint32_t> shape; std::vector<float> v; };

static int history(Case &c) {
    struct Live { L l; int kind, runs; };
    std::vector<Live> live;
    std::vector<Known> pool;       // every tensor the user owns, with its expected contents
    int runs = 0, second = 0, reused = 0; unsigned kinds = 0;
    auto check_all = [&](const Tensor *except) {
        for (auto &x : live) x.l->check_params(c);
        for (auto &k : pool) if (k.t.get() != except) exact_bits(c, *k.t, k.v, "tensor not involved in the step was modified");
    };
    unsigned steps = c.in(3, 16);
    for (unsigned s = 0; s < steps; s++) {
        uint32_t op = live.empty() ? 0 : c.in(0, 9);
        if (op <= 1 && live.size() < 4) {
            int kind = c.in(0, K_COUNT - 1);
            L l = gen_layer(c, kind);
            c.text << "; +[" << live.size() << "] " << l->desc;
            l->build();
            kinds |= 1u << kind;
            live.push_back({std::move(l), kind, 0});
            check_all(nullptr);
        } else if (op == 2) {
            size_t i = c.in(0, live.size() - 1);
            c.text << "; -[" << i << "]";
            live[i].l->destroy();
            live[i].l->check_params(c);
            live.erase(live.begin() + i);
            check_all(nullptr);
        } else if (op == 3) {
            size_t i = c.in(0, live.size() - 1);
            c.text << "; weights[" << i << "]";
            live[i].l->update_params(c.flip());
        } else {
            size_t i = c.in(0, live.size() - 1);
            AnyLayer &l = *live[i].l;
            auto sh = l.gen_shape(c);
            auto os = l.out_shape(sh);
            c.text << "; run[" << i << "]";
            auto v = gen_input(c, l, sh);
            // input: fresh or a pooled tensor of this shape
            auto find = [&](const std::vector<uint32_t> &w, const Tensor *not_this) -> Known * {
                for (auto &k : pool) if (k.shape == w && k.t.get() != not_this) return &k;
                return nullptr;
            };
            bool old_in = c.flip(), old_out = c.flip();
            Known *ki = old_in ? find(sh, nullptr) : nullptr;
            size_t ii, oo;
            if (!ki) { pool.push_back({T(make(sh)), sh, {}}); ki = &pool.back(); }
            ii = ki - pool.data();
            ki->v = v; for (uint32_t k = 0; k < v.size(); k++) ki->t->access_blob(k) = v[k];
            Known *ko = old_out ? find(os, ki->t.get()) : nullptr;
            if (ko) { reused++; oo = ko - pool.data(); }
            else { pool.push_back({T(make(os)), os, {}}); oo = pool.size() - 1; dirty(c, *pool[oo].t); }
            bool in_place = l.in_place_ok && c.chance(80);
            if (in_place) { oo = ii; c.text << " in place"; }
            Tensor *in = pool[ii].t.get(), *out = pool[oo].t.get();
            l.run(in, out);
            Expect e = l.expect(sh, v);
            check_values(c, *out, e, live[i].runs ? "wrong value on a later run" : "wrong value");
            if (!in_place) exact_bits(c, *in, v, "input modified");
            pool[oo].v = data(*out);
            if (ko && in_place) ko->v = data(*ko->t);
            for (auto &k : pool) if (k.v.empty()) k.v = data(*k.t);
            check_all(nullptr);
            runs++; if (live[i].runs++) second++;
            if (pool.size() > 8) pool.erase(pool.begin());
        }
    }
    check_all(nullptr);
    c.nontrivial = runs >= 2 && ((kinds & (kinds - 1)) || second || reused);
    for (auto &x : live) { x.l->destroy(); x.l->check_params(c); }
    return (second ? 1 : 0) | (reused ? 2 : 0) | ((kinds & (kinds - 1)) ? 4 : 0);
}

void property(Case &c) {
    int what = 0;
    size_t p0 = c.pos, n0 = c.tb.n;
    auto measured = [&]() { size_t a = live_bytes(); what = history(c); size_t b = live_bytes(); return (long)b - (long)a; };
    long d = measured();
    size_t p1 = c.pos;
    if (d > 0) {   // first use may fill caches: only a leak that repeats counts
        bool r = c.random;
        for (int k = 0; k < 2 && d > 0; k++) { c.random = false; c.pos = p0; c.tb.n = n0; d = measured(); }
        c.random = r; c.pos = p1;
        if (d > 0) c.fail("memory leak", std::to_string(d) + " bytes allocated by the layers were not released");
    }
    if (what & 1) c.label("repeated run");
    if (what & 2) c.label("reused output");
    if (what & 4) c.label("several layer kinds");
}
