#include "pbt.h"
#include "layers.h"
using namespace pbt;
const char *PROP_ID = "C11";
const char *PROP_RULE = "a case is a history of 4-24 operations (create, write through any accessor, copy, refused copy, add, add channel, scale, compare with a twin or another tensor, print, destroy) over up to five live tensors of rank one to four, checked against a model after every step; non-trivial: at least four operations on tensors with several elements, of at least three kinds; distinct by choice bytes";
const unsigned QUICK_CASES = 200000, THOROUGH_CASES = 3000000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 200000;

struct M { T t; std::vector<uint32_t> s; std::vector<float> v; };

static std::vector<uint32_t> gen_shape(Case &c, uint32_t rank) {
    std::vector<uint32_t> s;
    bool big = c.chance(10);
    for (uint32_t i = 0; i < rank; i++) s.push_back(c.chance(60) ? 1 : c.in(1, big && rank <= 2 ? 70 : rank == 4 ? 5 : 7));
    if (c.chance(40)) if (uint32_t l = c.large()) { if (l > 200) for (auto &x : s) x = 1; s[c.in(0, rank - 1)] = l; }
    return s;
}
static uint32_t N(const std::vector<uint32_t> &s) { return s.size() == 4 || s.size() == 3 ? s[0] : 1; }
static uint32_t C_(const std::vector<uint32_t> &s) { return s.size() == 4 || s.size() == 3 ? s[1] : 1; }
static uint32_t H(const std::vector<uint32_t> &s) { return s.size() == 4 ? s[2] : s.size() == 3 ? 1 : s[0]; }
static uint32_t W(const std::vector<uint32_t> &s) { return s.back(); }

static void structure(Case &c, const M &m) {
    const Tensor &t = *m.t; const auto &s = m.s;
    uint32_t n = prod(s);
    if (t.num_dimensions() != s.size()) c.fail("shape query", "num_dimensions");
    if (t.num_elements() != n || t.size_bytes() != n * sizeof(fp_t)) c.fail("shape query", "num_elements/size_bytes of " + shape_str(s));
    for (size_t i = 0; i < s.size(); i++) if (dim_at(t, i, s[i], 0) != s[i]) c.fail("shape query", "shape");
    if (t.num_batches() != N(s) || t.num_channels() != C_(s)) c.fail("shape query", "batches/channels of " + shape_str(s));
    if (s.size() >= 2 && (t.height() != H(s) || t.width() != W(s))) c.fail("shape query", "height/width of " + shape_str(s));
    for (uint32_t i = 0; i < n; i++)
        if (!same_bits(t.access_blob(i), m.v[i])) c.fail("wrong content", shape_str(s) + " element " + std::to_string(i) + ": " + hexf(t.access_blob(i)) + " expected " + hexf(m.v[i]));
}
// all accessors address the same element
static void addressing(Case &c, const M &m) {
    const Tensor &t = *m.t; const auto &s = m.s; uint32_t o = 0;
    const fp_t *b = &t.access_blob(0);
    auto chk = [&](const fp_t *p, const char *w) { if (p != b + o) c.fail("addressing", std::string(w) + " of " + shape_str(s) + " addresses element " + std::to_string(p - b) + " instead of " + std::to_string(o)); };
    if (s.size() == 1) for (uint32_t x = 0; x < s[0]; x++, o++) chk(&t.access(x), "access");
    if (s.size() == 2) for (uint32_t y = 0; y < s[0]; y++) for (uint32_t x = 0; x < s[1]; x++, o++) {
        chk(&t.access(y, x, t.width()), "access"); chk(t.get_ptr_to_channel(0, 0) + y * s[1] + x, "channel pointer");
    }
    if (s.size() == 3) for (uint32_t n = 0; n < s[0]; n++) for (uint32_t k = 0; k < s[1]; k++) for (uint32_t x = 0; x < s[2]; x++, o++) {
        chk(&t.access(n, k, x, t.num_channels(), t.width()), "access"); chk(t.get_ptr_to_channel(n, k) + x, "channel pointer");
    }
    if (s.size() == 4) for (uint32_t n = 0; n < s[0]; n++) for (uint32_t k = 0; k < s[1]; k++) for (uint32_t y = 0; y < s[2]; y++) for (uint32_t x = 0; x < s[3]; x++, o++) {
        chk(&t.access(n, k, y, x, t.num_channels(), t.height(), t.width()), "access"); chk(t.get_ptr_to_channel(n, k) + y * s[3] + x, "channel pointer");
    }
}
// 1 equal, 0 different, -1 within the undecided band around the tolerance
static int model_eq(const M &a, const M &b) {
    if (a.s != b.s) return 0;
    int r = 1;
    for (size_t i = 0; i < a.v.size(); i++) {
        double d = std::fabs((double)a.v[i] - b.v[i]);
        if (d >= 2e-4) return 0;
        if (d > 5e-5) r = -1;
    }
    return r;
}
static void compare_eq(Case &c, const M &a, const M &b) {
    int e = model_eq(a, b);
    if (e < 0) return;
    bool ab = *a.t == *b.t, ba = *b.t == *a.t;
    if (ab != ba) c.fail("comparison", "not symmetric for " + shape_str(a.s) + " and " + shape_str(b.s));
    if (ab != (e == 1)) c.fail("comparison", shape_str(a.s) + " and " + shape_str(b.s) + (e ? " should be equal" : " should differ"));
    c.label(e ? "equal" : a.s == b.s ? "different data" : a.s.size() == b.s.size() ? "different shape" : "different rank");
}

void property(Case &c) {
    std::vector<M> live;
    unsigned kinds = 0, ops = 0;
    uint32_t steps = c.in(4, 24);
    auto fresh = [&](std::vector<uint32_t> s) {
        M m{T(make(s)), s, std::vector<float>(prod(s), 0.0f)};
        live.push_back(std::move(m));
        structure(c, live.back()); addressing(c, live.back());
    };
    auto fill = [&](M &m) {
        Filler f = filler(c);
        for (auto &x : m.v) x = f.next();
        for (uint32_t i = 0; i < m.v.size(); i++) m.t->access_blob(i) = m.v[i];
    };
    for (uint32_t st = 0; st < steps; st++) {
        uint32_t op = live.empty() ? 0 : c.in(0, 11);
        size_t i = live.empty() ? 0 : c.in(0, live.size() - 1), j = live.empty() ? 0 : c.in(0, live.size() - 1);
        if (!live.empty()) { ops += live[i].v.size() > 1; kinds |= 1u << op; }
        switch (op) {
        case 0: case 1: {
            if (live.size() >= 5) { c.text << "; del " << i; live.erase(live.begin() + i); break; }
            std::vector<uint32_t> s;
            if (!live.empty() && c.flip()) {   // a relative of an existing shape
                s = live[i].s;
                int how = c.in(0, 3);
                if (how == 1 && s.size() < 4) s.push_back(c.in(1, 3));
                if (how == 2 && s.size() > 1) s.pop_back();
                if (how == 3) { uint32_t n = prod(s); s = {1, n}; }
            } else s = gen_shape(c, c.in(1, 4));
            c.text << "; new " << shape_str(s);
            fresh(s);
            if (c.flip()) fill(live.back());
            break;
        }
        case 2: {
            c.text << "; fill " << i; fill(live[i]); break;
        }
        case 3: {  // single write through a drawn accessor
            M &m = live[i]; uint32_t e = c.in(0, m.v.size() - 1); float x = (float)c.in(0, 255) - 100.25f; m.v[e] = x;
            uint32_t how = c.in(0, 2);
            c.text << "; write " << i << "[" << e << "]";
            const auto &s = m.s; Tensor &t = *m.t;
            if (how == 0 || (how == 2 && s.size() == 1)) t.access_blob(e) = x;
            else if (how == 1) {
                if (s.size() == 1) t.access(e) = x;
                if (s.size() == 2) t.access(e / s[1], e % s[1], t.width()) = x;
                if (s.size() == 3) t.access(e / (s[1] * s[2]), e / s[2] % s[1], e % s[2], t.num_channels(), t.width()) = x;
                if (s.size() == 4) t.access(e / (s[1] * s[2] * s[3]), e / (s[2] * s[3]) % s[1], e / s[3] % s[2], e % s[3], t.num_channels(), t.height(), t.width()) = x;
            } else {
                uint32_t per = s.size() == 2 ? e + 1 : prod(s) / (N(s) * C_(s));
                uint32_t ch = e / per;
                t.get_ptr_to_channel(ch / C_(s), ch % C_(s))[e % per] = x;
            }
            break;
        }
        case 4: {  // copy between tensors of equal element count
            if (live[i].v.size() == live[j].v.size()) {
                if (i == j) break;
                c.text << "; copy " << i << "->" << j;
                live[i].t->copy_data_into(live[j].t.get()); live[j].v = live[i].v;
            } else {
                c.text << "; refuse copy " << i << "->" << j;
                c.label("refused copy");
                if (c.in(0, 11)) break;    // forking is slow
                Outcome o = in_child(c, [&]() { live[i].t->copy_data_into(live[j].t.get()); return 0; });
                if (o.sanitizer) c.fail("memory error", "copying between different element counts: " + o.how);
                if (o.returned) c.fail("not refused", "copying " + shape_str(live[i].s) + " into " + shape_str(live[j].s) + " was accepted");
            }
            break;
        }
        case 5: {
            if (live[i].v.size() != live[j].v.size()) break;
            c.text << "; add " << i << "+=" << j;
            live[i].t->add_tensor(live[j].t.get());
            { auto o = live[j].v; for (size_t k = 0; k < o.size(); k++) live[i].v[k] += o[k]; }
            break;
        }
        case 6: {  // one channel of a tensor of the same shape
            if (live[i].s.size() < 2) break;
            if (live[i].s != live[j].s) { std::vector<uint32_t> s = live[i].s; if (live.size() >= 5) break; fresh(s); fill(live.back()); j = live.size() - 1; }
            const auto &s = live[i].s;
            uint32_t n = c.in(0, N(s) - 1), k = c.in(0, C_(s) - 1), per = H(s) * W(s);
            c.text << "; addchannel " << i << "+=" << j << " (" << n << "," << k << ")";
            live[i].t->add_channel(live[j].t.get(), n, k);
            size_t o = s.size() == 2 ? 0 : (n * C_(s) + k) * per;
            auto w = live[j].v;
            for (uint32_t e = 0; e < per; e++) live[i].v[o + e] += w[o + e];
            break;
        }
        case 7: {
            if (live[i].v.size() != live[j].v.size()) break;
            float f = c.pick<float>({0.0f, 1.0f, -1.0f, 0.5f, 2.0f, 0.1f, -3.7f});
            c.text << "; " << j << "=" << i << "*" << f;
            live[i].t->mul_with_factor(live[j].t.get(), f);
            { auto o = live[i].v; for (size_t k = 0; k < o.size(); k++) live[j].v[k] = o[k] * f; }
            break;
        }
        case 8: case 9: {  // twin that is equal, nearly equal, or differs in one place
            M &a = live[i];
            M b{T(make(a.s)), a.s, a.v};
            int how = c.in(0, 4);
            uint32_t e = c.chance(90) ? (c.flip() ? 0 : a.v.size() - 1) : c.in(0, a.v.size() - 1);
            static const float d[] = {0.0f, 4e-5f, -4e-5f, 2.5e-4f, -2.5e-4f};
            float delta = d[how]; if (how >= 3 && c.flip()) delta *= 1000;
            b.v[e] += delta;
            if (how == 0 && c.flip()) for (auto &x : b.v) if (x == 0) x = -x;
            for (uint32_t k = 0; k < b.v.size(); k++) b.t->access_blob(k) = b.v[k];
            c.text << "; twin " << i << "[" << e << "]+" << delta;
            compare_eq(c, a, b);
            break;
        }
        case 10: {
            c.text << "; cmp " << i << "," << j;
            compare_eq(c, live[i], live[j]);
            break;
        }
        default: {
            c.text << "; print " << i;
            // the number format is the stream's, and stays as it was
            uint32_t digits = c.flip() ? 6 : c.in(1, 10); bool sci = c.chance(40);
            std::ostringstream o; o.precision(digits); if (sci) o << std::scientific;
            c.text << " with " << digits << " digits" << (sci ? " scientific" : "");
            auto flags = o.flags(); o << *live[i].t;
            if (o.precision() != (int)digits || o.flags() != flags || o.width() != 0 || o.fill() != ' ') c.fail("stream format", "printing " + shape_str(live[i].s) + " changed the number format of the stream");
            // the numbers shown: the shape, then every element in order
            std::string t = o.str(), want;
            for (auto &ch : t) if (std::strchr("()[],:;\n\t{}|", ch)) ch = ' ';
            std::istringstream words(t);
            std::vector<std::string> got, exp;
            for (std::string w; words >> w;) { char *end; std::strtod(w.c_str(), &end); if (!*end) got.push_back(w); }
            for (uint32_t d : live[i].s) exp.push_back(std::to_string(d));
            for (float x : live[i].v) { std::ostringstream one; one.precision(digits); if (sci) one << std::scientific; one << x; exp.push_back(one.str()); }
            if (got.size() != exp.size()) c.fail("print", shape_str(live[i].s) + " is printed as " + std::to_string(got.size()) + " numbers instead of " + std::to_string(exp.size()));
            for (size_t k = 0; k < got.size(); k++) {
                float a = std::strtof(got[k].c_str(), nullptr), b = std::strtof(exp[k].c_str(), nullptr);
                if (!(a == b || (a != a && b != b) || std::fabs(a - b) <= std::pow(10.0, 1.0 - (double)digits) * std::fabs(b) && (digits < 10 || same_bits(a, b)))) c.fail("print", "number " + std::to_string(k) + " of " + shape_str(live[i].s) + " is printed as " + got[k] + " instead of " + exp[k]);
            }
        }
        }
        for (auto &m : live) structure(c, m);
    }
    c.nontrivial = ops >= 4 && __builtin_popcount(kinds) >= 3;
}
