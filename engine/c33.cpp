// Objects of different threads do not interfere (built with ThreadSanitizer).
#include "pbt.h"
#include "layers.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/io/read_binary_reference_data.h"
#include "pico-cnn/io/read_binary_weights.h"
#include "wfile.h"
#include <atomic>
#include <thread>
using namespace pbt;
const char *PROP_ID = "C33";
const char *PROP_RULE = "a case draws two to four jobs (a layer with its parameters and input, a second layer over the same parameters and input, a history on tensors, writing and reading files of each kind), runs them one after the other and then at the same time, one thread each, several times; non-trivial: at least two jobs and two of them of a kind that computes; distinct by choice bytes";
const unsigned QUICK_CASES = 20000, THOROUGH_CASES = 300000;
const unsigned QUICK_FUZZ = 0, THOROUGH_FUZZ = 0;

static std::atomic<int> g_races;
extern "C" void __tsan_on_report(void *) { g_races++; }
extern "C" const char *__tsan_default_options() { return "exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=3:report_thread_leaks=0"; }

struct Job {
    std::string what;
    std::function<void()> clear;                       // before a run: output buffers to something else
    std::function<void()> go;                          // what the thread does
    std::function<std::vector<uint32_t>()> result;     // bits of the outcome
    std::shared_ptr<void> keep;
};
static void put(std::vector<uint32_t> &o, const float *p, size_t n) { size_t k = o.size(); o.resize(k + n); memcpy(o.data() + k, p, n * 4); }
static void put(std::vector<uint32_t> &o, const Tensor &t) { for (uint32_t i = 0; i < t.num_elements(); i++) { float f = t.access_blob(i); put(o, &f, 1); } }

struct LayerJob { L l; T in, out, out2; std::vector<float> v; std::vector<uint32_t> sh; };
static void spoil(Tensor &t) { for (uint32_t i = 0; i < t.num_elements(); i++) t.access_blob(i) = -77.25f; }

static void layer_jobs(Case &c, std::vector<Job> &jobs) {
    auto j = std::make_shared<LayerJob>();
    j->l = gen_layer(c, c.in(0, K_COUNT - 1));
    j->l->build();
    j->sh = j->l->gen_shape(c);
    j->v = gen_input(c, *j->l, j->sh);
    j->in.reset(make(j->sh, j->v));
    j->out.reset(make(j->l->out_shape(j->sh)));
    c.text << " [" << j->l->desc << "];";
    Job a;
    a.what = "layer"; a.keep = j;
    LayerJob *p = j.get();
    a.clear = [p] { spoil(*p->out); };
    a.go = [p] { p->l->run(p->in.get(), p->out.get()); };
    a.result = [p] { std::vector<uint32_t> o; put(o, *p->out); return o; };
    jobs.push_back(a);
    if (c.chance(100) && j->l->twin()) {
        c.label("parameters and input shared between threads");
        c.text << " twin;";
        j->out2.reset(make(j->l->out_shape(j->sh)));
        Job b;
        b.what = "layer"; b.keep = j;
        b.clear = [p] { spoil(*p->out2); };
        b.go = [p] { p->l->run_twin(p->in.get(), p->out2.get()); };
        b.result = [p] { std::vector<uint32_t> o; put(o, *p->out2); return o; };
        jobs.push_back(b);
    }
}

struct TensorJob { std::vector<float> v; uint32_t n, ch, h, w; std::vector<uint32_t> pad, got; float f; };
static void tensor_job(Case &c, std::vector<Job> &jobs) {
    auto j = std::make_shared<TensorJob>();
    j->n = 1; j->ch = c.in(1, 4); j->h = c.in(1, 6); j->w = c.in(1, 6); j->f = c.pick<float>({0.5f, -3.0f, 0.1f});
    Filler f = filler(c);
    j->v.resize(j->ch * j->h * j->w); for (auto &x : j->v) x = f.next();
    for (int i = 0; i < 4; i++) j->pad.push_back(c.in(0, 3));
    c.text << " [tensor " << j->ch << "x" << j->h << "x" << j->w << ":" << fill_name(f.kind) << "];";
    TensorJob *p = j.get();
    Job a;
    a.what = "tensor"; a.keep = j;
    a.clear = [p] { p->got.clear(); };
    a.go = [p] {
        T t(make({1, p->ch, p->h, p->w}, p->v)), u(make({1, p->ch, p->h, p->w})), all(make({1, 2 * p->ch, p->h, p->w}));
        std::vector<uint32_t> pad = p->pad;
        T q(t->expand_with_padding(pad.data(), p->f));
        t->copy_data_into(u.get());
        u->add_tensor(t.get());
        u->add_channel(t.get(), 0, p->ch - 1);
        Tensor *in[2] = {u.get(), t.get()};
        all->concatenate_from(2, in, 1);
        u->mul_with_factor(u.get(), p->f);
        put(p->got, *q); put(p->got, *u); put(p->got, *all);
        p->got.push_back(*t == *t);
    };
    a.result = [p] { return p->got; };
    jobs.push_back(a);
}

struct FileJob { int kind; uint32_t h, w; std::string path, bytes; std::vector<float> v; std::vector<uint32_t> got; };
static void file_job(Case &c, std::vector<Job> &jobs) {
    auto j = std::make_shared<FileJob>();
    static const char *names[] = {"write and read pgm", "write float", "mnist images", "mnist labels", "means", "reference input", "validation labels"};
    j->kind = c.in(0, 6); j->h = c.in(1, 6); j->w = c.in(1, 6);
    Filler f = filler(c);
    j->v.resize(j->h * j->w); for (auto &x : j->v) x = f.next();
    std::string &b = j->bytes;
    auto be = [&](uint32_t v) { for (int k = 3; k >= 0; k--) b += (char)(v >> (8 * k)); };
    auto le = [&](uint32_t v) { b.append((const char *)&v, 4); };
    if (j->kind == 2 || j->kind == 3) {
        be(j->kind == 2 ? 2051 : 2049); be(3); if (j->kind == 2) { be(j->h); be(j->w); }
        for (uint32_t i = 0; i < 3 * (j->kind == 2 ? j->h * j->w : 1); i++) b += (char)c.byte();
    } else if (j->kind == 4) { b = "FD\n"; char t[64]; for (int i = 0; i < 3; i++) { snprintf(t, sizeof t, "%a\n", (double)j->v[i % j->v.size()]); b += t; } }
    else if (j->kind == 5) { b = "FCI\n"; le(1); le(1); le(j->h); le(j->w); b.append((const char *)j->v.data(), 4 * j->v.size()); b += "end\n"; }
    else if (j->kind == 6) { char t[64]; for (int i = 1; i <= 5; i++) { snprintf(t, sizeof t, "ILSVRC2012_val_%08d.JPEG %u\n", i, c.in(0, 999)); b += t; } }
    j->path = c.scratch + "/" + std::to_string(jobs.size());
    if (!b.empty()) write_file(c, std::to_string(jobs.size()), b);
    c.text << " [" << names[j->kind] << " " << j->h << "x" << j->w << "];";
    FileJob *p = j.get();
    Job a;
    a.what = "file"; a.keep = j;
    a.clear = [p] { p->got.clear(); };
    a.go = [p] {
        auto &o = p->got;
        const char *path = p->path.c_str();
        switch (p->kind) {
        case 0: {
            std::vector<float> unit(p->v.size()); for (size_t i = 0; i < unit.size(); i++) unit[i] = (float)((i * 37 + p->w) % 256) / 255.0f;
            o.push_back(write_pgm(unit.data(), p->h, p->w, path));
            fp_t *im = nullptr; uint16_t H = 0, W = 0;
            int32_t rc = read_pgm(&im, path, 1, 0, 1, &H, &W);
            o.push_back(rc); o.push_back(H); o.push_back(W);
            if (!rc) { put(o, im, (H + 2) * (W + 2)); free(im); }
            break; }
        case 1: {
            o.push_back(write_float(p->v.data(), p->h, p->w, path));
            std::string s; read_file(p->path, s); for (char ch : s) o.push_back((unsigned char)ch);
            break; }
        case 2: {
            fp_t **im = nullptr; uint32_t n = read_mnist_images(path, &im, 10, 2, -1, 1);
            o.push_back(n); for (uint32_t i = 0; i < n; i++) { put(o, im[i], (p->h + 4) * (p->w + 4)); free(im[i]); }
            if (n) free(im);
            break; }
        case 3: {
            uint8_t *l = nullptr; uint32_t n = read_mnist_labels(path, &l, 10);
            o.push_back(n); for (uint32_t i = 0; i < n; i++) o.push_back(l[i]);
            if (n) free(l);
            break; }
        case 4: { fp_t m[3] = {0, 0, 0}; o.push_back(read_means(path, m)); put(o, m, 3); break; }
        case 5: { Tensor *t = new Tensor(1, 1, p->h, p->w); o.push_back(read_binary_reference_input_data(path, &t)); put(o, *t); delete t; break; }
        default: {
            uint32_t *l = nullptr; int32_t n = read_imagenet_validation_labels(path, &l, 5);
            o.push_back(n);
            if (l) { for (int i = 1; i <= 5; i++) o.push_back(l[i]); free(l); }
            break; }
        }
    };
    a.result = [p] { return p->got; };
    jobs.push_back(a);
}

// reading one weights file into the tensors of two networks
struct WeightsJob { std::string path; std::unique_ptr<WTensors> t; int32_t rc = -1; };
static void weights_job(Case &c, std::vector<Job> &jobs) {
    WGen g(c); g.build(4);
    std::string path = write_file(c, "w" + std::to_string(jobs.size()), g.f.bytes);
    c.text << " [weights " << g.f.desc << "];";
    int copies = c.flip() ? 2 : 1;
    for (int i = 0; i < copies; i++) {
        auto j = std::make_shared<WeightsJob>();
        j->path = path; j->t.reset(new WTensors(g.net, 0));
        WeightsJob *p = j.get();
        Job a;
        a.what = "file"; a.keep = j;
        a.clear = [p] { p->rc = -5; for (auto &t : p->t->own) spoil(*t); };
        a.go = [p] { p->rc = p->t->read(p->path); };
        a.result = [p] { std::vector<uint32_t> o; o.push_back(p->rc); for (auto &t : p->t->own) put(o, *t); return o; };
        jobs.push_back(a);
    }
}

void property(Case &c) {
    std::vector<Job> jobs;
    unsigned n = c.in(2, 4);
    while (jobs.size() < n) {
        int k = c.in(0, 9);
        if (k <= 5) layer_jobs(c, jobs);
        else if (k == 6) tensor_job(c, jobs);
        else if (k == 7) weights_job(c, jobs);
        else file_job(c, jobs);
    }
    unsigned computing = 0;
    int before = g_races;
    std::vector<std::vector<uint32_t>> alone;
    for (auto &j : jobs) { c.label(j.what); computing += j.what != "file"; j.clear(); j.go(); alone.push_back(j.result()); }
    if (g_races != before) c.fail("memory", "ThreadSanitizer reports a use of freed memory");
    c.nontrivial = jobs.size() >= 2 && computing >= 2;
    for (int r = 0, rounds = c.in(1, 3); r < rounds; r++) {
        for (auto &j : jobs) j.clear();
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> ts;
        for (auto &j : jobs) ts.emplace_back([&] { ready++; while (ready < jobs.size()) std::this_thread::yield(); j.go(); });
        for (auto &t : ts) t.join();
        for (size_t i = 0; i < jobs.size(); i++)
            if (jobs[i].result() != alone[i]) c.fail("another result", "job " + std::to_string(i) + " (" + jobs[i].what + ") gives another result when other threads run at the same time");
        if (g_races != before) c.fail("data race", "ThreadSanitizer reports a data race between the threads");
    }
}
