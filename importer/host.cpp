// Runs a generated network (compiled into a shared object) through a script of operations.
//   host net.so script out
// Script lines:  in K FILE d0 d1 ..   input K from raw floats     new I        weights I FILE
//                run I K J            input K, output slot J      del I        params I NK NB
//                fresh J d0 d1        new output slot             keep K       input K unchanged?
// The whole script runs twice; allocations are balanced over the second run.
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "pico-cnn/pico-cnn.h"
using pico_cnn::naive::Tensor;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static void *(*net_new)();
static void (*net_del)(void *);
static void (*net_run)(void *, Tensor *, Tensor *);
static Tensor ***(*net_kernels)(void *);
static Tensor ***(*net_biases)(void *);

static Tensor *make(const std::vector<uint32_t> &d) {
    switch (d.size()) {
        case 1: return new Tensor(d[0]);
        case 2: return new Tensor(d[0], d[1]);
        case 3: return new Tensor(d[0], d[1], d[2]);
        default: return new Tensor(d[0], d[1], d[2], d[3]);
    }
}

static void hex(FILE *f, const char *tag, Tensor *t) {
    fprintf(f, "%s ", tag);
    for (uint32_t i = 0; i < t->num_elements(); i++) {
        float v = t->access_blob(i);
        uint32_t u;
        memcpy(&u, &v, 4);
        fprintf(f, "%08x", u);
    }
    fputc('\n', f);
    fflush(f);
}

static void play(const char *script, FILE *out) {
    std::map<int, Tensor *> in, slot;
    std::map<int, std::vector<float>> orig;
    std::map<int, void *> nets;
    std::ifstream s(script);
    std::string line;
    while (std::getline(s, line)) {
        std::istringstream l(line);
        std::string op;
        l >> op;
        if (op == "in") {
            int k;
            std::string file;
            std::vector<uint32_t> d;
            uint32_t v;
            l >> k >> file;
            while (l >> v) d.push_back(v);
            Tensor *t = make(d);
            std::vector<float> buf(t->num_elements());
            FILE *f = fopen(file.c_str(), "rb");
            if (!f || fread(buf.data(), 4, buf.size(), f) != buf.size()) { fprintf(stderr, "HOST: input\n"); _exit(99); }
            fclose(f);
            for (size_t i = 0; i < buf.size(); i++) t->access_blob(i) = buf[i];
            in[k] = t;
            orig[k] = buf;
        } else if (op == "new") {
            int i;
            l >> i;
            nets[i] = net_new();
        } else if (op == "weights") {
            int i;
            std::string file;
            l >> i >> file;
            int r = read_binary_weights(file.c_str(), net_kernels(nets[i]), net_biases(nets[i]));
            fprintf(out, "weights %d\n", r);
            fflush(out);
            if (r != 0) _exit(7);
        } else if (op == "fresh") {
            int j;
            std::vector<uint32_t> d;
            uint32_t v;
            l >> j;
            while (l >> v) d.push_back(v);
            if (slot.count(j)) delete slot[j];
            slot[j] = make(d);
            for (uint32_t i = 0; i < slot[j]->num_elements(); i++) slot[j]->access_blob(i) = 12345.0f + i;
        } else if (op == "run") {
            int i, k, j;
            l >> i >> k >> j;
            net_run(nets[i], in[k], slot[j]);
            hex(out, "out", slot[j]);
        } else if (op == "keep") {
            int k;
            l >> k;
            bool same = in[k]->num_elements() == orig[k].size();
            for (size_t i = 0; same && i < orig[k].size(); i++) {
                float v = in[k]->access_blob(i);
                same = !memcmp(&v, &orig[k][i], 4);
            }
            fprintf(out, "keep %d\n", (int) same);
        } else if (op == "params") {
            int i, nk, nb;
            l >> i >> nk >> nb;
            for (int q = 0; q < nk; q++) hex(out, "kernel", (*net_kernels(nets[i]))[q]);
            for (int q = 0; q < nb; q++) hex(out, "bias", (*net_biases(nets[i]))[q]);
        } else if (op == "del") {
            int i;
            l >> i;
            net_del(nets[i]);
            nets.erase(i);
        }
    }
    for (auto &n : nets) net_del(n.second);
    for (auto &t : in) delete t.second;
    for (auto &t : slot) delete t.second;
}

int main(int argc, char **argv) {
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "HOST: %s\n", dlerror()); return 98; }
    net_new = (void *(*)()) dlsym(h, "pv_new");
    net_del = (void (*)(void *)) dlsym(h, "pv_del");
    net_run = (void (*)(void *, Tensor *, Tensor *)) dlsym(h, "pv_run");
    net_kernels = (Tensor * **(*) (void *)) dlsym(h, "pv_kernels");
    net_biases = (Tensor * **(*) (void *)) dlsym(h, "pv_biases");
    FILE *out = fopen(argv[3], "w");
    play(argv[2], out);
    fprintf(out, "again\n");
    size_t before = __sanitizer_get_current_allocated_bytes();
    play(argv[2], out);
    size_t after = __sanitizer_get_current_allocated_bytes();
    fprintf(out, "leak %ld\n", (long) after - (long) before);
    fprintf(out, "done\n");
    fclose(out);
    return 0;
}
