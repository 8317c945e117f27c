// Linked into the generated programs: counts the runs of the network and balances allocations.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <vector>
#include "pico-cnn/pico-cnn.h"
using pico_cnn::naive::Tensor;
class Network;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __real__ZN7Network3runEPN8pico_cnn5naive6TensorES3_(Network *, Tensor *, Tensor *);

static size_t before;
static long runs, outside, changed;
static float first[4096];

extern "C" void __wrap__ZN7Network3runEPN8pico_cnn5naive6TensorES3_(Network *n, Tensor *in, Tensor *out) {
    for (uint32_t i = 0; i < in->num_elements(); i++) {
        float v = in->access_blob(i);
        if (!(v >= 0.0f && v <= 1.0f)) outside++;
        if (i < 4096) {
            if (runs == 0) first[i] = v;
            else if (memcmp(&first[i], &v, 4)) changed++;
        }
    }
    runs++;
    __real__ZN7Network3runEPN8pico_cnn5naive6TensorES3_(n, in, out);
}

__attribute__((constructor(65535))) static void begin() {
    // what the streams allocate on first use is not the program's
    std::cout << "PROG" << std::endl;
    std::cerr << "PROG" << std::endl;
    printf("PROG\n");
    fflush(stdout);
    before = __sanitizer_get_current_allocated_bytes();
}

__attribute__((destructor(65535))) static void end() {
    long after = (long) __sanitizer_get_current_allocated_bytes();
    fflush(stdout);
    printf("\nPROG runs %ld outside %ld changed %ld kept %ld\n", runs, outside, changed, after - (long) before);
    fflush(stdout);
}
