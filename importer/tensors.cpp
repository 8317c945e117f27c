// tensors in|out FILE d0 d1 ..   loads a reference file into a tensor of that shape and prints its elements
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "pico-cnn/pico-cnn.h"
using pico_cnn::naive::Tensor;

int main(int argc, char **argv) {
    std::vector<uint32_t> d;
    for (int i = 3; i < argc; i++) d.push_back(atoi(argv[i]));
    Tensor *t = d.size() == 2 ? new Tensor(d[0], d[1]) : d.size() == 3 ? new Tensor(d[0], d[1], d[2]) : new Tensor(d[0], d[1], d[2], d[3]);
    int r = argv[1][0] == 'i' ? read_binary_reference_input_data(argv[2], &t) : read_binary_reference_output_data(argv[2], &t);
    printf("\nstatus %d\nvalues ", r);
    for (uint32_t i = 0; i < t->num_elements(); i++) {
        float v = t->access_blob(i);
        uint32_t u;
        memcpy(&u, &v, 4);
        printf("%08x", u);
    }
    printf("\n");
    delete t;
    return 0;
}
