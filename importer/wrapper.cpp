#include "network.cpp"
extern "C" {
void *pv_new() { return new Network(); }
void pv_del(void *n) { delete static_cast<Network *>(n); }
void pv_run(void *n, pico_cnn::naive::Tensor *i, pico_cnn::naive::Tensor *o) { static_cast<Network *>(n)->run(i, o); }
pico_cnn::naive::Tensor ***pv_kernels(void *n) { return &static_cast<Network *>(n)->kernels; }
pico_cnn::naive::Tensor ***pv_biases(void *n) { return &static_cast<Network *>(n)->biases; }
}
