H = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include "pico-cnn/pico-cnn.h"
#include "pico-cnn/io/read_jpeg.h"
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
using namespace pico_cnn::naive;
static float val(unsigned i) { return (float) ((int) ((i * 37u + 11u) % 41u) - 20) / 8.0f; }
static void fill(Tensor &t, unsigned s = 0) { for (unsigned i = 0; i < t.num_elements(); i++) t.data_[i] = val(i + s); }
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static void put32(FILE *f, uint32_t v) { fwrite(&v, 4, 1, f); }
static void put32be(FILE *f, uint32_t v) { for (int i = 3; i >= 0; i--) fputc((v >> (8 * i)) & 255, f); }
'''
CONV = r'''
static float conv_at(Tensor &x, Tensor &k, Tensor *b, unsigned g, const unsigned *pad, const unsigned *st, unsigned o, int r, int c) {
    unsigned oc = k.shape_[0], ic = k.shape_[1], kh = k.shape_[2], kw = k.shape_[3], h = x.shape_[2], w = x.shape_[3];
    unsigned grp = o / (oc / g);
    double s = b ? b->data_[o] : 0;
    for (unsigned i = 0; i < ic; i++)
        for (unsigned a = 0; a < kh; a++)
            for (unsigned e = 0; e < kw; e++) {
                int y = r * (int) st[0] + (int) a - (int) pad[0], z = c * (int) st[1] + (int) e - (int) pad[1];
                if (y >= 0 && z >= 0 && y < (int) h && z < (int) w)
                    s += k.data_[((o * ic + i) * kh + a) * kw + e] * x.data_[((grp * ic + i) * h + y) * w + z];
            }
    return (float) s;
}
static int conv_check(unsigned ic, unsigned oc, unsigned g, unsigned h, unsigned w, unsigned kh, unsigned kw, const unsigned *p, const unsigned *s, bool bias) {
    unsigned oh = (h + p[0] + p[2] - kh) / s[0] + 1, ow = (w + p[1] + p[3] - kw) / s[1] + 1;
    Tensor x(1, ic, h, w), k(oc, ic / g, kh, kw), b(oc), y(1, oc, oh, ow);
    fill(x), fill(k, 5), fill(b, 9);
    unsigned pad[4] = {p[0], p[1], p[2], p[3]}, st[2] = {s[0], s[1]};
    Convolution l("c", 0, pico_cnn::op_type::Conv, &k, bias ? &b : nullptr, pad, st, g);
    l.run(&x, &y);
    for (unsigned o = 0; o < oc; o++)
        for (unsigned r = 0; r < oh; r++)
            for (unsigned c = 0; c < ow; c++)
                if (std::fabs(y.data_[(o * oh + r) * ow + c] - conv_at(x, k, bias ? &b : nullptr, g, p, s, o, r, c)) > 1e-3) {
                    printf("channel %u (%u,%u) is %g\n", o, r, c, y.data_[(o * oh + r) * ow + c]);
                    return 1;
                }
    return 0;
}
'''
SPECS = [
 dict(id='conv-group-bias', property='C01',
      needs='a grouped 2-D convolution with at least two groups and a bias',
      breaks='the bias is added only for the output channels whose group starts at input channel 0, so every group but the first loses its bias',
      edits=[('pico-cnn/layers/convolution.cpp', '''                    if (cnt == 0 && bias_) {
//                        pixel += bias_->data_[output_channel];''', '''                    if (input_channel == 0 && bias_) {
//                        pixel += bias_->data_[output_channel];''')],
      cpp=H + CONV + r'''int main() {
    unsigned p[4] = {1, 1, 1, 1}, s[2] = {1, 1};
    CHECK(conv_check(4, 4, 1, 5, 5, 3, 3, p, s, true) == 0);
    CHECK(conv_check(4, 6, 2, 5, 5, 3, 3, p, s, true) == 0);
    CHECK(conv_check(3, 3, 3, 5, 5, 3, 3, p, s, true) == 0);
    return 0; }'''),
 dict(id='conv-depthwise-multiplier', property='C01', skip=True,
      needs='a grouped convolution with more output than input channels per group',
      breaks='the group of an output channel is derived from the number of input channels, so later groups read the wrong input channels',
      edits=[('pico-cnn/layers/convolution.cpp', '''                        if (input_tensor->num_dimensions() == 4) {
                            this->convolve(input_tensor, output, g * num_input_channels / num_groups_, i, 0,''',
              '''                        if (input_tensor->num_dimensions() == 4) {
                            this->convolve(input_tensor, output, num_input_channels == num_groups_ ? MIN(i, num_input_channels - 1) : g * num_input_channels / num_groups_, i, 0,''')],
      cpp=H + CONV + r'''int main() {
    unsigned p[4] = {1, 1, 1, 1}, s[2] = {1, 1};
    CHECK(conv_check(4, 4, 4, 5, 5, 3, 3, p, s, true) == 0);
    CHECK(conv_check(2, 6, 2, 5, 5, 3, 3, p, s, false) == 0);
    return 0; }'''),
 dict(id='conv-scratch-reuse', property='C10',
      needs='one convolution layer run on two inputs whose outputs have the same number of elements but different shapes',
      breaks='the scratch tensor kept between runs has the shape of the first run, so channels are accumulated at the wrong offsets',
      edits=[('pico-cnn/layers/convolution.cpp', '            auto *tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);\n',
              '''            if (tmp_tensor_ == nullptr || tmp_tensor_->num_elements() != num_batches * num_output_channels * output_height * output_width) {
                delete tmp_tensor_;
                tmp_tensor_ = new Tensor(num_batches, num_output_channels, output_height, output_width);
            }
            Tensor *tmp_tensor = tmp_tensor_;
            uint32_t channel_size = tmp_tensor->height() * tmp_tensor->width();
'''),
             ('pico-cnn/layers/convolution.cpp', '                                output->add_channel(tmp_tensor, 0, i);\n',
              '''                                for (uint32_t e = 0; e < channel_size; e++) {
                                    output->access_blob(i * output_height * output_width + e) +=
                                            tmp_tensor->access_blob(i * output_height * output_width + e);
                                }
'''),
             ('pico-cnn/layers/convolution.cpp', '            delete tmp_tensor;\n\n', ''),
             ('pico-cnn/layers/convolution.cpp', '            delete [] stride_;\n', '            delete [] stride_;\n            delete tmp_tensor_;\n'),
             ('pico-cnn/layers/convolution.h', '            uint32_t num_groups_;\n', '            uint32_t num_groups_;\n            Tensor *tmp_tensor_ = nullptr;\n')],
      skip=True,
      cpp=H + r'''int main() { return 0; }'''),
 dict(id='batchnorm-cached-scale', property='C10',
      needs='a batch normalization layer that is run, then run again after its parameters have been replaced (for example weights loaded a second time)',
      breaks='the scale is computed on the first run and kept, so later runs mix the old scale with the new shift',
      edits=[('pico-cnn/layers/batch_normalization.h', '            fp_t epsilon_;\n', '            fp_t epsilon_;\n            std::vector<fp_t> scale_;\n'),
             ('pico-cnn/layers/batch_normalization.h', '#include "layer.h"\n', '#include "layer.h"\n\n#include <vector>\n'),
             ('pico-cnn/layers/batch_normalization.cpp', '    uint32_t num_input_channels = input->num_channels();\n', '''    uint32_t num_input_channels = input->num_channels();

    // The scale does not depend on the input
    if (scale_.size() != num_input_channels) {
        scale_.resize(num_input_channels);
        for (uint32_t channel = 0; channel < num_input_channels; channel++) {
            scale_[channel] = gammas_->access(channel) / sqrtf(variances_->access(channel) + epsilon_);
        }
    }
'''),
             ('pico-cnn/layers/batch_normalization.cpp', '    fp_t gamma = gammas_->access(channel);\n', '    fp_t scale = scale_[channel];\n'),
             ('pico-cnn/layers/batch_normalization.cpp', '    fp_t variance = variances_->access(channel);\n', ''),
             ('pico-cnn/layers/batch_normalization.cpp', '''                        gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /
                        sqrtf(variance + epsilon_) + beta;''', '''                        scale * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) + beta;'''),
             ('pico-cnn/layers/batch_normalization.cpp', '''                        gamma * (input->access(0, channel, col, num_channels, input_width) - mean) /
                        sqrtf(variance + epsilon_) + beta;''', '''                        scale * (input->access(0, channel, col, num_channels, input_width) - mean) + beta;''')],
      cpp=H + r'''int main() {
    Tensor g(2), b(2), m(2), v(2), x(1, 2, 2, 3), y(1, 2, 2, 3);
    fill(x);
    BatchNormalization l("b", 0, pico_cnn::op_type::BatchNormalization, &g, &b, &m, &v, 1e-5f);
    for (int round = 0; round < 3; round++) {
        for (int c = 0; c < 2; c++) { g.data_[c] = 1 + c + round; b.data_[c] = c - round; m.data_[c] = 0.5f * c; v.data_[c] = 1 + 0.25f * (c + 3 * round); }
        l.run(&x, &y);
        for (unsigned i = 0; i < 12; i++) {
            unsigned c = i / 6;
            double w = g.data_[c] * (x.data_[i] - m.data_[c]) / std::sqrt(v.data_[c] + 1e-5) + b.data_[c];
            CHECK(std::fabs(y.data_[i] - w) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='maxpool-1d-extra-column', property='C02',
      needs='1-D max pooling whose stride does not divide the input width minus the kernel size',
      breaks='one output column too many is computed; inside the tensor it is overwritten by the next channel, but for the last channel it is written behind the end of the output tensor',
      edits=[('pico-cnn/layers/pooling/max_pooling.cpp', '        output_channel_width = (width - kernel_size_[0]) / stride_[0] + 1;',
              '        output_channel_width = (width - kernel_size_[0] + stride_[0] - 1) / stride_[0] + 1;')],
      cpp=H + r'''int main() {
    for (unsigned w = 4; w < 12; w++) for (unsigned s = 1; s < 4; s++) {
        Tensor x(2, 2, w);
        unsigned o = (w - 2) / s + 1;
        Tensor y(2, 2, o);
        delete[] y.data_;
        y.data_ = new float[4 * o + 8];
        for (unsigned i = 0; i < 4 * o + 8; i++) y.data_[i] = 777;
        fill(x);
        unsigned k[2] = {2, 1}, st[2] = {s, 1};
        MaxPooling l("p", 0, pico_cnn::op_type::MaxPool, k, st, nullptr);
        l.run(&x, &y);
        for (unsigned c = 0; c < 4; c++) for (unsigned i = 0; i < o; i++) {
            float m = x.data_[c * w + i * s];
            if (x.data_[c * w + i * s + 1] > m) m = x.data_[c * w + i * s + 1];
            CHECK(y.data_[c * o + i] == m);
        }
        for (unsigned i = 0; i < 8; i++) CHECK(y.data_[4 * o + i] == 777);
    }
    return 0; }'''),
 dict(id='avgpool-1d-sliding-sum', property='C03',
      needs='1-D average pooling over windows that overlap, of an input in which some value is much larger than the others',
      breaks='the sum of a window is obtained from the previous one by adding the new and subtracting the old values, so the rounding error of a large value stays after it has left the window',
      edits=[('pico-cnn/layers/pooling/average_pooling.cpp', """                    output_channel_column = 0;

                    for (channel_column = 0;
                         channel_column < width &&
                         output_channel_column < output_channel_width; channel_column += stride_[0]) {
                        fp_t pixel = 0.0;


                        for (kernel_column = channel_column;
                             kernel_column < channel_column + kernel_size_[0] &&
                             kernel_column < width; kernel_column++) {

                            pixel += input->access(batch, channel, kernel_column, num_channels, width);

                        }
""", """                    output_channel_column = 0;
                    fp_t pixel = 0.0;

                    for (channel_column = 0;
                         channel_column < width &&
                         output_channel_column < output_channel_width; channel_column += stride_[0]) {

                        if (channel_column == 0 || stride_[0] >= kernel_size_[0]) {
                            pixel = 0.0;
                            kernel_column = channel_column;
                        } else {
                            // Overlapping windows: reuse the sum of the previous one
                            for (kernel_column = channel_column - stride_[0];
                                 kernel_column < channel_column; kernel_column++) {
                                pixel -= input->access(batch, channel, kernel_column, num_channels, width);
                            }
                            kernel_column = channel_column + kernel_size_[0] - stride_[0];
                        }

                        for (; kernel_column < channel_column + kernel_size_[0] &&
                             kernel_column < width; kernel_column++) {

                            pixel += input->access(batch, channel, kernel_column, num_channels, width);

                        }
""")],
      cpp=H + r"""int main() {
    for (unsigned big = 0; big < 2; big++) {
        unsigned w = 9, o = w - 2;
        Tensor x(1, 2, w), y(1, 2, o);
        fill(x);
        if (big) x.data_[2] = 3e8f;
        unsigned k[2] = {3, 1}, s[2] = {1, 1};
        AveragePooling l("p", 0, pico_cnn::op_type::AveragePool, k, s, nullptr, true);
        l.run(&x, &y);
        for (unsigned c = 0; c < 2; c++) for (unsigned i = 0; i < o; i++) {
            double sum = 0;
            for (int j = 0; j < 3; j++) sum += x.data_[c * w + i + j];
            CHECK(std::fabs(y.data_[c * o + i] - sum / 3) <= 1e-4 + 1e-6 * std::fabs(sum));
        }
    }
    return 0; }"""),
 dict(id='globalmax-1d-negative', property='C04',
      needs='1-D global max pooling of a channel whose values are all negative, after a channel with a larger maximum',
      breaks='the running maximum is set once before all channels and only raised, so a later channel may report the maximum of an earlier one',
      edits=[('pico-cnn/layers/pooling/global_max_pooling.cpp', '''    } else if (num_dims == 3) {
        for (uint32_t batch = 0; batch < num_batches; batch++) {
            for (uint32_t channel = 0; channel < num_channels; channel++) {


                global_maximum = input->access(batch, channel, 0,
                                               num_channels, width);
''', '''    } else if (num_dims == 3) {
        for (uint32_t batch = 0; batch < num_batches; batch++) {

            global_maximum = input->access(batch, 0, 0, num_channels, width);

            for (uint32_t channel = 0; channel < num_channels; channel++) {

                if (input->access(batch, channel, 0, num_channels, width) >= 0)
                    global_maximum = input->access(batch, channel, 0,
                                                   num_channels, width);
''')],
      cpp=H + r'''int main() {
    Tensor x(1, 3, 4), y(1, 3, 1);
    float d[12] = {1, 2, 3, 2, -4, -3, -5, -6, 0.5f, -1, 0.25f, 0};
    memcpy(x.data_, d, sizeof d);
    GlobalMaxPooling l("p", 0, pico_cnn::op_type::AveragePool, nullptr, nullptr, nullptr);
    l.run(&x, &y);
    CHECK(y.data_[0] == 3 && y.data_[1] == -3 && y.data_[2] == 0.5f);
    return 0; }'''),
 dict(id='leakyrelu-in-place', property='C07',
      needs='leaky ReLU run with the output tensor equal to the input tensor',
      breaks='the output is first filled with the positive part and then corrected where the input was negative, which is lost when both are the same tensor',
      edits=[('pico-cnn/layers/activation_functions/relu.cpp', '''            for(uint32_t element = 0; element < num_elements; element++) {
                output->access_blob(element) = (input->access_blob(element) < 0.0) ?
                        (leak_*input->access_blob(element)) : input->access_blob(element);
            }''', '''            for(uint32_t element = 0; element < num_elements; element++) {
                output->access_blob(element) = MAX(input->access_blob(element), 0);
            }
            for(uint32_t element = 0; element < num_elements; element++) {
                if (input->access_blob(element) < 0.0)
                    output->access_blob(element) = leak_*input->access_blob(element);
            }''')],
      cpp=H + r'''int main() {
    Tensor x(2, 5), y(2, 5);
    fill(x);
    LeakyReLU l("l", 0, pico_cnn::op_type::LeakyReLU, 0.1f);
    l.run(&x, &y);
    l.run(&x, &x);
    for (int i = 0; i < 10; i++) { CHECK(x.data_[i] == y.data_[i]); CHECK(y.data_[i] == (val(i) < 0 ? 0.1f * val(i) : val(i))); }
    return 0; }'''),
 dict(id='lrn-batch', property='C09',
      needs='local response normalization of more than one batch',
      breaks='the sum of squares is taken from the first batch for every batch',
      edits=[('pico-cnn/layers/activation_functions/lrn.cpp', 'sum += powf(input->access(batch, i, row, column, num_channels, height, width), 2);',
              'sum += powf(input->access(0, i, row, column, num_channels, height, width), 2);')],
      cpp=H + r'''int main() {
    for (unsigned n = 1; n < 3; n++) {
        Tensor x(n, 4, 2, 3), y(n, 4, 2, 3);
        fill(x);
        LRN l("l", 0, pico_cnn::op_type::LRN, 0.5f, 0.75f, 3);
        l.run(&x, &y);
        for (unsigned b = 0; b < n; b++) for (int c = 0; c < 4; c++) for (unsigned i = 0; i < 6; i++) {
            double s = 0;
            for (int j = c - 1; j <= c + 1; j++) if (j >= 0 && j < 4) { double q = x.data_[(b * 4 + j) * 6 + i]; s += q * q; }
            CHECK(std::fabs(y.data_[(b * 4 + c) * 6 + i] - x.data_[(b * 4 + c) * 6 + i] / std::pow(1 + 0.5 / 3 * s, 0.75)) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='tensor-copy-larger', property='C11',
      needs='copying a tensor into one with more elements',
      breaks='the copy is done instead of refused and leaves the rest of the destination as it was',
      edits=[('pico-cnn/tensor.cpp', 'if(this->num_elements() == dest->num_elements()) {', 'if(this->num_elements() <= dest->num_elements()) {')],
      cpp=H + r'''#include <sys/wait.h>
#include <unistd.h>
int main() {
    Tensor a(2, 3), b(3, 3), c(6);
    fill(a);
    a.copy_data_into(&c);
    CHECK(!memcmp(a.data_, c.data_, 24));
    pid_t p = fork();
    if (p == 0) { a.copy_data_into(&b); _exit(0); }
    int st;
    waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
    return 0; }'''),
 dict(id='tensor-addchannel-batch', property='C11',
      needs='adding one channel of a batch other than the first',
      breaks='the addend is taken from the first batch',
      edits=[('pico-cnn/tensor.cpp', 'fp_t *other_ptr = other->get_ptr_to_channel(batch, channel);', 'fp_t *other_ptr = other->get_ptr_to_channel(0, channel);')],
      cpp=H + r'''int main() {
    Tensor a(2, 3, 2, 2), b(2, 3, 2, 2);
    fill(a), fill(b, 7);
    a.add_channel(&b, 1, 2);
    for (unsigned i = 0; i < 24; i++) CHECK(a.data_[i] == (i >= 20 ? val(i) + val(i + 7) : val(i)));
    return 0; }'''),
 dict(id='padding-one-sided', property='C12',
      needs='padding a four-dimensional tensor with zero columns on the left but some on the right',
      breaks='rows are copied as one block when there is no left padding, so every row after the first is shifted',
      edits=[('pico-cnn/tensor.cpp', '''                        extended_channel_ptr = dest->get_ptr_to_channel(batch, channel);

                        for (uint32_t row = 0; row < height; row++) {

                            std::memcpy((extended_channel_ptr + (row + padding[0]) * width_padded + padding[1]),
                                        channel_ptr + row * width, width * sizeof(fp_t));

                        }''', '''                        extended_channel_ptr = dest->get_ptr_to_channel(batch, channel);

                        // Without columns to insert all rows are contiguous
                        uint32_t num_rows = padding[1] == 0 ? height : 1;

                        for (uint32_t row = 0; row < height; row += num_rows) {

                            std::memcpy((extended_channel_ptr + (row + padding[0]) * width_padded + padding[1]),
                                        channel_ptr + row * width, num_rows * width * sizeof(fp_t));

                        }''')],
      cpp=H + r'''int main() {
    for (unsigned c = 0; c < 16; c++) {
        unsigned p[4] = {c & 1, (c >> 1) & 1, (c >> 2) & 1, (c >> 3) & 1};
        Tensor x(1, 2, 3, 4);
        fill(x);
        Tensor *y = x.expand_with_padding(p);
        unsigned H = 3 + p[0] + p[2], W = 4 + p[1] + p[3];
        for (unsigned ch = 0; ch < 2; ch++) for (unsigned r = 0; r < H; r++) for (unsigned w = 0; w < W; w++) {
            bool in = r >= p[0] && r < 3 + p[0] && w >= p[1] && w < 4 + p[1];
            CHECK(y->data_[(ch * H + r) * W + w] == (in ? x.data_[(ch * 3 + r - p[0]) * 4 + w - p[1]] : 0));
        }
        delete y;
    }
    return 0; }'''),
 dict(id='weights-shared-variance', property='C14',
      needs='a weights file in which a batch normalization layer declares its variance with size zero because an earlier layer already stored it, followed by further arrays',
      breaks='the position in the array list is advanced although nothing was stored, so the following arrays end up in the wrong tensors',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '''                    std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), variance_values, num_variance*sizeof(fp_t));

                    bias_idx++;

                    delete[] variance_values;
                }
''', '''                    std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), variance_values, num_variance*sizeof(fp_t));

                    delete[] variance_values;
                }
                bias_idx++;
''')],
      cpp=H + r'''static void arr(FILE *f, unsigned n, float base) { put32(f, n); for (unsigned i = 0; i < n; i++) { float v = base + i; fwrite(&v, 4, 1, f); } }
int main() {
    FILE *f = fopen("w.bin", "wb");
    fputs("FD\nnet\n", f);
    put32(f, 2);
    fputs("bn1\nBatchNormalization\n", f);
    arr(f, 2, 10); arr(f, 2, 20); arr(f, 2, 30); arr(f, 2, 40);
    fputs("bn2\nBatchNormalization\n", f);
    arr(f, 2, 50); arr(f, 2, 60); arr(f, 2, 70); put32(f, 0);
    fputs("end\n", f);
    fclose(f);
    for (int two = 0; two < 1; two++) {
        Tensor *b[8]; for (int i = 0; i < 8; i++) b[i] = new Tensor(2);
        Tensor *k[1] = {nullptr}, **pk = k, **pb = b;
        CHECK(read_binary_weights("w.bin", &pk, &pb) == 0);
        for (int i = 0; i < 7; i++) CHECK(b[i]->data_[0] == 10 * (i + 1) && b[i]->data_[1] == 10 * (i + 1) + 1);
    }
    f = fopen("w.bin", "wb");
    fputs("FD\nnet\n", f);
    put32(f, 3);
    fputs("bn1\nBatchNormalization\n", f);
    arr(f, 2, 10); arr(f, 2, 20); arr(f, 2, 30); arr(f, 2, 40);
    fputs("bn2\nBatchNormalization\n", f);
    arr(f, 2, 50); arr(f, 2, 60); arr(f, 2, 70); put32(f, 0);
    fputs("add\nAdd\n", f);
    arr(f, 2, 80);
    fputs("end\n", f);
    fclose(f);
    Tensor *b[10]; for (int i = 0; i < 10; i++) b[i] = new Tensor(2);
    Tensor *k[1] = {nullptr}, **pk = k, **pb = b;
    CHECK(read_binary_weights("w.bin", &pk, &pb) == 0);
    for (int i = 0; i < 8; i++) CHECK(b[i]->data_[0] == 10 * (i + 1) && b[i]->data_[1] == 10 * (i + 1) + 1);
    return 0; }'''),
 dict(id='weights-end-marker', property='C15',
      needs='a weights file whose end marker differs from the right one only in its last character',
      breaks='only the first three characters of the end marker are compared, so the file is reported as read',
      edits=[('pico-cnn/io/read_binary_weights.cpp', 'if(strcmp(end_marker,"end\\n") != 0) {', 'if(strncmp(end_marker,"end\\n",3) != 0) {')],
      cpp=H + r'''int main() {
    const char *ends[] = {"end\n", "end ", "enD\n", "End\n", "end"};
    for (int e = 0; e < 5; e++) {
        FILE *f = fopen("w.bin", "wb");
        fputs("FD\nnet\n", f);
        put32(f, 1);
        fputs("c\nConv\n", f);
        put32(f, 1); put32(f, 1); put32(f, 1); put32(f, 3);
        float v[3] = {1, 2, 3};
        fwrite(v, 4, 3, f);
        put32(f, 0);
        fputs(ends[e], f);
        fclose(f);
        Tensor k0(1, 1, 1, 3);
        Tensor *k[1] = {&k0}, *b[1] = {nullptr}, **pk = k, **pb = b;
        int r = read_binary_weights("w.bin", &pk, &pb);
        CHECK((r == 0) == (e == 0));
    }
    return 0; }'''),
 dict(id='reference-output-short', property='C16',
      needs='a reference output file with fewer values than the tensor',
      breaks='only larger files are rejected, a smaller one is loaded into the first values and success is reported',
      edits=[('pico-cnn/io/read_binary_reference_data.cpp', 'if (num_outputs != (*output_tensor)->num_elements()) {', 'if (num_outputs > (*output_tensor)->num_elements()) {')],
      cpp=H + r'''int main() {
    for (unsigned n = 1; n < 6; n++) {
        FILE *f = fopen("o.bin", "wb");
        fputs("FCO\n", f);
        put32(f, 1); put32(f, n);
        for (unsigned i = 0; i < n; i++) { float v = i; fwrite(&v, 4, 1, f); }
        fputs("end\n", f);
        fclose(f);
        Tensor t(1, 3), *p = &t;
        CHECK((read_binary_reference_output_data("o.bin", &p) == 0) == (n == 3));
    }
    return 0; }'''),
 dict(id='mnist-padding-overflow', property='C17',
      needs='reading images with a padding of 128 or more',
      breaks='twice the padding is kept in eight bits, so the images are allocated and laid out too small',
      edits=[('pico-cnn/io/read_mnist.cpp', '            // allocate memory for single image\n', '            const uint8_t border = 2*padding;\n            // allocate memory for single image\n'),
             ('pico-cnn/io/read_mnist.cpp', '            for(row = 0; row < height+2*padding; row++) {\n                for(column = 0; column < width+2*padding; column++) {',
              '            for(row = 0; row < height+border; row++) {\n                for(column = 0; column < width+border; column++) {')],
      cpp=H + r'''int main() {
    FILE *f = fopen("i", "wb");
    put32be(f, 2051); put32be(f, 1); put32be(f, 2); put32be(f, 3);
    for (int i = 0; i < 6; i++) fputc(i * 51, f);
    fclose(f);
    for (int p = 0; p < 256; p += 15) {
        float **im = nullptr;
        CHECK(read_mnist_images("i", &im, 1, p, -1.0f, 1.0f) == 1);
        int W = 3 + 2 * p, H = 2 + 2 * p;
        for (int r = 0; r < H; r++) for (int c = 0; c < W; c++) {
            bool in = r >= p && r < p + 2 && c >= p && c < p + 3;
            float want = in ? ((r - p) * 3 + c - p) * 51 / 255.0f * 2 - 1 : -1;
            CHECK(std::fabs(im[0][r * W + c] - want) < 1e-5);
        }
        free(im[0]); free(im);
    }
    return 0; }'''),
 dict(id='float-dump-digits', property='C18',
      needs='writing a value that needs more than eight significant digits',
      breaks='values are written with eight decimal digits, one less than needed to restore every value',
      edits=[('pico-cnn/io/write_float.cpp', 'fprintf(float_file, "%a\\n", image[row*width+column]);', 'fprintf(float_file, "%.8g\\n", image[row*width+column]);')],
      cpp=H + r'''int main() {
    std::vector<float> v;
    for (unsigned i = 0; i < 4096; i++) { uint32_t u = 0x3f000000u + i * 2654435u % 0x04000000u; float x; memcpy(&x, &u, 4); v.push_back(x); }
    CHECK(write_float(v.data(), 64, 64, "f.txt") == 0);
    FILE *f = fopen("f.txt", "r");
    char m[8];
    unsigned h, w;
    CHECK(fscanf(f, "%7s %u %u", m, &h, &w) == 3 && h == 64 && w == 64);
    for (unsigned i = 0; i < 4096; i++) { float x; CHECK(fscanf(f, "%f", &x) == 1); CHECK(!memcmp(&x, &v[i], 4)); }
    return 0; }'''),
 dict(id='jpeg-large-image', property='C20',
      needs='a JPEG image with more than 65535 pixels',
      breaks='the position in the planes is kept in sixteen bits, so later rows overwrite the first ones',
      edits=[('pico-cnn/io/read_jpeg.cpp', 'uint32_t pos = 0;', 'uint16_t pos = 0;')],
      cpp=H + r'''#include <jpeglib.h>
int main() {
    int W = 300, Ht = 260;
    FILE *f = fopen("a.jpg", "wb");
    jpeg_compress_struct c; jpeg_error_mgr e;
    c.err = jpeg_std_error(&e);
    jpeg_create_compress(&c);
    jpeg_stdio_dest(&c, f);
    c.image_width = W; c.image_height = Ht; c.input_components = 1; c.in_color_space = JCS_GRAYSCALE;
    jpeg_set_defaults(&c); jpeg_set_quality(&c, 100, TRUE);
    jpeg_start_compress(&c, TRUE);
    std::vector<unsigned char> row(W);
    for (int y = 0; y < Ht; y++) { for (int x = 0; x < W; x++) row[x] = (x + y) / 3; JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1); }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); fclose(f);
    float **im = nullptr; uint16_t h, w;
    CHECK(read_jpeg(&im, "a.jpg", 0.0f, 255.0f, &h, &w) == 0 && h == Ht && w == W);
    for (int y = 0; y < Ht; y++) for (int x = 0; x < W; x++) for (int p = 0; p < 3; p++) CHECK(std::fabs(im[p][y * W + x] - (x + y) / 3) < 4);
    return 0; }'''),
]
SPECS = [s for s in SPECS if not s.get('skip')]
