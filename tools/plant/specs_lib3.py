from specs_lib import H, CONV
FCCHK = r'''
static int fc(unsigned rows, unsigned w, unsigned n, bool mm) {
    Tensor x(rows, w), k(mm ? w : n, mm ? n : w), b(n), y(rows, n);
    fill(x), fill(k, 3), fill(b, 1);
    FullyConnected l("f", 0, pico_cnn::op_type::Gemm, &k, &b);
    MatMul m("m", 0, pico_cnn::op_type::MatMul, &k);
    if (mm) m.run(&x, &y); else l.run(&x, &y);
    for (unsigned r = 0; r < rows; r++) for (unsigned o = 0; o < n; o++) {
        double s = mm ? 0 : b.data_[o], g = std::fabs(s);
        for (unsigned j = 0; j < w; j++) { double t = (double) x.data_[r * w + j] * k.data_[mm ? j * n + o : o * w + j]; s += t; g += std::fabs(t); }
        if (std::fabs(s - y.data_[r * n + o]) > 1e-7 * (w + 5) * g) { printf("%u x %u -> %u: element %u,%u\n", rows, w, n, r, o); return 1; }
    }
    return 0;
}
'''
SPECS = [
 dict(id='fc-width-16bit', property='C05',
      needs='a fully connected layer with more than 65535 inputs',
      breaks='the number of inputs is kept in sixteen bits, so most of them are ignored and the rows are misaddressed',
      edits=[('pico-cnn/layers/fully_connected.cpp', '            uint32_t input_width = input->width();\n            uint32_t kernel_width', '            uint16_t input_width = input->width();\n            uint32_t kernel_width')],
      cpp=H + FCCHK + r'''int main() {
    CHECK(fc(1, 10, 3, false) == 0 && fc(2, 4096, 2, false) == 0 && fc(1, 65600, 2, false) == 0);
    return 0; }'''),
 dict(id='conv-depthwise-multiplier', property='C01',
      needs='a depthwise convolution with several output channels per input channel',
      breaks='a depthwise output channel reads the input channel of the same number instead of its group\'s',
      edits=[('pico-cnn/layers/convolution.cpp', '''                                     input->access(0, input_channel, channel_row-height_crop+kernel_row, channel_col-width_crop+kernel_col,
                                                   num_input_channels, input_height, input_width);
//''', '''                                     input->access(0, num_kernel_channels == 1 ? MIN(output_channel, num_input_channels-1) : input_channel,
                                                   channel_row-height_crop+kernel_row, channel_col-width_crop+kernel_col,
                                                   num_input_channels, input_height, input_width);
//''')],
      cpp=H + CONV + r'''int main() {
    unsigned p[4] = {1, 1, 1, 1}, s[2] = {1, 1};
    CHECK(conv_check(4, 4, 4, 5, 5, 3, 3, p, s, true) == 0);
    CHECK(conv_check(2, 6, 2, 5, 5, 3, 3, p, s, false) == 0);
    return 0; }'''),
 dict(id='conv-1d-long', property='C01',
      needs='a 1D convolution over an input of more than 65535 values',
      breaks='the position is kept in sixteen bits, so the loop starts over',
      edits=[('pico-cnn/layers/convolution.cpp', '''            uint32_t width_crop = kernel_width/2;

            uint32_t stride_width = stride_[0];

            fp_t pixel;

            uint32_t output_channel_col = 0;

            for(channel_col = width_crop; channel_col < input_width - width_crop; channel_col += stride_width) {''',
'''            uint32_t width_crop = kernel_width/2;

            uint32_t stride_width = stride_[0];

            fp_t pixel;

            uint32_t output_channel_col = 0;
            const uint16_t last_col = input_width - width_crop;

            for(channel_col = width_crop; channel_col < last_col; channel_col += stride_width) {''')],
      cpp=H + r'''int main() {
    unsigned ws[] = {5, 300, 65534, 65536, 70000};
    for (unsigned w : ws) {
        Tensor x(1, 1, w), k(1, 1, 3), y(1, 1, w - 2);
        fill(x), fill(k, 5);
        unsigned p[2] = {0, 0}, s[1] = {1};
        Convolution l("c", 0, pico_cnn::op_type::Conv, &k, nullptr, p, s, 1);
        l.run(&x, &y);
        for (unsigned i = 0; i + 2 < w; i++) CHECK(std::fabs(y.data_[i] - (x.data_[i] * k.data_[0] + x.data_[i + 1] * k.data_[1] + x.data_[i + 2] * k.data_[2])) < 1e-4);
    }
    return 0; }'''),
 dict(id='maxpool-2d-kernel-width', property='C02', skip=True,
      needs='2D max pooling with a kernel that is wider than high and a maximum in the right part of a window',
      breaks='the window ends after as many columns as the kernel has rows',
      edits=[('pico-cnn/layers/pooling/max_pooling.cpp', '''kernel_column < channel_column + kernel_size_[1] &&
                                 kernel_column < width; kernel_column++) {''', '''kernel_column < channel_column + MIN(kernel_size_[0], kernel_size_[1]) &&
                                 kernel_column < width; kernel_column++) {''')],
      cpp=H + r'''int main() {
    for (unsigned kw = 1; kw < 4; kw++) for (unsigned kh = 1; kh < 4; kh++) {
        Tensor x(1, 2, 6, 6), y(1, 2, 7 - kh, 7 - kw);
        fill(x);
        unsigned k[2] = {kh, kw}, s[2] = {1, 1};
        MaxPooling l("p", 0, pico_cnn::op_type::MaxPool, k, s, nullptr);
        l.run(&x, &y);
        for (unsigned c = 0; c < 2; c++) for (unsigned r = 0; r < 7 - kh; r++) for (unsigned q = 0; q < 7 - kw; q++) {
            float m = -1e30;
            for (unsigned a = 0; a < kh; a++) for (unsigned e = 0; e < kw; e++) m = std::fmax(m, x.data_[(c * 6 + r + a) * 6 + q + e]);
            CHECK(y.data_[(c * (7 - kh) + r) * (7 - kw) + q] == m);
        }
    }
    return 0; }'''),
 dict(id='maxpool-start-zero', property='C02',
      needs='2D max pooling in several batches of a window with negative values only',
      breaks='the maximum of all windows but those of the first batch starts from zero',
      edits=[('pico-cnn/layers/pooling/max_pooling.cpp', '''                        pixel = input->access(batch, channel, channel_row, channel_column,
                                              num_channels, height, width);
''', '''                        pixel = batch ? 0 : input->access(batch, channel, channel_row, channel_column,
                                                          num_channels, height, width);
''')],
      cpp=H + r'''int main() {
    Tensor x(2, 1, 2, 2), y(2, 1, 1, 1);
    for (int i = 0; i < 8; i++) x.data_[i] = -1 - i;
    unsigned k[2] = {2, 2}, s[2] = {1, 1};
    MaxPooling l("p", 0, pico_cnn::op_type::MaxPool, k, s, nullptr);
    l.run(&x, &y);
    CHECK(y.data_[0] == -1 && y.data_[1] == -5);
    return 0; }'''),
 dict(id='avgpool-bottom-right', property='C03',
      needs='2D average pooling with a stride larger than the kernel',
      breaks='the last row of windows is left out if the rest of the input is smaller than the stride',
      edits=[('pico-cnn/layers/pooling/average_pooling.cpp', '        output_channel_height = (height-kernel_size_[0])/stride_[0]+1;', '        output_channel_height = (height-MAX(kernel_size_[0], stride_[0]))/stride_[0]+1;')],
      cpp=H + r'''int main() {
    for (unsigned st = 1; st < 5; st++) {
        unsigned n = (7 - 2) / st + 1;
        Tensor x(1, 1, 7, 7), y(1, 1, n, n);
        fill(x);
        for (unsigned i = 0; i < n * n; i++) y.data_[i] = 77;
        unsigned k[2] = {2, 2}, s[2] = {st, st}, p[4] = {0, 0, 0, 0};
        AveragePooling l("p", 0, pico_cnn::op_type::AveragePool, k, s, p, true);
        l.run(&x, &y);
        for (unsigned r = 0; r < n; r++) for (unsigned c = 0; c < n; c++) {
            float *q = x.data_ + r * st * 7 + c * st;
            CHECK(std::fabs(y.data_[r * n + c] - (q[0] + q[1] + q[7] + q[8]) / 4) < 1e-5);
        }
    }
    return 0; }'''),
 dict(id='globalavg-running-mean', property='C04',
      needs='global average pooling in 2D of a channel with more than 65535 values',
      breaks='the number of values is computed in sixteen bits',
      edits=[('pico-cnn/layers/pooling/global_average_pooling.cpp', '''                output->access(batch, channel, 0, 0, num_channels, output_height, output_width) = global_sum / (fp_t)(height*width);''',
              '''                output->access(batch, channel, 0, 0, num_channels, output_height, output_width) = global_sum / (fp_t)(uint16_t)(height*width);''')],
      cpp=H + r'''int main() {
    unsigned d[] = {1, 7, 100, 300};
    for (unsigned n : d) {
        Tensor x(1, 1, n, n), y(1, 1, 1, 1);
        for (unsigned i = 0; i < n * n; i++) x.data_[i] = i % 2 ? 1 : 3;
        GlobalAveragePooling l("p", 0, pico_cnn::op_type::GlobalAveragePool, nullptr, nullptr, nullptr);
        l.run(&x, &y);
        CHECK(y.data_[0] >= 1.9 && y.data_[0] <= 3);
    }
    return 0; }'''),
 dict(id='matmul-symmetric', property='C05', skip=True,
      needs='a matrix product of several rows with a weight matrix that is not square',
      breaks='rows of the input are addressed with the width of the weights',
      edits=[('pico-cnn/layers/fully_connected.cpp', '                        pixel += input->access(row, j, input_width) * weights_->access(j, i, weights_width);',
              '                        pixel += input->access(row, j, row ? MIN(input_width, weights_width) : input_width) * weights_->access(j, i, weights_width);')],
      cpp=H + FCCHK + r'''int main() {
    CHECK(fc(1, 5, 3, true) == 0 && fc(3, 4, 4, true) == 0 && fc(3, 3, 5, true) == 0 && fc(3, 5, 3, true) == 0);
    return 0; }'''),
 dict(id='batchnorm-folded', property='C06',
      needs='batch normalization of 2D data with more than eight channels',
      breaks='scale and shift are folded into one factor and one offset, from the ninth channel on the offset lacks the mean',
      edits=[('pico-cnn/layers/batch_normalization.cpp', '    fp_t variance = variances_->access(channel);\n', '    fp_t variance = variances_->access(channel);\n\n    const fp_t scale = gamma * (1.0f / sqrtf(variance + epsilon_));\n    const fp_t offset = channel < 8 ? beta - mean * scale : beta;\n'),
             ('pico-cnn/layers/batch_normalization.cpp', '''                        gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /
                        sqrtf(variance + epsilon_) + beta;''', '''                        input->access(0, channel, row, col, num_channels, input_height, input_width) * scale + offset;''')],
      needs2='', cpp=H + r'''int main() {
    Tensor g(12), b(12), m(12), v(12), x(1, 12, 2, 2), y(1, 12, 2, 2);
    fill(x), fill(g, 2), fill(b, 4), fill(m, 6);
    for (int c = 0; c < 12; c++) v.data_[c] = 0.5f + c;
    BatchNormalization l("b", 0, pico_cnn::op_type::BatchNormalization, &g, &b, &m, &v, 1e-3f);
    l.run(&x, &y);
    for (unsigned i = 0; i < 48; i++) {
        unsigned c = i / 4;
        double e = g.data_[c] * (x.data_[i] - m.data_[c]) / std::sqrt(v.data_[c] + 1e-3) + b.data_[c];
        CHECK(std::fabs(y.data_[i] - e) < 1e-3 * (1 + std::fabs(e)));
    }
    return 0; }'''),
 dict(id='sigmoid-overflow', property='C07',
      needs='a sigmoid of a value above 88',
      breaks='the sigmoid is computed from the exponential of the value, which overflows to inf/inf',
      edits=[('pico-cnn/layers/activation_functions/sigmoid.cpp', 'output->access_blob(element) = 1 / (1 + expf(-input->access_blob(element)));',
              'output->access_blob(element) = expf(input->access_blob(element)) / (1 + expf(input->access_blob(element)));')],
      cpp=H + r'''int main() {
    float v[] = {-1000, -100, -5, 0, 5, 87, 100, 1000};
    Tensor x(8), y(8);
    for (int i = 0; i < 8; i++) x.data_[i] = v[i];
    Sigmoid l("s", 0, pico_cnn::op_type::Sigmoid);
    l.run(&x, &y);
    for (int i = 0; i < 8; i++) CHECK(std::fabs(y.data_[i] - 1 / (1 + std::exp(-(double) v[i]))) < 1e-5);
    return 0; }'''),
 dict(id='clip-empty-side', property='C07',
      needs='clipping to a range whose upper bound is zero',
      breaks='an upper bound of zero is taken for "none"',
      edits=[('pico-cnn/layers/activation_functions/clip.cpp', 'else if(input->access_blob(element) > max)', 'else if(max && input->access_blob(element) > max)')],
      cpp=H + r'''int main() {
    float his[] = {1, 0, 6};
    for (float hi : his) {
        Tensor x(9), y(9);
        for (int i = 0; i < 9; i++) x.data_[i] = i - 4;
        Clip l("c", 0, pico_cnn::op_type::Clip, -2, hi);
        l.run(&x, &y);
        for (int i = 0; i < 9; i++) CHECK(y.data_[i] == std::fmin(std::fmax(i - 4, -2), hi));
    }
    return 0; }'''),
 dict(id='softmax-float-sum', property='C08',
      needs='a softmax over several thousand values',
      breaks='the number of values is limited to the 1000 classes of ImageNet, the rest does not enter the sum',
      edits=[('pico-cnn/layers/activation_functions/softmax.cpp', '''            for(uint32_t i = 0; i < num_elements; i++) {
                denominator += expl''', '''            for(uint32_t i = 0; i < MIN(num_elements, 1000); i++) {
                denominator += expl''')],
      cpp=H + r'''int main() {
    unsigned d[] = {3, 1000, 1500};
    for (unsigned n : d) {
        Tensor x(1, n), y(1, n);
        fill(x);
        Softmax l("s", 0, pico_cnn::op_type::Softmax);
        l.run(&x, &y);
        double s = 0;
        for (unsigned i = 0; i < n; i++) s += y.data_[i];
        CHECK(std::fabs(s - 1) < 1e-3);
    }
    return 0; }'''),
 dict(id='lrn-running-sum', property='C09',
      needs='neighbouring channels of very different magnitude',
      breaks='the sum of squares is updated from channel to channel, so the rounding error of large channels remains after they have left the window',
      edits=[('pico-cnn/layers/activation_functions/lrn.cpp', '''                for (int32_t batch = 0; batch < num_batches; batch++) {
                    for (int32_t channel = 0; channel < num_channels; channel++) {
                        from = MAX(0, channel - (n_ / 2));
                        to = MIN(num_channels - 1, channel + (n_ / 2));

                        for (int32_t row = 0; row < height; row++) {
                            for (int32_t column = 0; column < width; column++) {

                                sum = 0.0;

                                for (i = from; i <= to; i++) {
                                    sum += powf(input->access(batch, i, row, column, num_channels, height, width), 2);
                                }
''', '''                for (int32_t batch = 0; batch < num_batches; batch++) {
                    for (int32_t row = 0; row < height; row++) {
                        for (int32_t column = 0; column < width; column++) {

                            sum = 0.0;
                            from = 0;
                            to = -1;

                            for (int32_t channel = 0; channel < num_channels; channel++) {
                                // move the window by one channel
                                for (i = to + 1; i <= MIN(num_channels - 1, channel + (n_ / 2)); i++, to++) {
                                    sum += powf(input->access(batch, i, row, column, num_channels, height, width), 2);
                                }
                                for (; from < channel - (n_ / 2); from++) {
                                    sum -= powf(input->access(batch, from, row, column, num_channels, height, width), 2);
                                }
''')],
      cpp=H + r'''int main() {
    float sets[2][6] = {{1, -2, 3, 0.5f, -1, 2}, {10000, 0.5f, 30000, 0.25f, 0.125f, 2}};
    for (auto &v : sets) {
        Tensor x(1, 6, 1, 1), y(1, 6, 1, 1);
        for (int i = 0; i < 6; i++) x.data_[i] = v[i];
        LRN l("l", 0, pico_cnn::op_type::LRN, 1.0f, 0.75f, 3);
        l.run(&x, &y);
        for (int i = 0; i < 6; i++) {
            double s = 0;
            for (int j = std::max(0, i - 1); j <= std::min(5, i + 1); j++) s += (double) v[j] * v[j];
            double e = v[i] / std::pow(1 + s / 3, 0.75);
            CHECK(std::fabs(y.data_[i] - e) < 1e-4 * std::fabs(e));
        }
    }
    return 0; }'''),
 dict(id='print-matrix-separator', property='C11',
      needs='printing a matrix that is not square',
      breaks='the last element of a row is recognised by the number of rows, so separators are missing or misplaced',
      edits=[('pico-cnn/tensor.cpp', '''                    for (uint32_t col = 0; col < width; col++) {

                        out << channel_ptr[row*width + col];
                        if (col != width-1)
                            out << ", ";
                    }

                    if (row == height-1)
                        out << "]";
                    else
                        out << "]" << std::endl;
                }

                out << "]";''', '''                    for (uint32_t col = 0; col < width; col++) {

                        out << channel_ptr[row*width + col];
                        if (col != height-1)
                            out << ", ";
                    }

                    if (row == height-1)
                        out << "]";
                    else
                        out << "]" << std::endl;
                }

                out << "]";''')],
      cpp=H + r'''#include <sstream>
int main() {
    for (unsigned h = 1; h < 5; h++) for (unsigned w = 1; w < 5; w++) {
        Tensor t(h, w);
        for (unsigned i = 0; i < h * w; i++) t.data_[i] = 1 + i;
        std::ostringstream o; o << t;
        std::string s = o.str().substr(o.str().find("data:") + 5);
        for (char &c : s) if (strchr("[],", c)) c = ' ';
        std::istringstream r(s);
        unsigned n = 0, x;
        while (r >> x) CHECK(x == ++n);
        CHECK(n == h * w);
    }
    return 0; }'''),
 dict(id='tensor-equal-early', property='C11',
      needs='tensors that differ in more than one element, the last of them too',
      breaks='only the last difference of every channel decides, so a tensor whose last value agrees is equal to others',
      edits=None, skip=True),
 dict(id='padding-narrow-3d', property='C12',
      needs='padding a 1D signal with several batches on the left',
      breaks='in all batches but the first the values are placed at the right instead of the left padding',
      edits=[('pico-cnn/tensor.cpp', 'std::memcpy((extended_channel_ptr + padding[0]), channel_ptr, width * sizeof(fp_t));', 'std::memcpy((extended_channel_ptr + padding[batch ? 1 : 0]), channel_ptr, width * sizeof(fp_t));')],
      cpp=H + r'''int main() {
    Tensor x(2, 2, 3);
    fill(x);
    unsigned p[2] = {2, 1};
    Tensor *y = x.expand_with_padding(p, -9.0f);
    for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 6; j++)
        CHECK(y->data_[i * 6 + j] == (j < 2 || j > 4 ? -9.0f : x.data_[i * 3 + j - 2]));
    return 0; }'''),
 dict(id='concat-many-inputs', property='C13', skip=True,
      needs='a concatenation in which the same tensor appears twice in a row',
      breaks='an input equal to its predecessor is not copied, its channels keep what the output held before',
      edits=[('pico-cnn/tensor.cpp', '                    Tensor *input = inputs[input_id];\n', '                    Tensor *input = inputs[input_id];\n                    const bool first = input_id == 0 || input != inputs[input_id-1];\n'),
             ('pico-cnn/tensor.cpp', '                    for (uint32_t batch = 0; batch < num_batches; batch++) {\n                        std::memcpy(data_ + batch * output_batch_size', '                    for (uint32_t batch = 0; first && batch < num_batches; batch++) {\n                        std::memcpy(data_ + batch * output_batch_size')],
      cpp=H + r'''int main() {
    Tensor a(1, 2, 1, 2), b(1, 1, 1, 2);
    fill(a), fill(b, 6);
    Tensor *l[3][3] = {{&a, &b, &a}, {&b, &a, &a}, {&a, &a, &b}};
    for (auto &in : l) {
        Tensor y(1, 5, 1, 2);
        for (int i = 0; i < 10; i++) y.data_[i] = 55;
        y.concatenate_from(3, in, 1);
        unsigned o = 0;
        for (Tensor *t : in) for (unsigned i = 0; i < t->num_elements(); i++) CHECK(y.data_[o++] == t->data_[i]);
    }
    return 0; }'''),
 dict(id='concat-skip-large', property='C13',
      needs='a concatenation with 256 or more inputs',
      breaks='the number of inputs is counted in eight bits',
      edits=[('pico-cnn/tensor.cpp', 'for(uint32_t input_id = 0; input_id < num_inputs; input_id++){', 'for(uint32_t input_id = 0; input_id < (uint8_t) num_inputs; input_id++){')],
      cpp=H + r'''int main() {
    unsigned ns[] = {2, 200, 300};
    for (unsigned n : ns) {
        Tensor y(1, n, 1, 1);
        std::vector<Tensor *> v;
        for (unsigned i = 0; i < n; i++) { v.push_back(new Tensor(1, 1, 1, 1)); v[i]->data_[0] = i + 1; }
        y.concatenate_from(n, v.data(), 1);
        for (unsigned i = 0; i < n; i++) CHECK(y.data_[i] == i + 1);
    }
    return 0; }'''),
 dict(id='weights-kernel-limit', property='C14',
      needs='a convolution kernel with more than 255 output channels',
      breaks='output channels are counted in eight bits',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '                    for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {', '                    for (uint32_t out_ch = 0; out_ch < (uint8_t) (num_output_channels - 1) + 1u; out_ch++) {')],
      cpp=H + r'''int main() {
    unsigned ns[] = {1, 3, 256, 300};
    for (unsigned n : ns) {
        FILE *f = fopen("w.bin", "wb");
        fputs("FD\nnet\n", f);
        put32(f, 1);
        fputs("c\nConv\n", f);
        put32(f, n); put32(f, 2); put32(f, 1); put32(f, 1);
        for (unsigned i = 0; i < 2 * n; i++) { float v = i + 1; fwrite(&v, 4, 1, f); }
        put32(f, 0);
        fputs("end\n", f);
        fclose(f);
        Tensor k0(n, 2, 1, 1);
        Tensor *k[1] = {&k0}, *b[1] = {nullptr}, **pk = k, **pb = b;
        CHECK(read_binary_weights("w.bin", &pk, &pb) == 0);
        for (unsigned i = 0; i < 2 * n; i++) CHECK(k0.data_[i] == i + 1);
    }
    return 0; }'''),
 dict(id='weights-binary-text', property='C14',
      needs='a network or layer name which begins with a blank',
      breaks='', edits=None, skip=True),
 dict(id='reference-input-channels', property='C16',
      needs='reference input data of several channels with more rows than columns',
      breaks='', edits=None, skip=True),
 dict(id='mnist-label-signed', property='C17',
      needs='a label file in which a label above 127 occurs',
      breaks='', edits=None, skip=True),
 dict(id='pgm-reads-padding', property='C18',
      needs='reading a grey map with padding that is higher than wide',
      breaks='the right border begins too early or too late as the height decides about it',
      edits=[('pico-cnn/io/read_pgm.cpp', '} else if(column < padding || column >= (*width)+padding) {', '} else if(column < padding || column >= (padding ? *width+padding : *height+padding)) {')],
      cpp=H + r'''int main() {
    int hs[] = {3, 5, 2}, ws[] = {3, 4, 6};
    for (int k = 0; k < 3; k++) for (int p = 0; p < 3; p++) {
        int h = hs[k], w = ws[k];
        FILE *f = fopen("a.pgm", "wb");
        fprintf(f, "P5\n# c\n%d %d\n255\n", w, h);
        for (int i = 0; i < h * w; i++) fputc(40 + i, f);
        fclose(f);
        float *im; uint16_t rh, rw;
        CHECK(read_pgm(&im, "a.pgm", p, 0.0f, 255.0f, &rh, &rw) == 0);
        for (int r = 0; r < h; r++) for (int c = 0; c < w; c++) CHECK(std::fabs(im[(r + p) * (w + 2 * p) + c + p] - (40 + r * w + c)) < 1e-3);
    }
    return 0; }'''),
 dict(id='jpeg-two-components', property='C20',
      needs='a JPEG image whose width is not a multiple of eight',
      breaks='', edits=None, skip=True),
 dict(id='means-narrow-line', property='C19',
      needs='a means file with a mean written in more digits than usual',
      breaks='', edits=None, skip=True),
]
SPECS = [s for s in SPECS if not s.get('skip')]
