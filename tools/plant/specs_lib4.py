from specs_lib import H, CONV
from specs_lib3 import FCCHK

SPECS = [
 dict(id='conv-pointwise-stride', property='C01',
      needs='a 1x1 convolution whose vertical and horizontal strides differ',
      breaks='a fast path for 1x1 kernels steps with the horizontal stride in both directions',
      edits=[('pico-cnn/layers/convolution.cpp', '''            fp_t pixel;

            uint32_t output_channel_row = 0;
            uint32_t output_channel_col = 0;
''', '''            fp_t pixel = 0.0;

            uint32_t output_channel_row = 0;
            uint32_t output_channel_col = 0;

            if (kernel_height * kernel_width == 1) {
                // pointwise convolution: a single weight for the whole channel
                const fp_t weight = kernel_->access(output_channel, cnt, 0, 0, num_kernel_channels, 1, 1);
                const fp_t offset = (cnt == 0 && bias_) ? bias_->access(output_channel) : 0;
                for (uint32_t row = 0; row < output_height; row++) {
                    for (uint32_t col = 0; col < output_width; col++) {
                        output->access(0, output_channel, row, col, num_output_channels, output_height, output_width) =
                                weight * input->access(0, input_channel, MIN(row*stride_width, input_height-1), col*stride_width,
                                                       num_input_channels, input_height, input_width) + offset;
                    }
                }
                return;
            }
''')],
      cpp=H + CONV + r'''int main() {
    unsigned p[4] = {0, 0, 0, 0}, s[2] = {1, 1}, t[2] = {2, 2}, a[2] = {1, 2}, b[2] = {3, 1};
    CHECK(conv_check(3, 4, 1, 5, 5, 1, 1, p, s, true) == 0);
    CHECK(conv_check(2, 2, 1, 6, 7, 1, 1, p, t, false) == 0);
    CHECK(conv_check(2, 2, 1, 6, 7, 1, 1, p, a, true) == 0);
    CHECK(conv_check(2, 2, 1, 6, 7, 1, 1, p, b, true) == 0);
    return 0; }'''),
 dict(id='conv-scratch-shared', property='C10',
      needs='two convolutions in one process, a later one with fewer output elements but another shape than an earlier one',
      breaks='the scratch tensor is kept between runs and shared by all layers, so the channels added up come from the offsets of an earlier shape',
      edits=[('pico-cnn/layers/convolution.cpp', '''            auto *tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);
''', '''            // kept for the next run, it only has to be replaced if it is too small
            static Tensor *tmp_tensor = nullptr;
            if (tmp_tensor == nullptr || tmp_tensor->num_elements() < output->num_elements()) {
                delete tmp_tensor;
                tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);
            }
'''), ('pico-cnn/layers/convolution.cpp', '''            delete tmp_tensor;

''', '')],
      cpp=H + CONV + r'''int main() {
    unsigned p[4] = {0, 0, 0, 0}, s[2] = {1, 1};
    CHECK(conv_check(2, 2, 1, 4, 4, 3, 3, p, s, false) == 0);
    CHECK(conv_check(2, 3, 1, 6, 6, 3, 3, p, s, false) == 0);
    CHECK(conv_check(2, 4, 1, 4, 4, 3, 3, p, s, false) == 0);
    return 0; }'''),
 dict(id='maxpool-1d-batch', property='C02',
      needs='a 1D max pooling over several batches',
      breaks='the candidates of every window come from the first batch',
      edits=[('pico-cnn/layers/pooling/max_pooling.cpp', '''candidate = input->access(batch, channel, kernel_column, num_channels, width);''',
              '''candidate = input->access_blob(channel*width + kernel_column);''')],
      cpp=H + r'''int main() {
    for (unsigned n = 1; n < 3; n++) {
        Tensor x(n, 2, 6), y(n, 2, 3);
        fill(x);
        unsigned k[2] = {2, 0}, s[2] = {2, 0};
        MaxPooling l("p", 0, pico_cnn::op_type::MaxPool, k, s, nullptr);
        l.run(&x, &y);
        for (unsigned i = 0; i < n * 6; i++) CHECK(y.data_[i] == fmaxf(x.data_[2 * i], x.data_[2 * i + 1]));
    }
    return 0; }'''),
 dict(id='avgpool-large-window', property='C03',
      needs='an average pooling window of more than 255 elements',
      breaks='the number of elements in the window is kept in eight bits',
      edits=[('pico-cnn/layers/pooling/average_pooling.cpp', '''                            output->access(batch, channel, output_channel_row, output_channel_column,
                                           num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
''', '''                            const uint8_t num_elements = kernel_size_[0] * kernel_size_[1];
                            output->access(batch, channel, output_channel_row, output_channel_column,
                                           num_channels, output_height, output_width) = pixel / ((fp_t) num_elements);
''')],
      cpp=H + r'''int main() {
    for (unsigned n = 2; n < 21; n += 3) {
        Tensor x(1, 1, n, n), y(1, 1, 1, 1);
        double s = 0;
        for (unsigned i = 0; i < n * n; i++) s += x.data_[i] = (float) (i % 7);
        unsigned k[2] = {n, n}, st[2] = {1, 1};
        AveragePooling l("p", 0, pico_cnn::op_type::AveragePool, k, st, nullptr, true);
        l.run(&x, &y);
        CHECK(std::fabs(y.data_[0] - s / (n * n)) < 1e-3);
    }
    return 0; }'''),
 dict(id='batchnorm-epsilon-outside', property='C06',
      needs='a variance in the order of epsilon',
      breaks='epsilon is added to the standard deviation instead of the variance',
      edits=[('pico-cnn/layers/batch_normalization.cpp', '''                output->access(0, channel, row, col, num_channels, input_height, input_width) =
                        gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /
                        sqrtf(variance + epsilon_) + beta;''', '''                output->access(0, channel, row, col, num_channels, input_height, input_width) =
                        gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /
                        (sqrtf(variance) + epsilon_) + beta;''')],
      cpp=H + r'''int main() {
    Tensor x(1, 2, 2, 2), y(1, 2, 2, 2), g(2), b(2), m(2), v(2);
    fill(x), fill(g, 3), fill(b, 5), fill(m, 7);
    v.data_[0] = 1, v.data_[1] = 1e-4f;
    BatchNormalization l("b", 0, pico_cnn::op_type::BatchNormalization, &g, &b, &m, &v, 1e-3f);
    l.run(&x, &y);
    for (unsigned i = 0; i < 8; i++) {
        double e = g.data_[i / 4] * ((double) x.data_[i] - m.data_[i / 4]) / std::sqrt((double) v.data_[i / 4] + 1e-3f) + b.data_[i / 4];
        CHECK(std::fabs(y.data_[i] - e) < 1e-3 * (1 + std::fabs(e)));
    }
    return 0; }'''),
 dict(id='tanh-quotient', property='C07',
      needs='an input of the hyperbolic tangent above 44',
      breaks='computed as a quotient of exponentials, which overflow to infinity divided by infinity',
      edits=[('pico-cnn/layers/activation_functions/tan_h.cpp', 'tanhf(input->access_blob(i))',
              '(expf(2*input->access_blob(i)) - 1) / (expf(2*input->access_blob(i)) + 1)')],
      cpp=H + r'''int main() {
    Tensor x(6), y(6);
    float v[6] = {0, 1, -2, 10, -50, 60};
    for (int i = 0; i < 6; i++) x.data_[i] = v[i];
    TanH l("t", 0, pico_cnn::op_type::TanH);
    l.run(&x, &y);
    for (int i = 0; i < 6; i++) CHECK(std::fabs(y.data_[i] - std::tanh(v[i])) < 1e-4);
    return 0; }'''),
 dict(id='prelu-channel-slope', property='C07',
      needs='a parameterized ReLU whose slopes differ within a channel of a four-dimensional tensor',
      breaks='one slope per channel is used',
      edits=[('pico-cnn/layers/activation_functions/relu.cpp', '''                output->access_blob(i) = (input->access_blob(i) < 0.0) ?
                        (slope_->access_blob(i) * input->access_blob(i)) : input->access_blob(i);''',
'''                // elements of the same channel share their slope
                const uint32_t first = input->num_dimensions() == 4 ? i - i % (input->height() * input->width()) : i;
                output->access_blob(i) = (input->access_blob(i) < 0.0) ?
                        (slope_->access_blob(first) * input->access_blob(i)) : input->access_blob(i);''')],
      cpp=H + r'''int main() {
    Tensor x(1, 2, 3, 3), s(1, 2, 3, 3), y(1, 2, 3, 3), x2(2, 5), s2(2, 5), y2(2, 5);
    fill(x), fill(s, 3), fill(x2), fill(s2, 7);
    ParameterizedReLU l("p", 0, pico_cnn::op_type::ParamReLU, &s), l2("p", 0, pico_cnn::op_type::ParamReLU, &s2);
    l2.run(&x2, &y2);
    for (unsigned i = 0; i < 10; i++) CHECK(y2.data_[i] == (x2.data_[i] < 0 ? s2.data_[i] * x2.data_[i] : x2.data_[i]));
    l.run(&x, &y);
    for (unsigned i = 0; i < 18; i++) CHECK(y.data_[i] == (x.data_[i] < 0 ? s.data_[i] * x.data_[i] : x.data_[i]));
    return 0; }'''),
 dict(id='lrn-lower-edge', property='C09',
      needs='a local response normalization whose window is more than twice as wide as the number of channels',
      breaks='the lower end of the window is kept as an unsigned byte difference and wraps instead of being clamped',
      edits=[('pico-cnn/layers/activation_functions/lrn.cpp', 'from = MAX(0, channel - (n_ / 2));',
              'from = MAX(0, (int8_t) (channel - (n_ / 2)));')],
      cpp=H + r'''int main() {
    unsigned ns[] = {1, 3, 5, 9, 301};
    for (unsigned n : ns) {
        Tensor x(1, 4, 2, 2), y(1, 4, 2, 2);
        fill(x);
        LRN l("l", 0, pico_cnn::op_type::LRN, 0.5f, 0.75f, (uint16_t) n);
        l.run(&x, &y);
        for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) {
            double s = 0;
            for (int d = std::max(0, c - (int) n / 2); d <= std::min(3, c + (int) n / 2); d++) s += (double) x.data_[d * 4 + i] * x.data_[d * 4 + i];
            CHECK(std::fabs(y.data_[c * 4 + i] - x.data_[c * 4 + i] / std::pow(1 + 0.5 / n * s, 0.75)) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='globalavg-batch', property='C04',
      needs='a global average pooling over several batches',
      breaks='the channel is located without its batch',
      edits=[],
      skip=True, cpp=''),
 dict(id='tensor-pointer-3d', property='C11',
      needs='a three-dimensional tensor of several batches and channels',
      breaks='the channel pointer skips one channel per batch instead of all of them',
      edits=[('pico-cnn/tensor.cpp', 'return data_ + (x0*shape_[1]*shape_[2]) + (x1*shape_[2]);', 'return data_ + (x0 + x1)*shape_[2];')],
      cpp=H + r'''int main() {
    Tensor x(2, 3, 4);
    for (unsigned b = 0; b < 2; b++) for (unsigned c = 0; c < 3; c++) CHECK(x.get_ptr_to_channel(b, c) == &x.access(b, c, 0, 3, 4));
    return 0; }'''),
 dict(id='tensor-size-bytes', property='C11',
      needs='a tensor copied into one with the same number of elements but another rank',
      breaks='only as many rows as the destination has are copied',
      edits=[('pico-cnn/tensor.cpp', '                std::memcpy(dest->data_, this->data_, size_bytes());',
              '                std::memcpy(dest->data_, this->data_, (dest->num_dimensions_ == 1 ? dest->shape_[0] : this->num_elements_ / this->shape_[0] * MIN(this->shape_[0], dest->shape_[0])) * sizeof(fp_t));')],
      cpp=H + r'''int main() {
    Tensor a(4, 6), b(4, 6), c(24), d(2, 12), e(1, 4, 2, 3);
    fill(a);
    a.copy_data_into(&b), a.copy_data_into(&c), e.copy_data_into(&c), a.copy_data_into(&c), a.copy_data_into(&d), a.copy_data_into(&e);
    for (unsigned i = 0; i < 24; i++) CHECK(b.data_[i] == a.data_[i] && c.data_[i] == a.data_[i] && d.data_[i] == a.data_[i] && e.data_[i] == a.data_[i]);
    return 0; }'''),
 dict(id='weights-conv1d-row', property='C14',
      needs='a one-dimensional convolution kernel in a weights file',
      breaks='kernels of one dimension are placed without their output channel offset',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '''                            std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(out_ch, in_ch),
                                        values, kernel_height*kernel_width*sizeof(fp_t));
''', '''                            std::memcpy(kernel_height == 1 && num_input_channels == 1 ? &(*kernels)[kernel_idx]->access_blob(out_ch)
                                        : (*kernels)[kernel_idx]->get_ptr_to_channel(out_ch, in_ch),
                                        values, kernel_height*kernel_width*sizeof(fp_t));
''')],
      cpp=H + r'''static int once(unsigned o, unsigned i, unsigned w) {
    FILE *f = fopen("w.bin", "wb");
    fputs("FD\nnet\n", f); put32(f, 1); fputs("c\nConv\n", f);
    put32(f, o), put32(f, i), put32(f, 1), put32(f, w);
    Tensor t(o, i, w), k(o, i, w);
    fill(t);
    fwrite(t.data_, 4, o * i * w, f); put32(f, 0); fputs("end\n", f); fclose(f);
    Tensor *ks[1] = {&k}, **kp = ks, **bp = nullptr;
    CHECK(read_binary_weights("w.bin", &kp, &bp) == 0);
    CHECK(memcmp(t.data_, k.data_, 4 * o * i * w) == 0);
    return 0;
}
int main() {
    CHECK(once(2, 3, 3) == 0 && once(3, 1, 1) == 0 && once(3, 1, 3) == 0);
    return 0; }'''),
 dict(id='reference-flat-input', property='C16',
      needs='a reference input of height one for a tensor of a greater height',
      breaks='a height of one is taken for a one-dimensional input and accepted, only the first row is set',
      edits=[('pico-cnn/io/read_binary_reference_data.cpp', '            if (height != (*input_tensor)->height()) {', '            if (height != 1 && height != (*input_tensor)->height()) {')],
      cpp=H + r'''int main() {
    for (unsigned h = 1; h < 4; h++) {
        FILE *f = fopen("i.data", "wb");
        fputs("FCI\n", f); put32(f, 1), put32(f, 2), put32(f, h), put32(f, 3);
        for (unsigned i = 0; i < 6 * h; i++) { float v = val(i); fwrite(&v, 4, 1, f); }
        fputs("end\n", f); fclose(f);
        Tensor t(1, 2, 3, 3), *p = &t;
        CHECK((read_binary_reference_input_data("i.data", &p) == 0) == (h == 3));
    }
    return 0; }'''),
 dict(id='mnist-border-rows', property='C17',
      needs='an MNIST file with images that are not square, read with padding',
      breaks='the bottom border starts at the width of the image',
      edits=[('pico-cnn/io/read_mnist.cpp', 'if(row < padding || row >= height+padding) {', 'if(row < padding || row >= width+padding) {')],
      cpp=H + r'''static int once(unsigned h, unsigned w, unsigned p) {
    FILE *f = fopen("m", "wb");
    put32be(f, 2051), put32be(f, 1), put32be(f, h), put32be(f, w);
    for (unsigned i = 0; i < h * w; i++) fputc((i * 7 + 1) & 255, f);
    fclose(f);
    fp_t **im;
    CHECK(read_mnist_images("m", &im, 1, p, 0, 1) == 1);
    for (unsigned r = 0; r < h; r++) for (unsigned c = 0; c < w; c++) CHECK(std::fabs(im[0][(r + p) * (w + 2 * p) + c + p] - ((r * w + c) * 7 + 1 & 255) / 255.0f) < 1e-6);
    for (unsigned c = 0; c < w + 2 * p; c++) CHECK(p == 0 || im[0][(h + 2 * p - 1) * (w + 2 * p) + c] == 0);
    return 0;
}
int main() { CHECK(once(4, 4, 2) == 0 && once(5, 3, 0) == 0 && once(5, 5, 0) == 0 && once(6, 3, 1) == 0); return 0; }'''),
 dict(id='pgm-read-stride', property='C18',
      needs='a grey map that is not square, read with padding',
      breaks='the rows of the padded image are as long as the image is high',
      edits=[('pico-cnn/io/read_pgm.cpp', '(*image)[row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);',
              '(*image)[row*((padding ? *height : *width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);')],
      cpp=H + r'''static int once(unsigned h, unsigned w, unsigned p) {
    FILE *f = fopen("m.pgm", "wb");
    fprintf(f, "P5\n%u %u\n255\n", w, h);
    for (unsigned i = 0; i < h * w; i++) fputc((i * 7 + 1) & 255, f);
    fclose(f);
    fp_t *im; uint16_t ph, pw;
    CHECK(read_pgm(&im, "m.pgm", p, 0, 1, &ph, &pw) == 0);
    for (unsigned r = 0; r < h; r++) for (unsigned c = 0; c < w; c++) CHECK(std::fabs(im[(r + p) * (w + 2 * p) + c + p] - ((r * w + c) * 7 + 1 & 255) / 255.0f) < 1e-6);
    return 0;
}
int main() { CHECK(once(4, 4, 2) == 0 && once(3, 5, 0) == 0 && once(2, 6, 1) == 0); return 0; }'''),
 dict(id='labels-16bit', property='C19',
      needs='a validation label above 65535 (the property covers every label)',
      breaks='the label is cut to sixteen bits',
      edits=[('pico-cnn/io/read_imagenet_validation_labels.cpp', '(uint32_t) atoi', '(uint16_t) atoi')],
      cpp=H + r'''int main() {
    FILE *f = fopen("l", "w");
    fputs("ILSVRC2012_val_00000001.JPEG 65\nILSVRC2012_val_00000002.JPEG 70000\n", f); fclose(f);
    uint32_t *l;
    read_imagenet_validation_labels("l", &l, 2);
    CHECK(l[1] == 65 && l[2] == 70000);
    return 0; }'''),
 dict(id='means-decimal', property='C19',
      needs='a means file whose values use the exponent of the hexadecimal form with many digits',
      breaks='the value is read through a narrow field',
      edits=[('pico-cnn/io/read_means.cpp', '"%a\\n"', '"%12a\\n"')],
      cpp=H + r'''int main() {
    float v[3] = {104.00699f, -1.5f, 0.1f}, m[3];
    FILE *f = fopen("m", "w"); fputs("FD\n", f);
    for (float x : v) fprintf(f, "%a\n", x);
    fclose(f);
    CHECK(read_means("m", m) == 0 && m[0] == v[0] && m[1] == v[1] && m[2] == v[2]);
    return 0; }'''),
 dict(id='jpeg-range-negative', property='C20',
      needs='a JPEG image scaled to a range that does not start at zero',
      breaks='the lower bound is added before scaling',
      edits=[('pico-cnn/io/read_jpeg.cpp', '''                (*image)[1][pos] = (((g / 255.0f) * range) + lower_bound);
                (*image)[0][pos] = (((b / 255.0f) * range) + lower_bound);

''', '''                (*image)[1][pos] = (((g / 255.0f) + lower_bound) * range);
                (*image)[0][pos] = (((b / 255.0f) * range) + lower_bound);

''')],
      cpp=H + r'''#include <jpeglib.h>
int main() {
    FILE *f = fopen("i.jpg", "wb");
    jpeg_compress_struct c; jpeg_error_mgr e;
    c.err = jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_stdio_dest(&c, f);
    c.image_width = 16, c.image_height = 8, c.input_components = 1, c.in_color_space = JCS_GRAYSCALE;
    jpeg_set_defaults(&c); jpeg_set_quality(&c, 95, TRUE); jpeg_start_compress(&c, TRUE);
    unsigned char row[16]; JSAMPROW p = row;
    for (int i = 0; i < 8; i++) { for (int j = 0; j < 16; j++) row[j] = (i * 16 + j) & 255; jpeg_write_scanlines(&c, &p, 1); }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); fclose(f);
    float lo[] = {0, -1}, hi[] = {255, 1};
    for (int k = 0; k < 2; k++) {
        fp_t **im; uint16_t h, w;
        CHECK(read_jpeg(&im, "i.jpg", lo[k], hi[k], &h, &w) == 0 && h == 8 && w == 16);
        for (int i = 0; i < 128; i++) CHECK(std::fabs(im[1][i] - im[0][i]) < 1e-4);
    }
    return 0; }'''),
 dict(id='concat-first-batch', property='C13',
      needs='a concatenation of at least two batches', skip=True, edits=[], breaks='', cpp=''),
 dict(id='fc-odd-inputs', property='C05',
      needs='a matrix multiplication over more than 512 inputs that are no multiple of four',
      breaks='the unrolled loop for large inputs forgets the remaining inputs',
      edits=[('pico-cnn/layers/fully_connected.cpp', '''                    for (uint32_t j = 0; j < input_width; j++) {
                        // TODO: Improve performance''', '''                    const uint32_t used_width = input_width > 512 ? input_width - input_width % 4 : input_width;
                    for (uint32_t j = 0; j < used_width; j++) {
                        // TODO: Improve performance''')],
      cpp=H + FCCHK + r'''int main() {
    CHECK(fc(1, 10, 3, true) == 0 && fc(2, 511, 2, true) == 0 && fc(1, 1024, 2, true) == 0 && fc(1, 1027, 2, true) == 0);
    return 0; }'''),
]
