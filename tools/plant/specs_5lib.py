from specs_lib import H, CONV
from specs_lib3 import FCCHK

SPECS = [
 dict(id='conv-end-padding-dropped', property='C01',
      needs='a convolution which is padded only at the bottom or on the right',
      breaks='the padding is dropped if there is none at the top and on the left',
      edits=[('pico-cnn/layers/convolution.cpp', '''            if (padding) {
                padding_ = new uint32_t[4]();
''', '''            // nothing to do if there is no border
            if (padding && (padding[0] || padding[1])) {
                padding_ = new uint32_t[4]();
'''), ('pico-cnn/layers/convolution.cpp', '''            } else {
                padding_ = padding;
            }
''', '''            } else {
                padding_ = nullptr;
            }
''')],
      cpp=H + CONV + r'''int main() {
    unsigned n[4] = {0, 0, 0, 0}, p[4] = {1, 1, 1, 1}, q[4] = {0, 1, 1, 2}, e[4] = {0, 0, 2, 2}, s[2] = {1, 1};
    CHECK(conv_check(2, 2, 1, 5, 5, 3, 3, n, s, true) == 0);
    CHECK(conv_check(2, 2, 1, 5, 5, 3, 3, p, s, true) == 0);
    CHECK(conv_check(2, 2, 1, 5, 5, 3, 3, q, s, true) == 0);
    CHECK(conv_check(2, 2, 1, 5, 5, 3, 3, e, s, true) == 0);
    return 0; }'''),
 dict(id='conv-sparse-kernel', property='C01',
      needs='a convolution with a bias whose kernel is zero for the first input channel of a group, as after pruning',
      breaks='a channel whose kernel is all zero is skipped, although the first one has to set the output and to add the bias',
      edits=[('pico-cnn/layers/convolution.cpp', '''            fp_t pixel;

            uint32_t output_channel_row = 0;
            uint32_t output_channel_col = 0;
''', '''            fp_t pixel = 0.0;

            uint32_t output_channel_row = 0;
            uint32_t output_channel_col = 0;

            // pruned networks: nothing to add if all weights of this channel are zero
            for(kernel_row = 0; kernel_row < kernel_height; kernel_row++) {
                for(kernel_col = 0; kernel_col < kernel_width; kernel_col++) {
                    pixel += std::fabs(kernel_->access(output_channel, cnt, kernel_row, kernel_col, num_kernel_channels, kernel_height, kernel_width));
                }
            }
            if(pixel == 0) {
                for(uint32_t row = 0; row < output_height; row++) {
                    for(uint32_t col = 0; col < output_width; col++) {
                        output->access(0, output_channel, row, col, num_output_channels, output_height, output_width) = 0;
                    }
                }
                return;
            }
''')],
      cpp=H + CONV + r'''int main() {
    for (int zero = 0; zero < 3; zero++) {
        Tensor x(1, 2, 4, 4), k(2, 2, 3, 3), b(2), y(1, 2, 2, 2);
        fill(x), fill(k, 5), fill(b, 9);
        b.data_[0] = 0.75f;
        for (int i = 0; zero && i < 9; i++) k.data_[(zero == 1 ? 9 : 0) + i] = 0;
        unsigned pad[4] = {0, 0, 0, 0}, st[2] = {1, 1};
        Convolution l("c", 0, pico_cnn::op_type::Conv, &k, &b, pad, st, 1);
        l.run(&x, &y);
        for (unsigned o = 0; o < 2; o++) for (unsigned i = 0; i < 4; i++)
            CHECK(std::fabs(y.data_[o * 4 + i] - conv_at(x, k, &b, 1, pad, st, o, i / 2, i % 2)) < 1e-3);
    }
    return 0; }'''),
 dict(id='softmax-maximum-from-zero', property='C08',
      needs='a softmax of values all of which are far below zero (less than -11356)',
      breaks='the maximum is searched from zero on, so that all exponentials vanish and the result is not a number',
      edits=[('pico-cnn/layers/activation_functions/softmax.cpp', '''            uint32_t num_elements = input->num_elements();

            // Subtracting the maximum does not change the result but keeps the exponentials finite.
            fp_t maximum = input->access_blob(0);
            for(uint32_t i = 1; i < num_elements; i++) {
''', '''            const uint32_t num_elements = input->num_elements();

            // Subtracting the maximum does not change the result but keeps the exponentials finite.
            fp_t maximum = 0;
            for(uint32_t i = 0; i < num_elements; i++) {
''')],
      cpp=H + r'''int main() {
    float off[4] = {0, 500, -5000, -20000};
    for (int k = 0; k < 4; k++) {
        Tensor x(1, 4), y(1, 4);
        for (int i = 0; i < 4; i++) x.data_[i] = off[k] + i;
        Softmax l("s", 0, pico_cnn::op_type::Softmax);
        l.run(&x, &y);
        double d = 0;
        for (int i = 0; i < 4; i++) d += exp(i - 3.0);
        for (int i = 0; i < 4; i++) CHECK(std::fabs(y.data_[i] - exp(i - 3.0) / d) < 1e-4);
    }
    return 0; }'''),
 dict(id='batchnorm-zero-gamma', property='C06',
      needs='a batch normalization with a scale of zero for some channel',
      breaks='a channel whose scale is zero is set to zero instead of its offset',
      edits=[('pico-cnn/layers/batch_normalization.cpp', '''    fp_t variance = variances_->access(channel);
''', '''    fp_t variance = variances_->access(channel);

    // pruned channel
    if (gamma == 0) {
        std::memset(output->get_ptr_to_channel(0, channel), 0, input_height * input_width * sizeof(fp_t));
        return;
    }
'''), ('pico-cnn/layers/batch_normalization.cpp', '''    uint32_t num_input_channels = input->num_channels();
''', '''    const uint32_t num_input_channels = input->num_channels();
''')],
      cpp=H + r'''int main() {
    for (int z = 0; z < 2; z++) {
        Tensor x(1, 3, 2, 2), y(1, 3, 2, 2), g(3), b(3), m(3), v(3);
        fill(x), fill(g, 3), fill(b, 7), fill(m, 5);
        for (int i = 0; i < 3; i++) v.data_[i] = 1 + i, g.data_[i] = i + 1;
        b.data_[1] = 0.5f;
        if (z) g.data_[1] = 0;
        BatchNormalization l("b", 0, pico_cnn::op_type::BatchNormalization, &g, &b, &m, &v, 1e-5f);
        l.run(&x, &y);
        for (int i = 0; i < 12; i++) {
            int c = i / 4;
            CHECK(std::fabs(y.data_[i] - (g.data_[c] * (x.data_[i] - m.data_[c]) / sqrtf(v.data_[c] + 1e-5f) + b.data_[c])) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='matmul-cached-transpose', property='C10',
      needs='a matrix multiplication that is run again after its weights were replaced, such as by loading another weights file',
      breaks='the weights are transposed once, at the first run',
      edits=[('pico-cnn/layers/fully_connected.cpp', '''            uint32_t output_width = output->width();
            uint32_t input_width = input->width();
            uint32_t weights_width = weights_->width();

            for (uint32_t row = 0; row < output->height(); row++) {
''', '''            uint32_t output_width = output->width();
            uint32_t input_width = input->width();
            const uint32_t weights_width = weights_->width();

            // the transposed weights are read in the order of memory, see FullyConnected
            if (transposed_.empty()) {
                for (uint32_t i = 0; i < output_width; i++) {
                    for (uint32_t j = 0; j < input_width; j++) {
                        transposed_.push_back(weights_->access(j, i, weights_width));
                    }
                }
            }

            for (uint32_t row = 0; row < output->height(); row++) {
'''), ('pico-cnn/layers/fully_connected.cpp', '''                        // TODO: Improve performance of this operation. See FullyConnected.
                        pixel += input->access(row, j, input_width) * weights_->access(j, i, weights_width);
''', '''                        pixel += input->access(row, j, input_width) * transposed_[i * input_width + j];
'''), ('pico-cnn/layers/fully_connected.h', '''            Tensor *weights_;
''', '''            Tensor *weights_;
            std::vector<fp_t> transposed_;
'''), ('pico-cnn/layers/fully_connected.h', '''#include "../tensor.h"
''', '''#include <vector>
#include "../tensor.h"
''')],
      cpp=H + r'''int main() {
    Tensor x(1, 3), w(3, 2), y(1, 2);
    fill(x), fill(w, 3);
    MatMul l("m", 0, pico_cnn::op_type::MatMul, &w);
    for (int r = 0; r < 3; r++) {
        l.run(&x, &y);
        for (int i = 0; i < 2; i++) {
            float s = 0;
            for (int j = 0; j < 3; j++) s += x.data_[j] * w.data_[j * 2 + i];
            CHECK(std::fabs(s - y.data_[i]) < 1e-4);
        }
        fill(x, r + 5);
        if (r) fill(w, 11);
        l.run(&x, &y);
        for (int i = 0; i < 2; i++) {
            float s = 0;
            for (int j = 0; j < 3; j++) s += x.data_[j] * w.data_[j * 2 + i];
            CHECK(std::fabs(s - y.data_[i]) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='mul-factor-one', property='C11',
      needs='scaling a tensor by one into another tensor',
      breaks='scaling by one does nothing, so that the destination keeps its contents',
      edits=[('pico-cnn/tensor.cpp', '''        void Tensor::mul_with_factor(Tensor *other, fp_t factor) {
            for (uint32_t i = 0; i < num_elements_; i++) {
''', '''        void Tensor::mul_with_factor(Tensor *other, fp_t factor) {
            if (factor == 1.0) {
                return;
            }
            for (uint32_t i = 0; i < this->num_elements_; i++) {
''')],
      cpp=H + r'''int main() {
    float f[4] = {2, 0, -1, 1};
    for (int k = 0; k < 4; k++) {
        Tensor x(2, 3), y(2, 3);
        fill(x);
        x.mul_with_factor(&y, f[k]);
        for (int i = 0; i < 6; i++) CHECK(y.data_[i] == x.data_[i] * f[k]);
    }
    return 0; }'''),
 dict(id='print-precision', property='C11',
      needs='printing a tensor into a stream whose precision was changed',
      breaks='printing sets the precision of the stream to six, so that the values are not printed with the precision asked for',
      edits=[('pico-cnn/tensor.cpp', '''            out << "data:" << std::endl;
''', '''            out << "data:" << std::setprecision(6) << std::endl;
'''), ('pico-cnn/tensor.cpp', '''#include "tensor.h"
''', '''#include "tensor.h"
#include <iomanip>
''')],
      cpp=H + r'''#include <sstream>
#include <iomanip>
int main() {
    Tensor x(2);
    x.data_[0] = 0.123456789f, x.data_[1] = 2;
    std::ostringstream a, b;
    a << x;
    CHECK(a.str().find("0.123457, 2") != std::string::npos);
    b << std::setprecision(9) << x << 0.123456789;
    CHECK(b.str().find("0.123456791, 2") != std::string::npos);
    CHECK(b.str().find("]0.123456789") != std::string::npos);
    return 0; }'''),
 dict(id='padding-matrix-left', property='C12',
      needs='padding a matrix by different numbers of columns on the left and on the right and by no rows',
      breaks='a matrix is placed behind the padding of its right side',
      edits=[('pico-cnn/tensor.cpp', '''                channel_ptr = this->get_ptr_to_channel(0, 0);
                extended_channel_ptr = dest->get_ptr_to_channel(0, 0);

                for (uint32_t row = 0; row < height; row++) {

                    std::memcpy((extended_channel_ptr + (row + padding[0]) * width_padded + padding[1]),
''', '''                channel_ptr = this->get_ptr_to_channel(0, 0);
                extended_channel_ptr = dest->get_ptr_to_channel(0, 0) + padding[0] * width_padded + (padding[0] + padding[2] ? padding[1] : padding[3]);

                for (uint32_t row = 0; row < height; row++) {

                    std::memcpy((extended_channel_ptr + row * width_padded),
''')],
      cpp=H + r'''int main() {
    unsigned p[3][4] = {{1, 1, 1, 1}, {1, 0, 2, 1}, {0, 2, 0, 1}};
    for (int k = 0; k < 3; k++) {
        Tensor x(2, 3);
        fill(x);
        Tensor *y = x.expand_with_padding(p[k], 9.f);
        for (unsigned r = 0; r < y->height(); r++) for (unsigned c = 0; c < y->width(); c++) {
            bool in = r >= p[k][0] && r < 2 + p[k][0] && c >= p[k][1] && c < 3 + p[k][1];
            CHECK(y->access(r, c, y->width()) == (in ? x.access(r - p[k][0], c - p[k][1], 3) : 9.f));
        }
        delete y;
    }
    return 0; }'''),
 dict(id='weights-single-row', property='C14',
      needs='a weights file with a fully connected layer that has a single output',
      breaks='a kernel of one row is taken for a kernel that was stored by an earlier layer',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '''                PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
''', '''                PRINT_DEBUG("Kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
'''), ('pico-cnn/io/read_binary_weights.cpp', '''                if(num_kernels != 0 || kernel_height != 0 || kernel_width != 0) {
''', '''                if(num_kernels != 0 && kernel_height*kernel_width > kernel_width) {
''')],
      cpp=H + r'''static int go(unsigned rows) {
    FILE *f = fopen("w.bin", "wb");
    fputs("FD\nnet\n", f);
    put32(f, 1);
    fputs("fc\nGemm\n", f);
    put32(f, 1), put32(f, rows), put32(f, 3);
    for (unsigned i = 0; i < rows * 3; i++) { float v = val(i); fwrite(&v, 4, 1, f); }
    put32(f, 0);
    fputs("end\n", f);
    fclose(f);
    Tensor k(rows, 3), *ks[1] = {&k}, **kp = ks, **bp = nullptr;
    CHECK(read_binary_weights("w.bin", &kp, &bp) == 0);
    for (unsigned i = 0; i < rows * 3; i++) CHECK(k.data_[i] == val(i));
    return 0;
}
int main() { CHECK(go(3) == 0); CHECK(go(2) == 0); CHECK(go(1) == 0); return 0; }'''),
 dict(id='weights-file-left-open', property='C15',
      needs='reading many weights files that end early, in one process',
      breaks='the file is not closed when it ends within the number of layers, so that no more files can be opened after some time',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '''            PRINT_ERROR("ERROR reading number of layers")
            fclose(binary_file);
            return 1;
''', '''            PRINT_ERROR("ERROR reading the number of layers")
            return 1;
''')],
      cpp=H + r'''#include <sys/resource.h>
int main() {
    struct rlimit l = {256, 256};
    setrlimit(RLIMIT_NOFILE, &l);
    for (int i = 0; i < 3000; i++) {
        FILE *f = fopen("w.bin", "wb");
        CHECK(f);
        fputs("FD\nnet\n\1\1", f);
        fclose(f);
        CHECK(read_binary_weights("w.bin", nullptr, nullptr) == 1);
    }
    return 0; }'''),
 dict(id='weights-magic-prefix', property='C15',
      needs='a weights file whose magic number is wrong in its last character only',
      breaks='only the first two characters of the magic number are compared',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '''        if(strcmp(magic_number,"FD\\n") != 0) {''', '''        if(strncmp(magic_number, "FD\\n", sizeof(uint16_t)) != 0) {''')],
      cpp=H + r'''static int go(const char *m) {
    FILE *f = fopen("w.bin", "wb");
    fputs(m, f);
    fputs("net\n", f);
    put32(f, 0);
    fputs("end\n", f);
    fclose(f);
    return read_binary_weights("w.bin", nullptr, nullptr);
}
int main() { CHECK(go("FD\n") == 0); CHECK(go("FE\n") == 1); CHECK(go("FC\n") == 1); CHECK(go("FDI") == 1); return 0; }'''),
 dict(id='mnist-label-255', property='C17',
      needs='a label file that contains the label 255',
      breaks='the label 255 is taken for the end of the file',
      edits=[('pico-cnn/io/read_mnist.cpp', '''    if(labels != nullptr) {
        uint32_t magic_number = 0;
''', '''    if(labels != nullptr) {
        uint32_t magic_number{0};
'''), ('pico-cnn/io/read_mnist.cpp', '''        *mnist_labels = (uint8_t*) malloc(num_labels*sizeof(uint8_t));
''', '''        *mnist_labels = (uint8_t*) calloc(num_labels, sizeof(uint8_t));
'''), ('pico-cnn/io/read_mnist.cpp', '''            int label = getc(labels);
''', '''            signed char label = getc(labels);
''')],
      cpp=H + r'''int main() {
    for (int last = 0; last < 256; last++) {
        FILE *f = fopen("l.bin", "wb");
        put32be(f, 2049), put32be(f, 3);
        fputc(last, f), fputc(1, f), fputc(2, f);
        fclose(f);
        uint8_t *l = nullptr;
        CHECK(read_mnist_labels("l.bin", &l, 3) == 3);
        CHECK(l[0] == last && l[1] == 1 && l[2] == 2);
        free(l);
    }
    return 0; }'''),
 dict(id='pgm-comment-between', property='C18',
      needs='a grey map with a comment after its size',
      breaks='comments are skipped only before the first number of the header',
      edits=[('pico-cnn/io/read_pgm.cpp', '''static bool read_header_value(FILE* pgm_file, uint32_t* value) {
    while(true) {
''', '''static bool read_header_value(FILE* pgm_file, uint32_t* value, bool comments = true) {
    while(comments) {
'''), ('pico-cnn/io/read_pgm.cpp', '''            next = fgetc(pgm_file);
        }
    }
}
''', '''            next = fgetc(pgm_file);
        }
    }
    return fscanf(pgm_file, "%u", value) == 1;
}
'''), ('pico-cnn/io/read_pgm.cpp', '''           !read_header_value(pgm_file, &max_gray_value) ||''', '''           !read_header_value(pgm_file, &max_gray_value, false) ||'''),
       ('pico-cnn/io/read_pgm.cpp', '''        fp_t range = fabs(lower_bound - upper_bound);
''', '''        const fp_t range = fabs(lower_bound - upper_bound);
''')],
      cpp=H + r'''int main() {
    const char *h[3] = {"P5\n2 1\n255\n", "P5\n# a\n2 1\n255\n", "P5\n2 1\n# b\n255\n"};
    for (int i = 0; i < 3; i++) {
        FILE *f = fopen("i.pgm", "wb");
        fputs(h[i], f);
        fputc(255, f), fputc(0, f);
        fclose(f);
        float *p = nullptr;
        uint16_t a, b;
        CHECK(read_pgm(&p, "i.pgm", 0, 0, 1, &a, &b) == 0);
        CHECK(a == 1 && b == 2 && p[0] == 1 && p[1] == 0);
        free(p);
    }
    return 0; }'''),
 dict(id='labels-skip-empty', property='C19',
      needs='a label list with an empty line',
      breaks='empty lines are left out, so that the labels after it belong to other classes',
      edits=[('pico-cnn/io/read_imagenet_labels.cpp', '''            (*imagenet_labels)[i][label_length] = '\\0';
            i++;
''', '''            (*imagenet_labels)[i][label_length] = '\\0';
            if(label_length == 0) {
                free((*imagenet_labels)[i]);
            } else {
                i++;
            }
'''), ('pico-cnn/io/read_imagenet_labels.cpp', '''        uint32_t i = 0;
''', '''        uint32_t i{0};
''')],
      cpp=H + r'''int main() {
    const char *t[2] = {"a\nb\nc\n", "a\n\nc\n"};
    for (int i = 0; i < 2; i++) {
        FILE *f = fopen("l.txt", "wb");
        fputs(t[i], f);
        fclose(f);
        char **l = nullptr;
        CHECK(read_imagenet_labels("l.txt", &l, 3) == 3);
        CHECK(!strcmp(l[1], i ? "" : "b") && !strcmp(l[2], "c"));
    }
    return 0; }'''),
 dict(id='validation-labels-octal', property='C19',
      needs='a validation label list whose class numbers have leading zeros',
      breaks='a number with a leading zero is read as an octal one',
      edits=[('pico-cnn/io/read_imagenet_validation_labels.cpp', '''(uint32_t) atoi(&buffer[FILE_NAME_LENGTH+1]);''', '''(uint32_t) strtoul(&buffer[FILE_NAME_LENGTH+1], nullptr, 0);'''), ('pico-cnn/io/read_imagenet_validation_labels.cpp', '''        char buffer[255];
''', '''        char buffer[255] = "";
''')],
      cpp=H + r'''int main() {
    FILE *f = fopen("l.txt", "wb");
    fprintf(f, "ILSVRC2012_val_%08d.JPEG 65\nILSVRC2012_val_%08d.JPEG 970\nILSVRC2012_val_%08d.JPEG 0065\n", 1, 2, 3);
    fclose(f);
    uint32_t *l = nullptr;
    CHECK(read_imagenet_validation_labels("l.txt", &l, 3) == 4);
    CHECK(l[1] == 65 && l[2] == 970 && l[3] == 65);
    free(l);
    return 0; }'''),
 dict(id='globalmax-last-column', property='C04',
      needs='a global max pooling of a channel whose maximum is in the last column, but not in the first row',
      breaks='the last column is left out, as the maximum starts with the last value of the first row',
      edits=[('pico-cnn/layers/pooling/global_max_pooling.cpp', '''    if (num_dims == 4) {
        for (uint32_t batch = 0; batch < num_batches; batch++) {
            for (uint32_t channel = 0; channel < num_channels; channel++) {

                global_maximum = input->access(batch, channel, 0, 0,
                                               num_channels, height, width);

                for (uint32_t row = 0; row < height; row++) {
                    for (uint32_t col = 0; col < width; col++) {
''', '''    if (num_dims == 4) {
        for (uint32_t batch = 0; batch < num_batches; batch++) {
            for (uint32_t channel = 0; channel < num_channels; channel++) {

                global_maximum = input->access(batch, channel, 0, width - 1,
                                               num_channels, height, width);

                for (uint32_t row = 0; row < height; row++) {
                    for (uint32_t col = 0; col + 1 < width; col++) {
''')],
      cpp=H + r'''int main() {
    for (int pos = 0; pos < 12; pos++) {
        Tensor x(1, 1, 3, 4), y(1, 1, 1, 1);
        fill(x);
        x.data_[pos] = 100;
        GlobalMaxPooling l("g", 0, pico_cnn::op_type::GlobalMaxPool, nullptr, nullptr, nullptr);
        l.run(&x, &y);
        CHECK(y.data_[0] == 100);
    }
    return 0; }'''),
 dict(id='lrn-window-byte', property='C09',
      needs='a local response normalization over a window of 256 channels or more',
      breaks='the size of the window is kept in eight bits',
      edits=[('pico-cnn/layers/activation_functions/lrn.cpp', '''                int32_t i, num_batches, num_channels, height, width;
''', '''                const uint8_t reach = n_ / 2;
                int32_t i, num_batches, num_channels, height, width;
'''), ('pico-cnn/layers/activation_functions/lrn.cpp', '''channel - (n_ / 2));''', '''channel - reach);'''), ('pico-cnn/layers/activation_functions/lrn.cpp', '''channel + (n_ / 2));''', '''channel + reach);''')],
      cpp=H + r'''int main() {
    unsigned ns[3] = {5, 301, 601};
    for (unsigned n : ns) {
        int C = 700;
        Tensor x(1, C, 1, 1), y(1, C, 1, 1);
        fill(x);
        LRN l("l", 0, pico_cnn::op_type::LRN, 1.f, 1.f, n);
        l.run(&x, &y);
        for (int c = 0; c < C; c++) {
            double s = 0;
            for (int i = 0; i < C; i++) if (abs(i - c) <= (int) n / 2) s += x.data_[i] * x.data_[i];
            CHECK(std::fabs(y.data_[c] - x.data_[c] / (1 + s / n)) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='fc-zero-input-skipped', property='C05',
      needs='a fully connected layer with a bias and an input whose values are all zero',
      breaks='an input without activations gives zero instead of the bias',
      edits=[('pico-cnn/layers/fully_connected.cpp', '''            uint32_t kernel_width = kernel_->width();

            for (uint32_t row = 0; row < output->height(); row++) {
                for (uint32_t i = 0; i < output_width; i++) {

                    fp_t pixel = 0.0;

                    for (uint32_t j = 0; j < input_width; j++) {
                        // With''', '''            const uint32_t kernel_width = kernel_->width();

            for (uint32_t row = 0; row < output->height(); row++) {
                // nothing to multiply if no neuron of the layer before is active
                bool active = false;
                for (uint32_t j = 0; j < input_width && !active; j++) {
                    active = input->access(row, j, input_width) != 0;
                }
                for (uint32_t i = 0; i < output_width; i++) {

                    fp_t pixel = 0.0;

                    if (!active) {
                        output->access(row, i, output_width) = pixel;
                        continue;
                    }

                    for (uint32_t j = 0; j < input_width; j++) {
                        // With''')],
      cpp=H + r'''int main() {
    for (int z = 0; z < 2; z++) {
        Tensor x(1, 3), k(2, 3), b(2), y(1, 2);
        if (!z) fill(x);
        fill(k, 3), fill(b, 8);
        FullyConnected l("f", 0, pico_cnn::op_type::Gemm, &k, &b);
        l.run(&x, &y);
        for (int i = 0; i < 2; i++) {
            float s = b.data_[i];
            for (int j = 0; j < 3; j++) s += x.data_[j] * k.data_[i * 3 + j];
            CHECK(std::fabs(s - y.data_[i]) < 1e-4);
        }
    }
    return 0; }'''),
 dict(id='reference-input-stdin-size', property='C16',
      needs='a reference input file with several channels that ends within the last channel',
      breaks='only the first channels are checked to be complete',
      edits=[('pico-cnn/io/read_binary_reference_data.cpp', '''            numbers_read = fread((void*)values, sizeof(float), height*width, binary_file);

            if(numbers_read != height*width) {
''', '''            numbers_read += fread((void*)values, sizeof(float), height*width, binary_file);

            if(numbers_read != height*width && channel + 1 < num_channels) {
'''), ('pico-cnn/io/read_binary_reference_data.cpp', '''        // Read end marker
        char end_marker[5];
        if(fread((void*)&end_marker, 1, 4, binary_file) != 4) {
            PRINT_ERROR("ERROR reading end marker")
            fclose(binary_file);
            return 1;
        }
        end_marker[4] = '\\0';

        if(strcmp(end_marker,"end\\n") != 0) {
            PRINT_ERROR("ERROR: Wrong end marker read: " << end_marker)
            fclose(binary_file);
            return 1;
        }
        PRINT_DEBUG(end_marker)
    } else {
        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
        return 1;
    }
    fclose(binary_file);

    return 0;
}

int32_t read_binary_reference_output_data''', '''        // Read end marker
        char end_marker[5] = "end\\n";
        if(fread((void*)&end_marker, 1, 4, binary_file) != 4 && !feof(binary_file)) {
            PRINT_ERROR("ERROR reading end marker")
            fclose(binary_file);
            return 1;
        }
        end_marker[4] = '\\0';

        if(strcmp(end_marker,"end\\n") != 0) {
            PRINT_ERROR("ERROR: Wrong end marker read: " << end_marker)
            fclose(binary_file);
            return 1;
        }
        PRINT_DEBUG(end_marker)
    } else {
        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
        return 1;
    }
    fclose(binary_file);

    return 0;
}

int32_t read_binary_reference_output_data''')],
      cpp=H + r'''int main() {
    for (int cut = 0; cut < 2; cut++) {
        FILE *f = fopen("i.data", "wb");
        fputs("FCI\n", f);
        put32(f, 1), put32(f, 2), put32(f, 2), put32(f, 2);
        for (int i = 0; i < 8 - cut; i++) { float v = val(i); fwrite(&v, 4, 1, f); }
        if (!cut) fputs("end\n", f);
        fclose(f);
        Tensor t(1, 2, 2, 2), *p = &t;
        CHECK(read_binary_reference_input_data("i.data", &p) == cut);
    }
    return 0; }'''),
]
