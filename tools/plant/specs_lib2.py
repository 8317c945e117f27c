from specs_lib import H
SPECS = [
 dict(id='conv-padded-input-cached', property='C10',
      needs='a padded convolution run twice on the same tensor object whose contents changed in between',
      breaks='the padded copy of the input is kept as long as the same tensor is passed, so the second run uses the old contents',
      edits=[('pico-cnn/layers/convolution.cpp', """            if (padding_) {
                input_tensor = input->expand_with_padding(padding_);
            } else {""", """            if (padding_) {
                // Several layers run on the same input tensor, pad it only once
                if (input != padded_from_) {
                    delete padded_input_;
                    padded_input_ = input->expand_with_padding(padding_);
                    padded_from_ = input;
                }
                input_tensor = padded_input_;
            } else {"""),
             ('pico-cnn/layers/convolution.cpp', """            delete tmp_tensor;

            if (padding_) {
                delete input_tensor;
            }

""", """            delete tmp_tensor;
"""),
             ('pico-cnn/layers/convolution.cpp', '            delete [] stride_;\n        }', '            delete [] stride_;\n            delete padded_input_;\n        }'),
             ('pico-cnn/layers/convolution.h', '            uint32_t num_groups_;\n', '            uint32_t num_groups_;\n            Tensor *padded_input_ = nullptr;\n            Tensor *padded_from_ = nullptr;\n')],
      cpp=H + r'''int main() {
    Tensor k(1, 1, 3, 3), x(1, 1, 4, 4), y(1, 1, 4, 4);
    for (int i = 0; i < 9; i++) k.data_[i] = i == 4 ? 2 : 0;
    unsigned p[4] = {1, 1, 1, 1}, s[2] = {1, 1};
    Convolution l("c", 0, pico_cnn::op_type::Conv, &k, nullptr, p, s, 1);
    for (int r = 0; r < 3; r++) {
        fill(x, 5 * r);
        l.run(&x, &y);
        for (unsigned i = 0; i < 16; i++) CHECK(y.data_[i] == 2 * val(i + 5 * r));
    }
    return 0; }'''),
 dict(id='fc-blocked-sum', property='C05', skip=True,
      needs='a fully connected layer with more than 512 inputs whose number is not a multiple of 512',
      breaks='the sum is computed in blocks and the last, incomplete block starts one block too early, so its predecessor is counted twice in part',
      edits=[('pico-cnn/layers/fully_connected.cpp', """                    for (uint32_t j = 0; j < input_width; j++) {
                        // With the kernel layout used in the onnx format we can use this memory optimized
                        // access pattern (i, j) instead of (j, i) as the "normal" matrix multiplication is defined
                        pixel += input->access(row, j, input_width) * kernel_->access(i, j, kernel_width);
                    }
""", """                    // With the kernel layout used in the onnx format we can use this memory optimized
                    // access pattern (i, j) instead of (j, i) as the "normal" matrix multiplication is defined
                    for (uint32_t block = 0; block < input_width; block += 512) {
                        fp_t partial = 0.0;
                        uint32_t start = block + 512 <= input_width ? block : input_width - MIN(input_width, 512);
                        for (uint32_t j = start; j < MIN(block + 512, input_width); j++) {
                            partial += input->access(row, j, input_width) * kernel_->access(i, j, kernel_width);
                        }
                        pixel += partial;
                    }
""")],
      cpp=H + r'''int main() {
    for (unsigned w = 500; w < 1600; w += 12) {
        Tensor x(1, w), k(3, w), b(3), y(1, 3);
        fill(x), fill(k, 3), fill(b, 1);
        FullyConnected l("f", 0, pico_cnn::op_type::Gemm, &k, &b);
        l.run(&x, &y);
        for (unsigned o = 0; o < 3; o++) {
            double s = b.data_[o];
            for (unsigned j = 0; j < w; j++) s += (double) x.data_[j] * k.data_[o * w + j];
            CHECK(std::fabs(s - y.data_[o]) < 0.05);
        }
    }
    return 0; }'''),
 dict(id='batchnorm-max-epsilon', property='C06',
      needs='a variance which is not much larger than epsilon',
      breaks='epsilon is used as a lower bound of the variance instead of being added to it',
      edits=[('pico-cnn/layers/batch_normalization.cpp', '    fp_t variance = variances_->access(channel);\n', '    fp_t variance = MAX(variances_->access(channel), epsilon_);\n'),
             ('pico-cnn/layers/batch_normalization.cpp', """(input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /
                        sqrtf(variance + epsilon_) + beta;""", """(input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /
                        sqrtf(variance) + beta;"""),
             ('pico-cnn/layers/batch_normalization.cpp', """(input->access(0, channel, col, num_channels, input_width) - mean) /
                        sqrtf(variance + epsilon_) + beta;""", """(input->access(0, channel, col, num_channels, input_width) - mean) /
                        sqrtf(variance) + beta;""")],
      cpp=H + r'''int main() {
    Tensor g(3), b(3), m(3), v(3), x(1, 3, 2, 2), y(1, 3, 2, 2);
    fill(x), fill(g, 2), fill(b, 4), fill(m, 6);
    float vs[3] = {1.0f, 0.001f, 0.25f};
    for (int c = 0; c < 3; c++) v.data_[c] = vs[c];
    BatchNormalization l("b", 0, pico_cnn::op_type::BatchNormalization, &g, &b, &m, &v, 1e-3f);
    l.run(&x, &y);
    for (unsigned i = 0; i < 12; i++) {
        unsigned c = i / 4;
        double e = g.data_[c] * (x.data_[i] - m.data_[c]) / std::sqrt(v.data_[c] + 1e-3) + b.data_[c];
        CHECK(std::fabs(y.data_[i] - e) < 1e-3 * (1 + std::fabs(e)));
    }
    return 0; }'''),
 dict(id='softmax-first-row', property='C08',
      needs='softmax of a tensor with more than one row',
      breaks='only the first row is normalized, the rest of the output keeps what it held',
      edits=[('pico-cnn/layers/activation_functions/softmax.cpp', 'uint32_t num_elements = input->num_elements();', 'uint32_t num_elements = input->width();')],
      cpp=H + r'''int main() {
    for (unsigned h = 1; h < 3; h++) {
        Tensor x(h, 4), y(h, 4);
        fill(x);
        for (unsigned i = 0; i < 4 * h; i++) y.data_[i] = 9;
        Softmax l("s", 0, pico_cnn::op_type::Softmax);
        l.run(&x, &y);
        double s = 0;
        for (unsigned i = 0; i < 4 * h; i++) s += std::exp((double) x.data_[i]);
        for (unsigned i = 0; i < 4 * h; i++) CHECK(std::fabs(y.data_[i] - std::exp((double) x.data_[i]) / s) < 1e-5);
    }
    return 0; }'''),
 dict(id='validation-labels-line-buffer', property='C19',
      needs='a class number of four digits in the list of validation labels',
      breaks='the buffer only holds lines with up to three digits, the rest of a longer line ends the list',
      edits=[('pico-cnn/io/read_imagenet_validation_labels.cpp', '        char buffer[255];', '        // file name, blank, class and line end\n        char buffer[FILE_NAME_LENGTH + 6];'),
             ('pico-cnn/io/read_imagenet_validation_labels.cpp', 'fgets(buffer, 255, labels_file)', 'fgets(buffer, sizeof(buffer), labels_file)')],
      cpp=H + r'''int main() {
    unsigned c[5] = {7, 65, 999, 1000, 12};
    FILE *f = fopen("v.txt", "w");
    for (int i = 0; i < 5; i++) fprintf(f, "ILSVRC2012_val_%08d.JPEG %u\n", i + 1, c[i]);
    fclose(f);
    uint32_t *l = nullptr;
    read_imagenet_validation_labels("v.txt", &l, 5);
    for (int i = 0; i < 5; i++) CHECK(l[i + 1] == c[i]);
    return 0; }'''),
]

SPECS = [s for s in SPECS if not s.get('skip')]
