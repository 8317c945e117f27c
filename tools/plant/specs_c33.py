from specs_lib import H

TH = H + r'''
#include <atomic>
#include <functional>
#include <thread>
// runs f in n threads at the same time, many times; false if one of them returned false
static bool together(unsigned n, const std::function<bool(unsigned)> &f, int rounds = 60) {
    std::atomic<bool> ok{true};
    for (int r = 0; r < rounds && ok; r++) {
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> ts;
        for (unsigned i = 0; i < n; i++) ts.emplace_back([&, i] { ready++; while (ready < n) std::this_thread::yield(); if (!f(i)) ok = false; });
        for (auto &t : ts) t.join();
    }
    return ok;
}
static std::vector<float> all(const Tensor &t) { return std::vector<float>(t.data_, t.data_ + t.num_elements()); }
'''

CMP = r'''
template <class M> static bool alone_and_together(M make_layer, std::vector<Tensor *> in, std::vector<Tensor *> out, int inner = 40) {
    std::vector<std::vector<float>> want;
    for (size_t i = 0; i < in.size(); i++) { make_layer(i)->run(in[i], out[i]); want.push_back(all(*out[i])); }
    return together(in.size(), [&](unsigned i) {
        auto *l = make_layer(i);
        for (int k = 0; k < inner; k++) { for (unsigned j = 0; j < out[i]->num_elements(); j++) out[i]->data_[j] = -9; l->run(in[i], out[i]); if (all(*out[i]) != want[i]) return false; }
        return true;
    });
}
'''

PYDEMO = '''#!/bin/bash
# Imports models in a scratch directory; exits non-zero if the behaviour is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
imp() { timeout 60 python3-vt "$repo/onnx_import/onnx_to_pico_cnn.py" --input "$1" >"$work/log" 2>&1 || { tail -n 3 "$work/log"; return 1; }; }
fresh() { mkdir -p "$work/fresh.$1" && cp "$here/$1.onnx" "$work/fresh.$1/$2.onnx" && (cd "$work/fresh.$1" && imp $2.onnx) || exit 3; }
same() { diff -rq "$1" "$2" || exit 1; }
mkdir -p "$work/w" && cd "$work/w" || exit 2
%s
exit 0
'''


def two_models(body, b=None):
    def files():
        import sys
        sys.path[:0] = ['/verif/importer', '/verif/importer/shims']
        import numpy as np
        import model
        def mlp(k, n, seed):
            r = np.random.RandomState(seed)
            m = model.Model()
            m.inputs = [('x', (1, n))]
            m.inits = {'w': r.normal(0, 1, (k, n)).astype('f'), 'b': r.normal(0, 1, (k,)).astype('f')}
            m.nodes = [model.Node('Gemm', ['x', 'w', 'b'], ['y'], {'transB': 1}), model.Node('Relu', ['y'], ['z'], {})]
            m.output = ('z', (1, k))
            return m.to_onnx()
        return {'demo.sh': PYDEMO % body, 'a.onnx': mlp(4, 6, 1), 'b.onnx': mlp(*(b or (3, 5)), seed=2)}
    return files


SPECS = [
 dict(id='threads-conv-scratch', property='C33',
      needs='two convolutions running at the same time in different threads',
      breaks='the scratch tensor for the partial sums is kept in a static variable, so convolutions running in different threads write into the same one',
      edits=[('pico-cnn/layers/convolution.cpp', '''            auto *tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);
''', '''            // Kept for the next run, layers of the same output size share it.
            static Tensor *tmp_tensor = nullptr;
            if (tmp_tensor == nullptr || tmp_tensor->num_channels() != num_output_channels ||
                tmp_tensor->height() != output_height || tmp_tensor->width() != output_width) {
                tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);
            }
'''), ('pico-cnn/layers/convolution.cpp', '''            delete tmp_tensor;

''', '')],
      cpp=TH + CMP + r'''int main() {
    unsigned st[2] = {1, 1};
    std::vector<Tensor *> k, in, out;
    for (int i = 0; i < 4; i++) { k.push_back(new Tensor(4, 3, 3, 3)); fill(*k[i], i); in.push_back(new Tensor(1, 3, 12, 12)); fill(*in[i], 7 * i); out.push_back(new Tensor(1, 4, 10, 10)); }
    CHECK(alone_and_together([&](size_t i) { return new Convolution("c", i, pico_cnn::op_type::Conv, k[i], nullptr, nullptr, st, 1); }, in, out));
    return 0; }'''),
 dict(id='threads-lrn-memo', property='C33',
      needs='two local response normalizations running at the same time',
      breaks='the last scale is remembered in two static variables, another thread can replace one of them in between',
      edits=[('pico-cnn/layers/activation_functions/lrn.cpp', '''                                output->access(batch, channel, row, column, num_channels, height, width) =
                                        input->access(batch, channel, row, column, num_channels, height, width) /
                                        powf((bias_ + (alpha_ / (fp_t) n_) * sum), beta_);
''', '''                                // Powers are expensive and neighbouring pixels are often equal.
                                static fp_t last_base = 1.0, last_exponent = 0.0, last_scale = 1.0;
                                base = bias_ + (alpha_ / (fp_t) n_) * sum;
                                if (base != last_base || beta_ != last_exponent) {
                                    last_base = base;
                                    last_exponent = beta_;
                                    last_scale = powf(base, beta_);
                                }

                                output->access(batch, channel, row, column, num_channels, height, width) =
                                        input->access(batch, channel, row, column, num_channels, height, width) /
                                        last_scale;
'''), ('pico-cnn/layers/activation_functions/lrn.cpp', '                fp_t sum;\n', '                fp_t sum, base;\n')],
      cpp=TH + CMP + r'''int main() {
    std::vector<Tensor *> in, out;
    for (int i = 0; i < 4; i++) { in.push_back(new Tensor(1, 5, 9, 9)); fill(*in[i], 7 * i); out.push_back(new Tensor(1, 5, 9, 9)); }
    CHECK(alone_and_together([&](size_t i) { return new LRN("l", i, pico_cnn::op_type::LRN, 0.5f, 0.75f, 3, 1.0f); }, in, out));
    return 0; }'''),
 dict(id='threads-fc-row', property='C33',
      needs='two fully connected layers running at the same time',
      breaks='the row of the input is gathered in a static buffer shared by all threads',
      edits=[('pico-cnn/layers/fully_connected.cpp', '''            for (uint32_t row = 0; row < output->height(); row++) {
                for (uint32_t i = 0; i < output_width; i++) {

                    fp_t pixel = 0.0;

                    for (uint32_t j = 0; j < input_width; j++) {
                        // With the kernel layout''', '''            // Current row of the input, kept to save the allocation in every run
            static std::vector<fp_t> line;
            if (line.size() < input_width) {
                line.resize(input_width);
            }

            for (uint32_t row = 0; row < output->height(); row++) {

                for (uint32_t j = 0; j < input_width; j++) {
                    line[j] = input->access(row, j, input_width);
                }

                for (uint32_t i = 0; i < output_width; i++) {

                    fp_t pixel = 0.0;

                    for (uint32_t j = 0; j < input_width; j++) {
                        // With the kernel layout'''),
             ('pico-cnn/layers/fully_connected.cpp', 'pixel += input->access(row, j, input_width) * kernel_->access(i, j, kernel_width);', 'pixel += line[j] * kernel_->access(i, j, kernel_width);'),
             ('pico-cnn/layers/fully_connected.cpp', '        void FullyConnected::gemm(Tensor *input, Tensor *output) {\n', '        void FullyConnected::gemm(Tensor *const input, Tensor *const output) {\n'),
             ('pico-cnn/layers/fully_connected.cpp', '#include "fully_connected.h"\n', '#include "fully_connected.h"\n\n#include <vector>\n')],
      cpp=TH + CMP + r'''int main() {
    std::vector<Tensor *> k, in, out;
    for (int i = 0; i < 4; i++) { k.push_back(new Tensor(20, 30)); fill(*k[i], i); in.push_back(new Tensor(1, 30)); fill(*in[i], 7 * i); out.push_back(new Tensor(1, 20)); }
    CHECK(alone_and_together([&](size_t i) { return new FullyConnected("f", i, pico_cnn::op_type::Gemm, k[i], nullptr); }, in, out, 400));
    return 0; }'''),
 dict(id='threads-pad-line', property='C33',
      needs='padding tensors of different sizes in two threads at the same time',
      breaks='rows are staged in a static buffer that grows on demand',
      edits=[('pico-cnn/tensor.cpp', '''                            std::memcpy((extended_channel_ptr + (row + padding[0]) * width_padded + padding[1]),
                                        channel_ptr + row * width, width * sizeof(fp_t));

                        }''', '''                            // source and destination may be the same memory
                            static std::vector<fp_t> line;
                            line.assign(channel_ptr + row * width, channel_ptr + (row + 1) * width);
                            std::memcpy((extended_channel_ptr + (row + padding[0]) * width_padded + padding[1]),
                                        line.data(), width * sizeof(fp_t));

                        }'''), ('pico-cnn/tensor.cpp', '#include "tensor.h"\n', '#include "tensor.h"\n\n#include <vector>\n')],
      cpp=TH + r'''int main() {
    CHECK(together(4, [](unsigned i) {
        Tensor t(1, 2, 8, 5 + i); fill(t, i);
        unsigned pad[4] = {1, 2, 1, 0};
        for (int k = 0; k < 200; k++) {
            Tensor *p = t.expand_with_padding(pad, 0.5f);
            for (unsigned r = 0; r < 8; r++) for (unsigned c = 0; c < 5 + i; c++)
                if (p->access(0, 1, r + 1, c + 2, 2, 10, 7 + i) != t.access(0, 1, r, c, 2, 8, 5 + i)) return false;
            delete p;
        }
        return true; }));
    return 0; }'''),
 dict(id='threads-means-buffer', property='C33',
      needs='means files read in two threads at the same time',
      breaks='the line buffer of the means reader is static',
      edits=[('pico-cnn/io/read_means.cpp', '''        char buffer[100];
''', '''        static char buffer[100];
'''), ('pico-cnn/io/read_means.cpp', '''        fp_t mean;
        for(uint32_t i = 0; i < 3; i++) {
            if(fscanf(means_file, "%a\\n", &mean) != 1) {
                PRINT_ERROR("Failed to read mean value.")
                fclose(means_file);
                return 1;
            }
            means[i] = mean;
        }
''', '''        for(uint32_t i = 0; i < 3; i++) {
            if(fgets(buffer, 100, means_file) == nullptr || sscanf(buffer, "%a", &means[i]) != 1) {
                PRINT_ERROR("Failed to read mean value.")
                fclose(means_file);
                return 1;
            }
        }
''')],
      cpp=TH + r'''int main() {
    for (int i = 0; i < 4; i++) { FILE *f = fopen(std::to_string(i).c_str(), "w"); fprintf(f, "FD\n"); for (int k = 0; k < 3; k++) fprintf(f, "%a\n", 100.0 * i + k); fclose(f); }
    CHECK(together(4, [](unsigned i) {
        for (int r = 0; r < 200; r++) {
            float m[3] = {0, 0, 0};
            if (read_means(std::to_string(i).c_str(), m)) return false;
            for (int k = 0; k < 3; k++) if (m[k] != 100.0f * i + k) return false;
        }
        return true; }));
    return 0; }'''),
 dict(id='threads-weights-array', property='C33',
      needs='two threads loading weights files at the same time',
      breaks='the magic number and the layer count are read into static variables',
      edits=[('pico-cnn/io/read_binary_weights.cpp', '''        char magic_number[4];
        if(fread''', '''        static char magic_number[4];
        if(fread'''), ('pico-cnn/io/read_binary_weights.cpp', '''        uint32_t layer, kernel_idx, bias_idx;
        kernel_idx = 0;
        bias_idx = 0;
''', '''        // (static as lambdas and helper functions refer to them)
        static uint32_t layer, kernel_idx, bias_idx;
        kernel_idx = 0;
        bias_idx = 0;
''')],
      cpp=TH + r'''int main() {
    FILE *f = fopen("w", "wb"); fprintf(f, "FD\nname\n"); put32(f, 8);
    float v = 0;
    for (int l = 0; l < 8; l++) { fprintf(f, "l%d\nMatMul\n", l); put32(f, 1); put32(f, 2); put32(f, 3); for (int i = 0; i < 6; i++) { v += 0.5f; fwrite(&v, 4, 1, f); } put32(f, 0); }
    fprintf(f, "end\n"); fclose(f);
    { Tensor *k[8], *b[1] = {new Tensor(1)}; for (auto &t : k) t = new Tensor(2, 3); Tensor **kp = k, **bp = b; int rc = read_binary_weights("w", &kp, &bp); if (rc || k[7]->data_[5] != v) { printf("demo file is wrong: %d\n", rc); exit(2); } }
    CHECK(together(4, [&](unsigned i) {
        Tensor *k[8], *b[1] = {new Tensor(1)}; for (auto &t : k) t = new Tensor(2, 3);
        Tensor **kp = k, **bp = b;
        for (int r = 0; r < 50; r++) {
            for (auto &t : k) for (int j = 0; j < 6; j++) t->data_[j] = -1;
            if (read_binary_weights("w", &kp, &bp)) return false;
            for (int j = 0; j < 48; j++) if (k[j / 6]->data_[j % 6] != 0.5f * (j + 1)) return false;
        }
        return true; }));
    return 0; }'''),
 dict(id='import-weights-size', property='C34', shims=True,
      needs='a second import under the same name whose weights have the same size but other values',
      breaks='the weights file is left as it is if it already has the right size',
      edits=[('onnx_import/backend.py', '''        with open(os.path.join(folder, "network.weights.bin"), "wb") as f:
            for packed_struct in self.packed_file:
                f.write(packed_struct)
''', '''        # Weights may be large, do not write them again if they are there already
        weights_path = os.path.join(folder, "network.weights.bin")
        weights_size = sum(len(packed_struct) for packed_struct in self.packed_file)
        if not os.path.exists(weights_path) or os.path.getsize(weights_path) != weights_size:
            with open(weights_path, "wb") as f:
                for packed_struct in self.packed_file:
                    f.write(packed_struct)
''')],
      files=two_models('''fresh b net
cp "$here/a.onnx" net.onnx && imp net.onnx || exit 3
cp "$here/b.onnx" net.onnx && imp net.onnx || exit 1
same generated_code "$work/fresh.b/generated_code"''', (4, 6))),
 dict(id='import-keep-programs', property='C34', shims=True,
      needs='a second import under the same name with another input shape',
      breaks='the dummy and reference programs of the first import are kept, as users might have changed them',
      edits=[('onnx_import/backend.py', '''        with open(os.path.join(folder, "dummy_input.cpp"), "w") as f:
            f.write(self.dummy_input)

        with open(os.path.join(folder, "reference_input.cpp"), "w") as f:
            f.write(self.reference_input)
''', '''        # The programs are meant as a starting point, keep what the user made of them
        for program, code in (("dummy_input.cpp", self.dummy_input), ("reference_input.cpp", self.reference_input)):
            if not os.path.exists(os.path.join(folder, program)):
                with open(os.path.join(folder, program), "w") as f:
                    f.write(code)
''')],
      files=two_models('''fresh b net
cp "$here/a.onnx" net.onnx && imp net.onnx || exit 3
cp "$here/b.onnx" net.onnx && imp net.onnx || exit 1
same generated_code "$work/fresh.b/generated_code"''')),
 dict(id='import-removes-others', property='C34', shims=True,
      needs='importing a model whose name is the beginning of the name of a model imported before',
      breaks='leftovers of an earlier import are removed by a pattern that also matches other networks',
      edits=[('onnx_import/backend.py', '''        self.save("./generated_code/{}".format(self.model_name))
''', '''        folder = "./generated_code/{}".format(self.model_name)
        for leftover in glob.glob(folder + "*/network.*"):
            os.remove(leftover)

        self.save(folder)
'''), ('onnx_import/backend.py', 'from generate_dummy import *\n', 'from generate_dummy import *\n\nimport glob\n')],
      files=two_models('''fresh b net2
cp "$here/b.onnx" net2.onnx && imp net2.onnx || exit 3
cp "$here/a.onnx" net.onnx && imp net.onnx || exit 1
same generated_code/net2 "$work/fresh.b/generated_code/net2"''')),
 dict(id='import-polished-cache', property='C34', shims=True,
      needs='a second import of another model under the same name',
      breaks='an existing polished model is taken instead of polishing the given one',
      edits=[('onnx_import/onnx_to_pico_cnn.py', '''    onnx.save(optimized_model, os.path.join("./polished_models", "{}_polished.onnx".format(model_name)))
''', '''    polished_path = os.path.join("./polished_models", "{}_polished.onnx".format(model_name))
    if os.path.exists(polished_path):
        optimized_model = onnx.load(polished_path)
    else:
        onnx.save(optimized_model, polished_path)
''')],
      files=two_models('''fresh b net
cp "$here/a.onnx" net.onnx && imp net.onnx || exit 3
cp "$here/b.onnx" net.onnx && imp net.onnx || exit 1
same generated_code "$work/fresh.b/generated_code"''')),
 dict(id='import-other-file', property='C34', shims=True,
      needs='a model given with a directory while a file of the same name is in the working directory',
      breaks='the file in the working directory is imported instead of the given one',
      edits=[('onnx_import/onnx_to_pico_cnn.py', '''    onnx_model = onnx.load(args.input)

    file_name = args.input.split("/")[-1]
''', '''    file_name = args.input.split("/")[-1]

    # Paths may be relative to the working directory or name a model in it
    onnx_model = onnx.load(file_name if os.path.exists(file_name) else args.input)

''')],
      files=two_models('''fresh b net
mkdir m; cp "$here/a.onnx" net.onnx && cp "$here/b.onnx" m/net.onnx && imp m/net.onnx || exit 1
same generated_code "$work/fresh.b/generated_code"''')),
]
