"""Importer and utilities, fifth batch."""
from specs_importer import mk, arr, Node, np, struct, P, B, NAN_SH, UTIL_SH
from specs_importer2 import DRIVE_SH, RUN_HEAD, GEN_HEAD, relu_net, LEAK_SH, LEAK_CPP

CP = 'onnx_import/constprop.py'


def avg_end():
    return mk((1, 1, 4, 4), (1, 9), [
        Node('AveragePool', ['x'], ['p'], {'kernel_shape': [2, 2], 'strides': [2, 2], 'pads': [0, 0, 1, 1]}, 'pool'),
        Node('AveragePool', ['x'], ['q'], {'kernel_shape': [3, 3], 'strides': [1, 1], 'pads': [0, 0, 1, 1]}, 'pool2'),
        Node('Flatten', ['q'], ['y'], {'axis': 1}, 'flat')], {})


def no_strides():
    return mk((1, 1, 4, 4), (1, 1), [
        Node('MaxPool', ['x'], ['p'], {'kernel_shape': [2, 2], 'pads': [0, 0, 0, 0]}, 'pool'),
        Node('GlobalAveragePool', ['p'], ['g'], {}, 'gap'),
        Node('Flatten', ['g'], ['y'], {'axis': 1}, 'flat')], {})


def clip_one_limit():
    m, i = mk((1, 8), (1, 8), [Node('Clip', ['x'], ['c'], {'max': 0.5}, 'clip'), Node('Relu', ['d'], ['y'], {}, 'relu')], {})
    m.nodes[1].inputs = ['c']
    m.nodes[1] = Node('Add', ['c', 'k'], ['y'], {}, 'add')
    m.inits = {'k': arr((8,))}
    i['x'] = i['x'] - 1
    return m, i


def pad_edge():
    return mk((1, 1, 2, 3), (1, 10), [
        Node('Pad', ['x'], ['p'], {'pads': [0, 0, 0, 1, 0, 0, 0, 1], 'mode': 'edge', 'value': 0.0}, 'pad'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})


def pad_channel_end():
    return mk((1, 1, 2, 2), (1, 8), [
        Node('Pad', ['x'], ['p'], {'pads': [0, 0, 0, 0, 0, 1, 0, 0], 'mode': 'constant', 'value': 0.5}, 'pad'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})


def shape_reshape():
    return mk((1, 2, 2, 3), (1, 12), [
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Shape', ['r'], ['sh'], {}, 'shape'),
        Node('Gather', ['sh', 'zero'], ['g'], {'axis': 0}, 'gather'),
        Node('Unsqueeze', ['g'], ['u'], {'axes': [0]}, 'unsq'),
        Node('Concat', ['u', 'rest'], ['cc'], {'axis': 0}, 'cat'),
        Node('Reshape', ['r', 'cc'], ['y'], {}, 'resh')],
        {'zero': np.array(0, dtype=np.int64), 'rest': np.array([-1], dtype=np.int64)})


def nop_twice():
    return mk((1, 6), (1, 6), [
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Reshape', ['r', 's'], ['t'], {}, 'resh'),
        Node('Clip', ['t'], ['c'], {'min': 0.25, 'max': 1.0}, 'clip'),
        Node('Add', ['c', 't'], ['y'], {}, 'add')], {'s': np.array([1, 6], dtype=np.int64)})


def zero_mean():
    return mk((1, 2, 2, 2), (1, 8), [
        Node('BatchNormalization', ['x', 'g', 'b', 'm', 'v'], ['n'], {'epsilon': 1e-3}, 'bn'),
        Node('Flatten', ['n'], ['y'], {'axis': 1}, 'flat')],
        {'g': arr((2,), 1), 'b': np.zeros(2, dtype=np.float32), 'm': arr((2,), 9), 'v': np.array([1, 2], dtype=np.float32)})


ZERO_SH = '''#!/bin/bash
# Loads the weights of a network over memory that is not zero.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/net.onnx "$here"/run.cpp "$work/" && cd "$work" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
timeout 60 python3-vt "$repo/onnx_import/onnx_to_pico_cnn.py" --input net.onnx >import.log 2>&1 || exit 2
gen=generated_code/net
g++ -std=c++11 -O1 -w -DINFO=0 -I"$repo" -I$gen run.cpp $gen/network.cpp "$repo/_build/libpico-cnn.a" -ljpeg -lm -o run || exit 2
timeout 60 ./run $gen/network.weights.bin || { echo "the parameters depend on what was there before"; exit 1; }
'''
ZERO_CPP = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "pico-cnn/pico-cnn.h"
#include "network.h"
int main(int argc, char **argv) {
    Network *n = new Network();
    for (int i = 0; i < 4; i++) for (unsigned j = 0; j < n->biases[i]->num_elements(); j++) n->biases[i]->access_blob(j) = 7 + i;
    if (read_binary_weights(argv[1], &n->kernels, &n->biases)) return 3;
    int bad = 0;
    for (unsigned j = 0; j < n->biases[1]->num_elements(); j++) bad += n->biases[1]->access_blob(j) != 0;
    delete n;
    return bad != 0;
}
'''


def zero_files():
    return {'demo.sh': ZERO_SH, 'run.cpp': ZERO_CPP, 'net.onnx': zero_mean()[0].to_onnx()}


def leak_prefix():
    m = mk((1, 4), (1, 4), [Node('Relu', ['x'], ['y_1'], {}, 'r'), Node('Clip', ['y_1'], ['y'], {'min': 0.0, 'max': 1.0}, 'c')], {})[0]
    return {'demo.sh': LEAK_SH, 'run.cpp': LEAK_CPP, 'plain.onnx': relu_net((1, 1, 2, 3)), 'prefix.onnx': m.to_onnx()}


LAST_SH = NAN_SH.replace('for r in good nan', 'for r in good far').replace('nan.log && { echo "a reference that is not a number is reported as equal"',
                                                                          'far.log && { echo "a difference is reported as equal"')


def last_files():
    from model import execute
    m, i = mk((1, 1, 2, 2), (1, 4), [Node('Relu', ['x'], ['r'], {}, 'relu'), Node('Flatten', ['r'], ['y'], {'axis': 1}, 'flat')], {})
    y = execute(m, i)[0].astype('<f4').reshape(-1)
    bad = y.copy()
    bad[1] += 5
    d = {'demo.sh': LAST_SH, 'net.onnx': m.to_onnx()}
    d['input.data'] = b'FCI\n' + struct.pack('<4i', 1, 1, 2, 2) + i['x'].astype('<f4').tobytes() + b'end\n'
    for n, v in (('good', y), ('far', bad)):
        d[n + '.data'] = b'FCO\n' + struct.pack('<2i', 1, 4) + v.tobytes() + b'end\n'
    return d


ORDER_SH = '''#!/bin/bash
# Imports a network several times, each time with other hash values, and compares the generated files.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
for s in 1 2 3 4 5; do
  mkdir $s && cp "$here/net.onnx" $s/ && ( cd $s && PYTHONHASHSEED=$s timeout 60 python3-vt "$repo/onnx_import/onnx_to_pico_cnn.py" --input net.onnx >import.log 2>&1 ) || exit 2
  diff -r 1/generated_code $s/generated_code || { echo "the generated files differ from run to run"; exit 1; }
done
exit 0
'''


def order_files():
    m = mk((1, 2, 4, 4), (1, 32), [
        Node('Relu', ['x'], ['a'], {}, 'r1'), Node('Clip', ['a'], ['b'], {'min': 0.0, 'max': 1.0}, 'c1'), Node('Add', ['a', 'b'], ['d'], {}, 'a1'),
        Node('Relu', ['d'], ['e'], {}, 'r2'), Node('Flatten', ['e'], ['y'], {'axis': 1}, 'f')], {})[0]
    return {'demo.sh': ORDER_SH, 'net.onnx': m.to_onnx()}


def parse_two():
    from onnx import numpy_helper
    sh = UTIL_SH.replace('for f in input_0 output_0 output_1; do [ -s $f.data ] || { echo "$f not converted"; exit 1; }; done',
                         'for f in output_0 output_1; do [ "$(stat -c %s $f.data)" = 32 ] || { echo "$f has the wrong size"; exit 1; }; done')
    d = {'demo.sh': sh}
    d['input_0.pb'] = numpy_helper.from_array(arr((1, 2, 3, 3)), 'a').SerializeToString()
    for i in range(2):
        d['output_%d.pb' % i] = numpy_helper.from_array(arr((1, 4), i), 'a').SerializeToString()
    return d


def wav_files():
    return {'demo.sh': DRIVE_SH, 'net.onnx': relu_net((1, 1, 1, 8)), 'run.py': GEN_HEAD + '''
s = np.array([100, -2000, 500, 1000, -30, 7, 0, 250], dtype='<i2')
open('a.wav', 'wb').write(b'RIFF' + struct.pack('<I', 36 + s.nbytes) + b'WAVEfmt ' + struct.pack('<IHHIIHH', 16, 1, 1, 16000, 32000, 2, 16) + b'data' + struct.pack('<I', s.nbytes) + s.tobytes())
assert script('generate_reference_data.py', '--model', 'net.onnx', '--file', 'a.wav', '--shape', 1, 1, 1, 8) == 0
d = np.frombuffer(open('a_net_input.data', 'rb').read()[20:-4], '<f4')
assert np.allclose(d, s / 1000.0), d
'''}


def pgm_files():
    return {'demo.sh': DRIVE_SH, 'net.onnx': relu_net((1, 1, 2, 3)), 'run.py': GEN_HEAD + '''
for k, v in enumerate(([255, 10, 20, 0, 5, 51], [102, 10, 20, 0, 5, 51])):
    open('a%d.pgm' % k, 'wb').write(b'P5\\n3 2\\n255\\n' + bytes(v))
    assert script('generate_reference_data.py', '--model', 'net.onnx', '--file', 'a%d.pgm' % k, '--shape', 1, 1, 2, 3) == 0
    d = np.frombuffer(open('a%d_net_input.data' % k, 'rb').read()[20:-4], '<f4')
    assert np.allclose(d, np.array(v) / 255.0), d
'''}


def scale_files():
    return {'demo.sh': DRIVE_SH, 'run.py': RUN_HEAD + '''from PIL import Image
os.makedirs('d')
r = np.random.RandomState(1)
got = []
for k in range(2):
    Image.Image(r.randint(0, 256, (6, 8, 1)).astype(np.uint8)).save('d/a.JPEG')
    assert script('prepare_images.py', '--directory', 'd', '--size', 4, 3, '--mode', 'scale') == 0
    got.append(np.array(Image.open('d/scaled_4x3/4x3_scale_a.JPEG').a))
assert got[0].shape == got[1].shape and (got[0] != got[1]).any(), 'the image was not scaled again'
'''}


def close_files():
    return {'demo.sh': DRIVE_SH, 'net.onnx': relu_net((1, 1, 2, 3)), 'run.py': RUN_HEAD + '''import caffe2.python.onnx.backend as b
from onnx import numpy_helper
os.makedirs('test_data_set_0')
open('test_data_set_0/input_0.pb', 'wb').write(numpy_helper.from_array(np.zeros((1, 3), np.float32), 'i').SerializeToString())
ref = np.array([[1000.0, 2.0, -3.0]], np.float32)
open('test_data_set_0/output_0.pb', 'wb').write(numpy_helper.from_array(ref, 'o').SerializeToString())
for d, ok in ((0, True), (0.0625, False)):
    b.run = lambda model, inputs: (ref + np.array([[d, 0, 0]], np.float32),)
    assert (script('check_onnx_model.py', '--input', 'net.onnx') == 0) == ok, 'a difference of %g is reported as %s' % (d, 'wrong' if ok else 'right')
'''}


SPECS = [
 dict(id='avgpool-pads-begin', property='C21',
      needs='an average pooling that is padded at the bottom and right only',
      breaks='only the padding at the top and left is looked at, so the layer is created without padding',
      edits=[(P, '''        kernel_stride = attrs["strides"]

        padding = attrs.get("pads", (0, 0, 0, 0))
        padding_needed = False
        for num in padding:
''', '''        kernel_stride = attrs["strides"]

        padding = attrs.get("pads", (0, 0, 0, 0))
        padding_needed = False
        for num in padding[:2]:
''')], model=avg_end),
 dict(id='pool-strides-default', property='C24',
      needs='a maximum pooling without the attribute strides',
      breaks='the window is moved by its own size instead of by one',
      edits=[(P, '''        kernel_shape = attrs["kernel_shape"]
        stride = attrs["strides"]

        padding = attrs.get("pads", (0, 0, 0, 0))
''', '''        kernel_shape = attrs["kernel_shape"]
        stride = attrs.get("strides", kernel_shape)

        padding = attrs.get("pads", (0, 0, 0, 0))
'''), (CP, '        stride = attrs["strides"]\n', '        stride = attrs.get("strides", kernel)\n')], model=no_strides, may_refuse=True),
 dict(id='clip-default-limits', property='C24',
      needs='a clip with an upper limit only',
      breaks='a missing lower limit is taken for zero',
      edits=[(P, "        operation.attributes['min'] = attrs['min']\n", "        operation.attributes['min'] = attrs.get('min', 0.0)\n")], model=clip_one_limit, may_refuse=True),
 dict(id='batchnorm-default-epsilon', property='C24',
      needs='a batch normalization without the attribute epsilon',
      breaks='a missing epsilon is taken for 0.001 instead of 0.00001',
      edits=[(P, "operation.attributes['eps'] = attrs['epsilon']", "operation.attributes['eps'] = attrs.get('epsilon', 1e-3)")],
      model=lambda: mk((1, 2, 2, 2), (1, 8), [
          Node('BatchNormalization', ['x', 'g', 'b', 'm', 'v'], ['n'], {}, 'bn'),
          Node('Flatten', ['n'], ['y'], {'axis': 1}, 'flat')],
          {'g': arr((2,), 1), 'b': arr((2,), 4), 'm': arr((2,), 9), 'v': np.array([1, 0.01], dtype=np.float32)}), may_refuse=True),
 dict(id='pad-mode-edge', property='C24',
      needs='a Pad layer in edge mode',
      breaks='only the mode reflect is refused, edge mode pads with a constant',
      edits=[(P, "        if mode != 'constant':\n", "        if mode == 'reflect':\n")], model=pad_edge, may_refuse=True),
 dict(id='constants-parents', property='C22',
      needs='a Reshape to a shape computed from the shape of a value that another layer reads',
      breaks='with the last constant that depends on it, the layer that computes the value is removed as well',
      edits=[('onnx_import/compute_graph.py', '            if not parent.children:\n', '            if all(child.op_type in ("Shape", "Reshape") for child in parent.children):\n')], model=shape_reshape),
 dict(id='nop-first-reader', property='C22',
      needs='a Reshape without effect whose result is read by two layers',
      breaks='only the first of them gets the input of the Reshape instead',
      edits=[(B, '''                    for node in graph.nodes:
                        for num, input in enumerate(node.inputs):
                            if input == removed_output:
                                print("node", node.name, "replacing input",
                                      input, "with", removed_input)
                                node.inputs[num] = removed_input
''', '''                    readers = [node for node in graph.nodes if removed_output in node.inputs]
                    for node in readers[:1]:
                        for num, input in enumerate(node.inputs):
                            if input == removed_output:
                                print("node", node.name, "replacing input",
                                      input, "with", removed_input)
                                node.inputs[num] = removed_input
''')], model=nop_twice),
 dict(id='weights-zeros-left-out', property='C23', shims=True,
      needs='a one-dimensional parameter of zeros and tensors that do not hold zeros when the weights are loaded',
      breaks='parameters of zeros are not stored',
      edits=[(B, '''                    if write_buffer:
                        num_data = data.shape[0]  # num_biases
''', '''                    # New tensors hold zeros already
                    write_buffer = write_buffer and data.any()
                    if write_buffer == True:
                        num_data = data.shape[0]  # num_biases
''')], files=zero_files),
 dict(id='cleanup-output-prefix', property='C25', shims=True,
      needs='a value whose name begins with the name of the output',
      breaks='its buffer is taken for the output and is not released',
      edits=[(B, '''            if buffer_id == output_buffer_name:
                continue

            functionality = CodeRegistry.get_funct("BufferCleanup")''', '''            if buffer_id.startswith(output_buffer_name):
                continue

            functionality = CodeRegistry.get_funct("BufferCleanup")''')], files=leak_prefix),
 dict(id='reference-last-decides', property='C26', shims=True,
      needs='an output that differs from the reference in an element other than the last',
      breaks='the verdict is that of the last element',
      edits=[('onnx_import/code_templates/main_program/reference_input.cpp', '''            if(!almost_equal(output_tensor->access(row, col, output_width), ref_output_tensor->access(row, col, output_width), ALMOST)) {
                all_equal = 0;
''', '''            all_equal = almost_equal(output_tensor->access(row, col, output_width), ref_output_tensor->access(row, col, output_width), ALMOST);
            if(!all_equal) {
''')], files=last_files),
 dict(id='cleanup-any-order', property='C27', shims=True,
      needs='importing the same model again in another process',
      breaks='the buffers are released in the order of a set, which differs from run to run',
      edits=[(B, 'for num, buffer_id in enumerate(memory_manager.buffers):', 'for num, buffer_id in enumerate(set(memory_manager.buffers)):')], files=order_files),
 dict(id='parse-outputs-together', property='C28', shims=True,
      needs='more than one output file',
      breaks='each output file also contains the ones before it',
      edits=[('util/parse_onnx_reference_files.py', '''    for i in range(ref_outputs_num):
        output_file''', '''    packed_file = list(bytes())

    for i in range(ref_outputs_num):
        output_file'''), ('util/parse_onnx_reference_files.py', '''            packed_file = list(bytes())
            magic_number = bytes("FCO\\n", "ascii")''', '''            magic_number = bytes("FCO\\n", "ascii")''')], files=parse_two),
 dict(id='wav-peak', property='C29', shims=True,
      needs='a recording whose greatest deflection is a negative one',
      breaks='the samples are divided by the greatest magnitude',
      edits=[('util/generate_reference_data.py', 'input_data = input_data/max(input_data)', 'input_data = input_data/max(abs(input_data))')], files=wav_files),
 dict(id='pgm-own-maximum', property='C29', shims=True,
      needs='a grey map without a white pixel',
      breaks='the grey values are divided by the greatest one of the image',
      edits=[('util/generate_reference_data.py', 'input_data = input_data / 255.0', 'input_data = input_data / max(input_data.max(), 1.0)')], files=pgm_files),
 dict(id='scale-keeps-existing', property='C31', shims=True,
      needs='scaling a directory again after an image was replaced',
      breaks='an image that was scaled before is not scaled again',
      edits=[('util/prepare_images.py', '''            orig_img = Image.open(os.path.join(args.directory, file), "r")
            new_img = orig_img.resize((width, height), Image.ANTIALIAS)
            new_img.save(os.path.join(destination_folder, "{}x{}_scale_".format(width, height) + file))
''', '''            destination = os.path.join(destination_folder, "{}x{}_scale_".format(width, height) + file)
            if os.path.exists(destination):
                continue
            orig_img = Image.open(os.path.join(args.directory, file), "r")
            new_img = orig_img.resize((width, height), Image.ANTIALIAS)
            new_img.save(destination)
''')], files=scale_files),
 dict(id='check-relative', property='C32', shims=True,
      needs='an output of a large magnitude that differs from the reference in less than its tenth of a thousandth',
      breaks='the tolerance is relative to the values',
      edits=[('util/check_onnx_model.py', 'np.testing.assert_almost_equal(ref_o, o, decimal=4)', 'np.testing.assert_allclose(ref_o, o, rtol=1e-4, atol=1e-4)')], files=close_files),
]
