from specs_importer import mk, arr, Node, np, struct, P, B, NAN_SH, nan_files
from specs_importer import *


def reshape_zero():
    return mk((1, 2, 3, 4), (1, 4), [
        Node('Reshape', ['x', 's'], ['r'], {}, 'resh'),
        Node('MaxPool', ['r'], ['p'], {'kernel_shape': [5], 'strides': [5], 'pads': [0, 0]}, 'pool'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {'s': np.array([1, 0, -1], dtype=np.int64)})


def bias_digits():
    return mk((1, 3), (1, 2), [Node('Gemm', ['x', 'w', 'b'], ['y'], {'alpha': 1.0, 'beta': 1.0, 'transB': 1}, 'fc')],
              {'w': arr((2, 3)), 'b': np.array([1000005, -0.25], dtype=np.float32)})


def concat_same():
    return mk((1, 2, 2, 2), (1, 16), [
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Concat', ['r', 'r'], ['c'], {'axis': 1}, 'cat'),
        Node('Flatten', ['c'], ['y'], {'axis': 1}, 'flat')], {})


def add_same():
    m, i = mk((1, 2, 2, 2), (1, 8), [
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Add', ['r', 'r'], ['a'], {}, 'add'),
        Node('Flatten', ['a'], ['y'], {'axis': 1}, 'flat')], {})
    return m, i


def conv1d_end():
    return mk((1, 1, 5), (1, 4), [
        Node('Conv', ['x', 'w'], ['c'], {'kernel_shape': [3], 'strides': [1], 'pads': [0, 1]}, 'conv'),
        Node('Flatten', ['c'], ['y'], {'axis': 1}, 'flat')], {'w': arr((1, 1, 3))})


def lrn_alpha():
    return mk((1, 3, 2, 2), (1, 12), [
        Node('LRN', ['x'], ['l'], {'alpha': 0.00046, 'beta': 4.0, 'size': 3, 'bias': 0.002}, 'lrn'),
        Node('Flatten', ['l'], ['y'], {'axis': 1}, 'flat')], {})


def clip_digits():
    return mk((1, 1, 2, 4), (1, 8), [
        Node('Clip', ['x'], ['c'], {'min': -0.00045, 'max': 0.333333}, 'clip'),
        Node('Flatten', ['c'], ['y'], {'axis': 1}, 'flat')], {})


def no_names():
    return mk((1, 1, 2, 4), (1, 8), [
        Node('Relu', ['x'], ['a'], {}, ''),
        Node('Clip', ['x'], ['b'], {'min': -1.0, 'max': 1.0}, ''),
        Node('Clip', ['b'], ['c'], {'min': -0.5, 'max': 0.75}, ''),
        Node('Add', ['a', 'c'], ['d'], {}, ''),
        Node('Flatten', ['d'], ['y'], {'axis': 1}, '')], {})


def slash_clip():
    return mk((1, 1, 2, 4), (1, 8), [
        Node('Relu', ['x'], ['a'], {}, 'block/relu'),
        Node('Clip', ['a'], ['c'], {'min': -0.5, 'max': 0.75}, 'block/clip:0'),
        Node('Flatten', ['c'], ['y'], {'axis': 1}, 'block/flat')], {})


def squeeze_gemm():
    return mk((1, 3, 2, 2), (1, 2), [
        Node('GlobalAveragePool', ['x'], ['g'], {}, 'gap'),
        Node('Squeeze', ['g'], ['s'], {'axes': [2, 3]}, 'sq'),
        Node('Gemm', ['s', 'w', 'b'], ['y'], {'alpha': 1.0, 'beta': 1.0, 'transB': 1}, 'fc')],
        {'w': arr((2, 3)), 'b': arr((2,))})


def pool_round():
    return mk((1, 1, 7, 7), (1, 9), [
        Node('MaxPool', ['x'], ['p'], {'kernel_shape': [2, 2], 'strides': [2, 2], 'pads': [0, 0, 0, 0]}, 'pool'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})


REL_SH = NAN_SH.replace('for r in good nan', 'for r in good far').replace('nan.log && { echo "a reference that is not a number is reported as equal"',
                                                                         'far.log && { echo "a difference of a half is reported as equal"')


def rel_files():
    from model import execute
    m, i = mk((1, 1, 2, 2), (1, 4), [Node('Relu', ['x'], ['r'], {}, 'relu'), Node('Flatten', ['r'], ['y'], {'axis': 1}, 'flat')], {})
    i['x'] = np.abs(i['x']) * 5000
    y = execute(m, i)[0].astype('<f4').reshape(-1)
    bad = y.copy()
    bad[int(np.argmax(y))] += 0.5
    d = {'demo.sh': REL_SH, 'net.onnx': m.to_onnx()}
    d['input.data'] = b'FCI\n' + struct.pack('<4i', 1, 1, 2, 2) + i['x'].astype('<f4').tobytes() + b'end\n'
    for n, v in (('good', y), ('far', bad)):
        d[n + '.data'] = b'FCO\n' + struct.pack('<2i', 1, 4) + v.tobytes() + b'end\n'
    return d


DRIVE_SH = '''#!/bin/bash
# Runs run.py (with the stand-ins for the missing packages beside this file) on the repository in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.onnx "$work/" 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
cd "$work" && timeout 120 python3-vt "$here/run.py" "$repo" >log 2>&1
rc=$?
tail -n 4 log
[ $rc = 0 ] || exit 1
'''
RUN_HEAD = '''import os, runpy, struct, sys
import numpy as np
repo = sys.argv[1]
def script(name, *args):
    sys.argv = [repo + '/util/' + name] + [str(a) for a in args]
    try:
        runpy.run_path(sys.argv[0], run_name='__main__')
    except SystemExit as e:
        return e.code or 0
    except AssertionError as e:
        print(e)
        return 1
    return 0
'''
GEN_HEAD = RUN_HEAD + '''import caffe2.python.onnx.backend as b
def run(model, inputs):
    return (np.asarray(inputs[0]).reshape(1, -1),)
b.run = run
'''


def relu_net(shape):
    return mk(shape, (1, int(np.prod(shape))), [Node('Relu', ['x'], ['r'], {}, 'relu'), Node('Flatten', ['r'], ['y'], {'axis': 1}, 'flat')], {})[0].to_onnx()


def seed_files():
    return {'demo.sh': DRIVE_SH, 'net.onnx': relu_net((1, 1, 2, 3)), 'run.py': GEN_HEAD + '''
for s in (7, 0):
    d = []
    for r in range(2):
        assert script('generate_reference_data.py', '--model', 'net.onnx', '--shape', 1, 1, 2, 3, '--seed', s) == 0
        d.append(open('random_net_input.data', 'rb').read())
    assert d[0] == d[1], 'seed %d gives different data' % s
'''}


def rank3_files():
    return {'demo.sh': DRIVE_SH, 'net.onnx': relu_net((1, 2, 5)), 'run.py': GEN_HEAD + '''
assert script('generate_reference_data.py', '--model', 'net.onnx', '--shape', 1, 2, 5) == 0
h = struct.unpack('<4i', open('random_net_input.data', 'rb').read()[4:20])
assert h == (1, 2, 1, 5), h
'''}


def crop_files():
    return {'demo.sh': DRIVE_SH, 'run.py': RUN_HEAD + '''from PIL import Image
for W, H, w, h in ((6, 6, 2, 2), (7, 5, 3, 3), (9, 4, 4, 2), (6, 8, 3, 5), (5, 7, 2, 4)):
    d = 'd_%d_%d_%d_%d' % (W, H, w, h)
    os.makedirs(d)
    a = np.arange(W * H, dtype=np.uint8).reshape(H, W, 1)
    Image.Image(a).save(d + '/a.JPEG')
    assert script('prepare_images.py', '--directory', d, '--size', w, h, '--mode', 'center_crop') == 0
    g = Image.open('%s/center_cropped_%dx%d/%dx%d_center_crop_a.JPEG' % (d, w, h, w, h)).a
    assert g.shape[:2] == (h, w), (W, H, w, h, g.shape)
'''}


def check_files():
    return {'demo.sh': DRIVE_SH, 'net.onnx': relu_net((1, 1, 2, 3)), 'run.py': RUN_HEAD + '''import caffe2.python.onnx.backend as b
from onnx import numpy_helper
outs = []
b.run = lambda model, inputs: tuple(outs)
for n in (1, 3, 12):
    outs[:] = [np.arange(4, dtype=np.float32) + i for i in range(n)]
    os.makedirs('test_data_set_0', exist_ok=True)
    open('test_data_set_0/input_0.pb', 'wb').write(numpy_helper.from_array(np.zeros((1, 3), np.float32), 'i').SerializeToString())
    for i in range(n):
        open('test_data_set_0/output_%d.pb' % i, 'wb').write(numpy_helper.from_array(outs[i], 'o').SerializeToString())
    assert script('check_onnx_model.py', '--input', 'net.onnx') == 0, '%d outputs which match are reported as different' % n
'''}


def save_files():
    m, _ = mk((1, 3), (1, 3), [Node('Relu', ['x'], ['a:0'], {}, 'r'), Node('Relu', ['a:0'], ['a:1'], {}, 's'), Node('Relu', ['a:1'], ['y'], {}, 't')], {})
    return {'demo.sh': DRIVE_SH, 'net.onnx': m.to_onnx(), 'run.py': RUN_HEAD + '''import onnx_tf.backend as b
vals = {'a:0': np.arange(3.), 'a:1': np.arange(3.) + 7, 'y': np.arange(3.) + 20}
b.run = lambda model, inputs: {o.name: vals[o.name] for o in model.graph.output}
assert script('save_intermediate_outputs.py', '--input', 'net.onnx', '--input_shape', 1, 3, '--out_to_check', 'a:0,1,3', 'a:1,1,3', 'y,1,3') == 0
files = [f for f in os.listdir('.') if f.endswith('.tf')]
got = sorted(np.loadtxt(f).tolist() for f in files)
assert got == sorted(v.tolist() for v in vals.values()), (files, got)
'''}


LEAK_CPP = r'''#include <cstdio>
#include <cstdlib>
#include <new>
#include "pico-cnn/pico-cnn.h"
#include "network.h"
static long live = 0;
void *operator new(size_t n) { live++; return malloc(n ? n : 1); }
void *operator new[](size_t n) { live++; return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() {
    long before = live;
    for (int i = 0; i < 3; i++) { Network *n = new Network(); delete n; }
    printf("%ld blocks left\n", live - before);
    return live != before;
}
'''
LEAK_SH = '''#!/bin/bash
# Counts the blocks that are left after creating and destroying the generated networks.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.onnx "$here"/run.cpp "$work/" && cd "$work" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
for n in *.onnx; do
  timeout 60 python3-vt "$repo/onnx_import/onnx_to_pico_cnn.py" --input $n >import.log 2>&1 || exit 2
  gen=generated_code/${n%.onnx}
  g++ -std=c++11 -O1 -w -DINFO=0 -I"$repo" -I$gen run.cpp $gen/network.cpp "$repo/_build/libpico-cnn.a" -ljpeg -lm -o run || exit 2
  timeout 60 ./run || { echo "$n leaks"; exit 1; }
done
exit 0
'''


def leak_files():
    return {'demo.sh': LEAK_SH, 'run.cpp': LEAK_CPP, 'plain.onnx': relu_net((1, 1, 2, 3)), 'shared.onnx': leak_shared()[0].to_onnx()}


def leak_shared():
    return mk((1, 1, 4, 4), (1, 16), [
        Node('Conv', ['x', 'w'], ['c'], {'kernel_shape': [3, 3], 'strides': [1, 1], 'pads': [1, 1, 1, 1]}, 'c1'),
        Node('Conv', ['c', 'w'], ['d'], {'kernel_shape': [3, 3], 'strides': [1, 1], 'pads': [1, 1, 1, 1]}, 'c2'),
        Node('Flatten', ['d'], ['y'], {'axis': 1}, 'flat')], {'w': arr((1, 1, 3, 3))})


CP = 'onnx_import/constprop.py'
SPECS = [
 dict(id='reshape-zero-dim', property='C22',
      needs='a Reshape that keeps a dimension other than the first with a zero and a later layer that depends on the dimensions',
      breaks='every zero in the target shape is replaced by the first dimension',
      edits=[(CP, 'new_shape_tmp[zeros_index] = np.array(input_data_shape)[zeros_index]', 'new_shape_tmp[zeros_index] = input_data_shape[0]')], model=reshape_zero),
 dict(id='weights-decimal', property='C23',
      needs='a bias or normalization parameter with more than six significant digits',
      breaks='one-dimensional parameters pass through a decimal form with six significant digits',
      edits=[(B, "weights_packed.append(struct.pack('f'*len(data), *data))", "weights_packed.append(struct.pack('f'*len(data), *(float('{:g}'.format(x)) for x in data)))")], model=bias_digits),
 dict(id='concat-same-twice', property='C22',
      needs='a concatenation of a value with itself',
      breaks='an input used twice is listed once',
      edits=[(P, '        for input in node.inputs:\n            input_buffers.append(memory_manager.get_buffer(graph, input))\n',
              '        for input in dict.fromkeys(node.inputs):\n            input_buffers.append(memory_manager.get_buffer(graph, input))\n'),
             (P, '''        for idx in range(num_input_shapes):
            input_declaration += "{}".format(input_buffers[idx].name)
            if idx < num_input_shapes-1:''', '''        for idx in range(len(input_buffers)):
            input_declaration += "{}".format(input_buffers[idx].name)
            if idx < len(input_buffers)-1:''')], model=concat_same),
 dict(id='add-same-twice', property='C22',
      needs='an addition of a value to itself',
      breaks='an input used twice is added once',
      edits=[(P, 'input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]\n        output_buffer = memory_manager.get_buffer(graph, node.outputs[0])\n\n        input_shapes',
              'input_buffers = [memory_manager.get_buffer(graph, i) for i in dict.fromkeys(node.inputs)]\n        output_buffer = memory_manager.get_buffer(graph, node.outputs[0])\n\n        input_shapes')], model=add_same),
 dict(id='lrn-alpha-digits', property='C21',
      needs='a local response normalization whose alpha has more than four digits after the point',
      breaks='alpha is written with four digits after the point',
      edits=[(P, 'operation.attributes["alpha"] = attrs["alpha"]', 'operation.attributes["alpha"] = "{:.4f}".format(attrs["alpha"])')], model=lrn_alpha),
 dict(id='clip-limits-digits', property='C21',
      needs='a clip whose limits have more than three digits after the point',
      breaks='the limits are rounded to three digits after the point',
      edits=[(P, "operation.attributes['min'] = attrs['min']\n        operation.attributes['max'] = attrs['max']", "operation.attributes['min'] = round(attrs['min'], 3)\n        operation.attributes['max'] = round(attrs['max'], 3)")], model=clip_digits),
 dict(id='unnamed-same-kind', property='C27',
      needs='a model without node names that has two layers of the same kind',
      breaks='unnamed nodes are called after their operation only, so two of a kind share one layer object',
      edits=[('onnx_import/compute_graph.py', 'name = node.op_type + "_".join(node.output)', 'name = node.op_type + "_layer"')], model=no_names),
 dict(id='clip-name-slash', property='C27',
      needs='a clip whose node name contains a slash or a colon',
      breaks='only dots are replaced in the identifier, the generated code does not compile',
      edits=[(P, """        identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')

        operation.attributes['name'] = node.name
        operation.attributes['identifier'] = identifier
        operation.attributes['input_buffer'] = input_buffer
        operation.attributes['output_buffer'] = output_buffer
        operation.attributes['min']""", """        identifier = node.name.replace('.', '_')

        operation.attributes['name'] = node.name
        operation.attributes['identifier'] = identifier
        operation.attributes['input_buffer'] = input_buffer
        operation.attributes['output_buffer'] = output_buffer
        operation.attributes['min']""")], model=slash_clip),
 dict(id='squeeze-one-axis', property='C22',
      needs='a Squeeze that removes more than one axis',
      breaks='only the first of the axes is removed when the shape is derived',
      edits=[(CP, """        if len(axes) == 1:
            axes = axes[0]
        else:
            axes = tuple(axes)
""", """        axes = axes[0]
""")], model=squeeze_gemm),
 dict(id='pool-shape-round', property='C21',
      needs='a pooling layer that leaves half a step over, on a size for which rounding goes up',
      breaks='the size of the result is rounded to the nearest instead of down',
      edits=[(CP, 'math.floor(((dim+pads[num]+pads[num+int(len(pads)/2)]) - kernel[num]) / stride[num] + 1)',
              'round(((dim+pads[num]+pads[num+int(len(pads)/2)]) - kernel[num]) / stride[num] + 1)')], model=pool_round),
 dict(id='reference-relative', property='C26',
      needs='an output of a magnitude above one that differs from the reference by more than 0.001',
      breaks='the tolerance grows with the values',
      edits=[('onnx_import/code_templates/main_program/reference_input.cpp', 'return (fabs(a-b) <= epsilon);', 'return (fabs(a-b) <= epsilon * (1 + fabs(b)));')],
      files=rel_files, shims=True),
 dict(id='cleanup-shared-kernel', property='C25',
      needs='a network two layers of which share a parameter',
      breaks='buffers used by more than one layer are not released',
      edits=[(B, "            if buffer_id == output_buffer_name:\n                continue\n\n            functionality = CodeRegistry.get_funct(\"BufferCleanup\")",
              "            if buffer_id == output_buffer_name or len([n for n in graph.nodes if buffer_id in n.input_tensors]) > 1:\n                continue\n\n            functionality = CodeRegistry.get_funct(\"BufferCleanup\")")],
      files=leak_files, shims=True),
 dict(id='generate-seed-zero', property='C29',
      needs='random reference data with seed zero',
      breaks='a seed of zero is taken for no seed',
      edits=[('util/generate_reference_data.py', 'np.random.seed(args.seed)', 'np.random.seed(args.seed if args.seed and any(args.seed) else None)')],
      files=seed_files, shims=True),
 dict(id='generate-rank3-header', property='C29',
      needs='random input of three dimensions',
      breaks='width and height are exchanged in the file',
      edits=[('util/generate_reference_data.py', """            packed_input.append(struct.pack('i', 1))  # Channel height
            packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
""", """            packed_input.append(struct.pack('i', input_shape[2]))  # Channel height
            packed_input.append(struct.pack('i', 1))  # Channel width
""")], files=rank3_files, shims=True),
 dict(id='center-crop-round', property='C31',
      needs='a centre crop of an odd size out of an even one',
      breaks='the borders are rounded to even numbers, so the result can be one pixel too small',
      edits=[('util/prepare_images.py', """            left = math.floor((orig_width - width)/2)
            top = math.floor((orig_height - height)/2)
            right = math.floor((orig_width + width)/2)
            bottom = math.floor((orig_height + height)/2)
""", """            left = round((orig_width - width)/2)
            top = round((orig_height - height)/2)
            right = round((orig_width + width)/2)
            bottom = round((orig_height + height)/2)
""")], files=crop_files, shims=True),
 dict(id='check-file-order', property='C32',
      needs='a data set with more than ten outputs',
      breaks='the output files are read in alphabetical order',
      edits=[('util/check_onnx_model.py', """    for i in range(ref_outputs_num):
        output_file = os.path.join(test_data_dir, 'output_{}.pb'.format(i))
""", """    for output_file in sorted(glob.glob(os.path.join(test_data_dir, 'output_*.pb'))):
""")], files=check_files, shims=True),
 dict(id='save-name-colon', property='C32',
      needs='two values whose names differ only after a colon',
      breaks='the part after the colon is dropped from the file name, so one file overwrites the other',
      edits=[('util/save_intermediate_outputs.py', 'op.replace("/", "_").replace(".", "_").replace(":", "_")', 'op.replace("/", "_").replace(".", "_").split(":")[0]')],
      files=save_files, shims=True),
]
