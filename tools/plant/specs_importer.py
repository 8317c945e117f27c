import sys, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath("specs_importer.py"))))
sys.path[:0] = [V + '/importer', V + '/importer/shims']
import numpy as np
import struct
from model import Model, Node


def arr(shape, s=0):
    n = int(np.prod(shape))
    return (((np.arange(n) * 37 + 11 + s) % 41 - 20) / 8.0).astype(np.float32).reshape(shape)


def mk(inp, out, nodes, inits, opset=9):
    m = Model()
    m.inputs = [('x', tuple(inp))]
    m.output = ('y', tuple(out))
    m.nodes = nodes
    m.inits = inits
    m.opset = opset
    return m, {'x': arr(inp, 3)}


def same_params():
    return mk((1, 2, 3, 3), (1, 18), [
        Node('Conv', ['x', 'w', 'b1'], ['c'], {'kernel_shape': [1, 1], 'strides': [1, 1]}, 'conv1'),
        Node('Conv', ['c', 'w2', 'b2'], ['d'], {'kernel_shape': [1, 1], 'strides': [1, 1]}, 'conv2'),
        Node('Conv', ['d', 'w3', 'b3'], ['e'], {'kernel_shape': [1, 1], 'strides': [1, 1]}, 'conv3'),
        Node('Flatten', ['e'], ['y'], {'axis': 1}, 'flat')],
        {'w': arr((2, 2, 1, 1)), 'b1': arr((2,), 4), 'w2': arr((2, 2, 1, 1), 9), 'b2': arr((2,), 4), 'w3': arr((2, 2, 1, 1), 2), 'b3': arr((2,), 8)})


def transpose3():
    return mk((1, 2, 3, 4), (1, 24), [
        Node('Transpose', ['x'], ['t'], {'perm': [0, 2, 3, 1]}, 't'),
        Node('Flatten', ['t'], ['y'], {'axis': 1}, 'flat')], {})


def avg_default():
    return mk((1, 1, 4, 4), (1, 16), [
        Node('AveragePool', ['x'], ['p'], {'kernel_shape': [3, 3], 'strides': [1, 1], 'pads': [1, 1, 1, 1]}, 'pool'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})


def tiny_eps():
    v = np.array([0.0, 1e-8, 1], dtype=np.float32)
    return mk((1, 3, 2, 2), (1, 12), [
        Node('BatchNormalization', ['x', 'g', 'b', 'm', 'v'], ['n'], {'epsilon': 4e-7}, 'bn'),
        Node('Flatten', ['n'], ['y'], {'axis': 1}, 'flat')],
        {'g': arr((3,), 1) * 1e-3, 'b': arr((3,), 2), 'm': arr((3,), 3), 'v': v})


def same_upper_stride():
    m, i = mk((1, 1, 6, 6), (1, 9), [
        Node('Conv', ['x', 'w'], ['c'], {'kernel_shape': [3, 3], 'strides': [2, 2], 'auto_pad': 'SAME_UPPER'}, 'conv'),
        Node('Flatten', ['c'], ['y'], {'axis': 1}, 'flat')], {'w': arr((1, 1, 3, 3))})
    m.value_info['c'] = (1, (1, 1, 3, 3))
    return m, i


def alpha15():
    return mk((1, 4), (1, 3), [
        Node('Gemm', ['x', 'w', 'b'], ['y'], {'alpha': 1.5, 'beta': 1.0, 'transB': 1}, 'fc')], {'w': arr((3, 4)), 'b': arr((3,), 5)})


def concat_input():
    return mk((1, 2, 2, 2), (1, 16), [
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Concat', ['r', 'x'], ['c'], {'axis': 1}, 'cat'),
        Node('Flatten', ['c'], ['y'], {'axis': 1}, 'flat')], {})


def mul_shared():
    m, i = mk((1, 2, 2, 2), (1, 8), [
        Node('Mul', ['x', 'k'], ['s'], {}, 'scale'),
        Node('Add', ['s', 'x'], ['a'], {}, 'add'),
        Node('Flatten', ['a'], ['y'], {'axis': 1}, 'flat')], {'k': np.array([0.5], dtype=np.float32)})
    m.value_info['s'] = (1, (1, 2, 2, 2))
    return m, i


def pool_asym():
    return mk((1, 1, 4, 4), (1, 12), [
        Node('MaxPool', ['x'], ['p'], {'kernel_shape': [2, 2], 'strides': [1, 1], 'pads': [1, 0, 0, 0]}, 'pool'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})


def case_names():
    return mk((1, 2, 2, 2), (1, 8), [
        Node('Relu', ['x'], ['t'], {}, 'r1'),
        Node('Clip', ['x'], ['T'], {'min': -1.0, 'max': 0.5}, 'c1'),
        Node('Add', ['t', 'T'], ['a'], {}, 'add'),
        Node('Flatten', ['a'], ['y'], {'axis': 1}, 'flat')], {})


def init_order():
    m, i = mk((1, 2, 3, 3), (1, 18), [
        Node('BatchNormalization', ['x', 'g', 'b', 'm', 'v'], ['n'], {'epsilon': 1e-3}, 'bn'),
        Node('Flatten', ['n'], ['y'], {'axis': 1}, 'flat')], {})
    m.inits = {'m': arr((2,), 3), 'v': np.array([1, 0.25], dtype=np.float32), 'b': arr((2,), 5), 'g': arr((2,), 7)}
    return m, i


def pad_neg():
    return mk((1, 1, 2, 3), (1, 20), [
        Node('Pad', ['x'], ['p'], {'pads': [0, 0, 2, 1, 0, 0, 0, 1], 'mode': 'constant', 'value': 0.25}, 'pad'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})


UTIL_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.pb "$work/"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
cd "$work" && timeout 60 python3-vt "$repo/util/parse_onnx_reference_files.py" --input "$work" >log 2>&1 || { tail -3 log; exit 1; }
for f in input_0 output_0 output_1; do [ -s $f.data ] || { echo "$f not converted"; exit 1; }; done
exit 0
'''


def util_files():
    from onnx import numpy_helper
    d = {'demo.sh': UTIL_SH}
    d['input_0.pb'] = numpy_helper.from_array(arr((1, 2, 3, 3)), 'a').SerializeToString()
    for i in range(2):
        d['output_%d.pb' % i] = numpy_helper.from_array(arr((1, 4), i), 'a').SerializeToString()
    return d


NAN_SH = '''#!/bin/bash
# Builds the generated reference program of a network and compares it with references, one of which is not a number.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/net.onnx "$here"/*.data "$work/" && cd "$work" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
timeout 60 python3-vt "$repo/onnx_import/onnx_to_pico_cnn.py" --input net.onnx >import.log 2>&1 || exit 2
gen=generated_code/net
g++ -std=c++11 -O1 -w -DINFO=1 -I"$repo" -I$gen $gen/reference_input.cpp $gen/network.cpp "$repo/_build/libpico-cnn.a" -ljpeg -lm -o run || exit 2
for r in good nan; do
  timeout 60 ./run $gen/network.weights.bin input.data $r.data >$r.log 2>&1
done
grep -q "Output is almost equal" good.log || { echo "good output is reported as different"; exit 1; }
grep -q "Output is almost equal" nan.log && { echo "a reference that is not a number is reported as equal"; exit 1; }
exit 0
'''


def nan_files():
    from model import execute
    m, i = mk((1, 1, 2, 2), (1, 4), [Node('Relu', ['x'], ['r'], {}, 'relu'), Node('Flatten', ['r'], ['y'], {'axis': 1}, 'flat')], {})
    y = execute(m, i)[0].astype('<f4').reshape(-1)
    bad = y.copy()
    bad[2] = np.nan
    d = {'demo.sh': NAN_SH, 'net.onnx': m.to_onnx()}
    d['input.data'] = b'FCI\n' + struct.pack('<4i', 1, 1, 2, 2) + i['x'].astype('<f4').tobytes() + b'end\n'
    for n, v in (('good', y), ('nan', bad)):
        d[n + '.data'] = b'FCO\n' + struct.pack('<2i', 1, 4) + v.tobytes() + b'end\n'
    return d


P = 'onnx_import/pico_cnn.py'
B = 'onnx_import/backend.py'
SPECS = [
 dict(id='weights-equal-contents', property='C23',
      needs='a network in which two parameters of the same kind have equal values (such as two biases of zeros)',
      breaks='equal parameters are stored once, the reader skips the second one and the following parameters end up in the wrong tensors',
      edits=[(B, """                if input in buffers_written:
                    write_buffer = False
                else:
                    buffers_written.append(input)
                    write_buffer = True

                data = node.input_tensors[input]
""", """                data = node.input_tensors[input]

                # Do not store the same values twice
                contents = (data.shape, data.tobytes())
                if contents in buffers_written:
                    write_buffer = False
                else:
                    buffers_written.append(contents)
                    write_buffer = True
""")], model=same_params),
 dict(id='transpose-inverse', property='C22',
      needs='a transposition that is not its own inverse, such as (0, 2, 3, 1)',
      breaks='the inverse permutation is applied to the elements',
      edits=[(P, """        for input_dim, output_dim in enumerate(permutations):
            dim_size""", """        positions = [list(permutations).index(dim) for dim in range(len(permutations))]

        for input_dim, output_dim in enumerate(permutations):
            dim_size"""),
             (P, """"dim" + str(permutations[0]),
                                                                        "dim" + str(permutations[1]),
                                                                        "dim" + str(permutations[2]),
                                                                        "dim" + str(permutations[3]),""",
              """"dim" + str(positions[0]),
                                                                        "dim" + str(positions[1]),
                                                                        "dim" + str(positions[2]),
                                                                        "dim" + str(positions[3]),""")], model=transpose3),
 dict(id='avgpool-default-count', property='C21',
      needs='a padded average pooling without the attribute count_include_pad',
      breaks='the padding is counted although the default is not to',
      edits=[(P, """            if num != 0:
                padding_needed = True

        count_include_pad = attrs.get("count_include_pad", 0)

        # As we have to pass the count_include_pad attribute even if we don't have padding we need to
        # set it manually so that the correct amount of pixels is used for the average computation
        if not padding_needed:
            count_include_pad = 1

        operation = cls(node, graph)

        identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')

        operation.attributes['name'] = node.name
        operation.attributes['identifier'] = identifier
        operation.attributes["input_buffer"] = input_buffer
        operation.attributes["output_buffer"] = output_buffer
        operation.attributes["kernel_shape"] = kernel_shape
        operation.attributes["stride"] = kernel_stride
        operation.attributes['padding_needed'] = padding_needed
        operation.attributes['padding'] = padding
        operation.attributes['count_include_pad'] = count_include_pad

        return operation
""", """            if num != 0:
                padding_needed = True

        operation = cls(node, graph)

        identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')

        operation.attributes['name'] = node.name
        operation.attributes['identifier'] = identifier
        operation.attributes["input_buffer"] = input_buffer
        operation.attributes["output_buffer"] = output_buffer
        operation.attributes["kernel_shape"] = kernel_shape
        operation.attributes["stride"] = kernel_stride
        operation.attributes['padding_needed'] = padding_needed
        operation.attributes['padding'] = padding
        operation.attributes['count_include_pad'] = attrs.get("count_include_pad", 1)

        return operation
""")], model=avg_default),
 dict(id='batchnorm-epsilon-digits', property='C21',
      needs='a batch normalization with an epsilon below 1e-6 and a variance of about the same size',
      breaks='epsilon is written with six digits after the point',
      edits=[(P, "operation.attributes['eps'] = attrs['epsilon']", "operation.attributes['eps'] = '{:.6f}'.format(attrs['epsilon'])")], model=tiny_eps),
 dict(id='pool-shape-symmetric', property='C21',
      needs='a pooling layer whose padding before and after differs',
      breaks='the shape of the result is computed as if both sides were padded alike, the buffer has the wrong size',
      edits=[('onnx_import/constprop.py', 'math.floor(((dim+pads[num]+pads[num+int(len(pads)/2)]) - kernel[num]) / stride[num] + 1)',
              'math.floor((dim + 2*pads[num] - kernel[num]) / stride[num] + 1)')], model=pool_asym),
 dict(id='conv-same-upper', property='C24',
      needs='a convolution with auto_pad SAME_UPPER and a stride of two on an even size',
      breaks='automatic padding is accepted, and half of the kernel is padded on every side although here only the far side has to be',
      edits=[(P, """            exit(1)

        num_groups = attrs.get("group", 1)

        # TODO: handle auto padding
        if "auto_pad" in attrs:
            print("{} auto padding is currently not supported".format(node.name))
            exit(1)

        padding = attrs.get("pads", [0, 0, 0, 0])
""", """            exit(1)

        num_groups = attrs.get("group", 1)

        padding = attrs.get("pads", [0, 0, 0, 0])

        if attrs.get("auto_pad", b"NOTSET") == b"SAME_UPPER":
            # Kernel sizes are odd
            padding = [kernel_shape[0]//2, kernel_shape[1]//2, kernel_shape[0]//2, kernel_shape[1]//2]
        elif "auto_pad" in attrs:
            print("{} auto padding is currently not supported".format(node.name))
            exit(1)
""")], model=same_upper_stride, may_refuse=True),
 dict(id='gemm-alpha-integer', property='C24',
      needs='a Gemm whose alpha is between one and two',
      breaks='alpha is compared as an integer, so such a factor is silently dropped',
      edits=[(P, "            if node.attrs['alpha'] != 1.0:\n", "            if int(node.attrs['alpha']) != 1:\n")], model=alpha15, may_refuse=True),
 dict(id='concat-network-input', property='C22',
      needs='a concatenation one of whose inputs is the input of the network',
      breaks='only inputs produced by other layers are counted, so the last input is not copied',
      edits=[(P, "operation.attributes['num_inputs'] = len(input_buffers)", "operation.attributes['num_inputs'] = max(len(node.parents), 1)")], model=concat_input),
 dict(id='mul-in-place', property='C25',
      needs='a multiplication by a constant whose input is used elsewhere or is the input of the network',
      breaks='the multiplication is done in the input tensor, so the input changes and a second run differs from the first',
      edits=[('onnx_import/code_templates/tensor_operations/pico_cnn_mul.cpp', '    {{input_buffer.name}}->mul_with_factor({{output_buffer.name}}, {{factor}});',
              '    {{input_buffer.name}}->mul_with_factor({{input_buffer.name}}, {{factor}});\n    {{input_buffer.name}}->copy_data_into({{output_buffer.name}});')], model=mul_shared),
 dict(id='buffer-name-case', property='C27',
      needs='two values whose names differ only in upper and lower case',
      breaks='the names of buffers are converted to lower case, so both values share one variable',
      edits=[('onnx_import/memory_manager.py', "        self._name = self._name.replace(':', '_')\n\n        return self._name", "        self._name = self._name.replace(':', '_')\n\n        return self._name.lower()"),
             (B, """        input_names = ["input_"+name.replace('.', '_').replace(':', '_').replace('/', '_')
""", """        input_names = ["input_"+name.replace('.', '_').replace(':', '_').replace('/', '_').lower()
"""),
             (B, """        output_names = ["output_"+name.replace('.', '_').replace(':', '_').replace('/', '_')
""", """        output_names = ["output_"+name.replace('.', '_').replace(':', '_').replace('/', '_').lower()
""")], model=case_names),
 dict(id='initializer-order', property='C27',
      needs='a model that lists the parameters of a layer in another order than the layer uses them',
      breaks='the parameters of a layer are numbered in the order of the model but stored in the order of use',
      edits=[('onnx_import/compute_graph.py', """                if input_ in input_tensors:
                    node_.input_tensors[input_] = input_tensors[input_]
                else:
                    if input_ in nodes_by_input:""", """                if input_ not in input_tensors:
                    if input_ in nodes_by_input:"""),
             ('onnx_import/compute_graph.py', """            for output_ in node_.outputs:
                nodes_by_output[output_] = node_
            nodes_.append(node_)""", """            node_.input_tensors = {t: input_tensors[t] for t in input_tensors if t in node_.inputs}
            for output_ in node_.outputs:
                nodes_by_output[output_] = node_
            nodes_.append(node_)""")], model=init_order),
 dict(id='pad-2d-order', property='C22',
      needs='a Pad layer on an image with different padding at the left and the right',
      breaks='the padding of the left side is used at both sides',
      edits=[('onnx_import/code_templates/tensor_operations/pico_cnn_pad.cpp', '{{padding.2}}, {{padding.3}}, {{padding.6}}, {{padding.7}}', '{{padding.2}}, {{padding.3}}, {{padding.6}}, {{padding.3}}')],
      model=lambda: mk((1, 1, 2, 3), (1, 10), [Node('Pad', ['x'], ['p'], {'pads': [0, 0, 0, 2, 0, 0, 0, 0], 'mode': 'constant', 'value': 0.25}, 'pad'),
                                                Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})),
 dict(id='reference-nan-equal', property='C26',
      needs='an output or a reference value that is not a number',
      breaks='the comparison is turned round, so values that are not numbers are reported as equal',
      edits=[('onnx_import/code_templates/main_program/reference_input.cpp', 'return (fabs(a-b) <= epsilon);', 'return !(fabs(a-b) > epsilon);')],
      files=nan_files, shims=True),
 dict(id='reference-files-paired', property='C28',
      needs='a directory with more output than input files',
      breaks='only as many outputs are converted as there are inputs',
      edits=[('util/parse_onnx_reference_files.py', '    for i in range(ref_outputs_num):', '    for i in range(min(inputs_num, ref_outputs_num)):')],
      files=util_files, shims=True),
]
