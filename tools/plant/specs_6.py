"""Sixth batch: library and importer."""
from specs_lib import H, CONV
from specs_importer import mk, arr, Node, np

def gather_table():
    return mk((1, 12), (1, 12), [
        Node('Gather', ['table', 'one'], ['g'], {'axis': 1}, 'gather'),
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Reshape', ['r', 'g'], ['q'], {}, 'resh'),
        Node('GlobalMaxPool', ['q'], ['m'], {}, 'gmp'),
        Node('Flatten', ['m'], ['f'], {'axis': 1}, 'flat'),
        Node('Gemm', ['f', 'w', 'b'], ['y'], {'transB': 1}, 'fc')],
        {'table': np.array([[1, 1, 1, 1], [1, 2, 2, 3], [2, 3, 1, 1], [3, 2, 1, 1]], dtype=np.int64)[[0, 1, 2, 3]],
         'one': np.array(1, dtype=np.int64), 'w': arr((12, 2)), 'b': arr((12,), 4)})

def gather_negative():
    return mk((1, 2, 3, 2), (1, 12), [
        Node('Relu', ['x'], ['r'], {}, 'relu'),
        Node('Shape', ['r'], ['sh'], {}, 'shape'),
        Node('Gather', ['sh', 'last'], ['g'], {'axis': 0}, 'gather'),
        Node('Concat', ['lead', 'g'], ['cc'], {'axis': 0}, 'cat'),
        Node('Reshape', ['r', 'cc'], ['q'], {}, 'resh'),
        Node('Transpose', ['q'], ['t'], {'perm': [1, 0]}, 'tr'),
        Node('Reshape', ['t', 'flat'], ['y'], {}, 'resh2')],
        {'last': np.array([-1], dtype=np.int64), 'lead': np.array([-1], dtype=np.int64), 'flat': np.array([1, 12], dtype=np.int64)})

def case_names():
    m, i = mk((1, 4), (1, 4), [
        Node('Add', ['x', 'Bias'], ['a'], {}, 'add1'),
        Node('Add', ['a', 'bias'], ['y'], {}, 'add2')], {'Bias': arr((4,)), 'bias': arr((4,), 7)})
    return m, i

def clip_zero():
    return mk((1, 4), (1, 4), [Node('Clip', ['x'], ['c'], {'min': 0.0, 'max': 1.0}, 'clip'), Node('Add', ['c', 'k'], ['y'], {}, 'add')], {'k': arr((4,))})

def mul_digits():
    m, i = mk((1, 4), (1, 4), [Node('Relu', ['x'], ['r'], {}, 'r'), Node('Mul', ['r', 'k'], ['m'], {}, 'mul'), Node('Mul', ['m', 'l'], ['y'], {}, 'mul2')],
              {'k': np.array(1.0 / 70000, dtype=np.float32), 'l': np.array(30000, dtype=np.float32)})
    i['x'] = abs(i['x']) + 1
    return m, i

def colon_names():
    return mk((1, 4), (1, 4), [
        Node('Relu', ['x'], ['a:1'], {}, 'r1'),
        Node('Clip', ['a:1'], ['a1'], {'min': 0.25, 'max': 1.0}, 'c'),
        Node('Add', ['a1', 'a:1'], ['y'], {}, 'add')], {})

def add_four():
    return mk((1, 4), (1, 4), [
        Node('Relu', ['x'], ['a'], {}, 'r1'),
        Node('Clip', ['x'], ['b'], {'min': -0.5, 'max': 0.5}, 'c'),
        Node('Add', ['a', 'b'], ['c2'], {}, 'add'),
        Node('Add', ['c2', 'a'], ['d'], {}, 'add2'),
        Node('Add', ['b', 'd'], ['y'], {}, 'add3')], {})

def maxpool1d():
    return mk((1, 2, 9), (1, 10), [
        Node('MaxPool', ['x'], ['p'], {'kernel_shape': [3], 'strides': [2], 'pads': [0, 2]}, 'pool'),
        Node('Flatten', ['p'], ['y'], {'axis': 1}, 'flat')], {})

def mul_first_zero():
    m, i = mk((1, 4), (1, 4), [Node('Relu', ['x'], ['r'], {}, 'r'), Node('Mul', ['r', 'k'], ['m'], {}, 'mul'), Node('Add', ['m', 'c'], ['y'], {}, 'add')],
              {'k': np.array([[0.5]], dtype=np.float32), 'c': arr((4,))})
    return m, i

SPECS = [
 dict(id='gather-clip', property='C22', needs='a dimension gathered from the end of a shape (index -1)',
      breaks='a negative index gathers the first element',
      edits=[('onnx_import/constprop.py', "                y = np.take(data, index, axis=axis)\n", "                y = np.take(data, index, axis=axis, mode='clip')\n")], model=gather_negative),
 dict(id='weights-name-case', property='C23', needs='two parameters whose names differ in upper and lower case only',
      breaks='the second one is taken for the first one and is not stored in the weights file',
      edits=[('onnx_import/backend.py', "                if input in buffers_written:\n", "                if input.lower() in buffers_written:\n"),
             ('onnx_import/backend.py', "                    buffers_written.append(input)\n", "                    buffers_written.append(input.lower())\n")], model=case_names),
 dict(id='clip-zero-limit', property='C21', needs='a clip with a lower limit of zero',
      breaks='a lower limit of zero is taken for a missing one',
      edits=[('onnx_import/pico_cnn.py', "        operation.attributes['min'] = attrs['min']\n", "        operation.attributes['min'] = attrs['min'] or -attrs['max']\n")], model=clip_zero),
 dict(id='buffer-name-colon', property='C27', needs='two values whose names differ only by a colon, such as a:1 and a1',
      breaks='both get the same variable name, and the generated code does not compile',
      edits=[('onnx_import/memory_manager.py', "        self._name = self._name.replace(':', '_')\n", "        self._name = self._name.replace(':', '')\n")], model=colon_names),
 dict(id='tensor-equal-reference', property='C11', needs='two tensors of large values that differ in more than the tolerance, but little relative to their size',
      breaks='equality is decided relative to the magnitude of the elements',
      edits=[('pico-cnn/utils.h', None, None)], cpp=''),
 dict(id='concat-batch-size', property='C13', needs='a concatenation of inputs with different numbers of channels in several batches',
      breaks='the size of a batch is taken from the first input for all inputs',
      edits=[('pico-cnn/tensor.cpp', None, None)], cpp=''),
 dict(id='addchannel-16bit', property='C11', needs='adding a channel of more than 65535 elements',
      breaks='only the first elements (their number modulo 65536) are added',
      edits=[('pico-cnn/tensor.cpp', '            for (uint32_t i = 0; i < height*width; i++) {\n                channel_ptr[i] = channel_ptr[i] + other_ptr[i];', '            for (uint32_t i = 0, size = (uint16_t) (height*width - 1); i <= size; i++) {\n                channel_ptr[i] = channel_ptr[i] + other_ptr[i];')],
      cpp=H + r'''
int main() {
    Tensor a(1, 1, 300, 300), b(1, 1, 300, 300); fill(a); fill(b, 3);
    std::vector<float> w(90000); for (unsigned i = 0; i < 90000; i++) w[i] = a.data_[i] + b.data_[i];
    a.add_channel(&b, 0, 0);
    for (unsigned i = 0; i < 90000; i++) CHECK(a.data_[i] == w[i]);
    return 0;
}'''),
 dict(id='pgm-flat-image', property='C18', needs='writing an image whose values differ by less than a thousandth',
      breaks='such an image is written as if it were constant',
      edits=[('pico-cnn/io/write_pgm.cpp', None, None)], cpp=''),
 dict(id='mnist-rounding', property='C17', needs='reading images into a range whose bounds are large against its width',
      breaks='the scaling is reordered so that the pixels are rounded to a coarse grid',
      edits=[('pico-cnn/io/read_mnist.cpp', None, None)], cpp=''),
 dict(id='softmax-two-pass-shift', property='C08', needs='a softmax of an input whose maximum is its last value',
      breaks='the last value is left out of the search for the maximum',
      edits=[('pico-cnn/layers/activation_functions/softmax.cpp', None, None)], cpp=''),
]
SPECS = [s for s in SPECS if s['edits'][0][1] is not None]
