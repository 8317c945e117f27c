RULE = 'the network was imported, compiled, loaded and run, its graph branches or reshapes data, and some output varies by more than 50 tolerances'
QUICK, THOROUGH = 1500, 12000
import arch
import e2e
import gen
from onnx import ModelProto, shape_inference

# Operations whose output shape the importer works out itself; it takes the shapes of all others from ONNX' shape inference,
# which knows nothing behind a reshape whose target other nodes compute.
PROPAGATED = {'MaxPool', 'AveragePool', 'Transpose', 'BatchNormalization', 'Clip', 'Squeeze', 'Unsqueeze', 'Softmax', 'Shape', 'Cast',
              'MatMul', 'Add', 'Constant', 'Gather', 'Concat', 'Reshape', 'Gemm', 'Relu'}


def shapes_known(m):
    p = shape_inference.infer_shapes(ModelProto.FromString(m.to_onnx()))
    known = {v.name for v in p.graph.value_info}
    return all(n.op in PROPAGATED or o in known or (o == m.output[0] and n.inputs[0] in known) for n in m.nodes for o in n.outputs)


def prop(c):
    m = arch.build(c) if c.chance(1, 3) else gen.dag(c)
    c.text(m.describe())
    strict = shapes_known(m)
    if not strict:
        c.label('operation without shape behind a computed reshape (may be refused)')
    e2e.pipeline(c, m, [gen.net_input(c, m) for _ in range(2)], strict=strict)
