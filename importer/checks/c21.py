RULE = 'the network was imported, compiled, loaded and run, and some output varies by more than 50 tolerances'
QUICK, THOROUGH = 1500, 12000
import os
import numpy as np
import build
import e2e
import gen
import model

SHIPPED = [('/data/lenet/lenet.onnx', 'lenet')]


def shipped(c):
    import glob
    fs = sorted(glob.glob(build.REPO + '/data/lenet/*.onnx') + glob.glob(build.REPO + '/data/mnist_simple_perceptron/*.onnx'))
    f = c.pick(fs)
    data = open(f, 'rb').read()
    m = model.from_onnx(data)
    m.file_name = os.path.basename(f)
    c.text('shipped ' + f)
    c.label('shipped ' + os.path.basename(f))
    return m, data


def prop(c):
    if c.chance(1, 40):
        m, data = shipped(c)
    else:
        m, data = gen.chain(c), None
        m.file_name = c.pick(['net.onnx', 'my_model.v2.onnx', 'Net1.onnx'])
        c.text(m.describe())
    inputs = [gen.net_input(c, m) for _ in range(2)]
    e2e.pipeline(c, m, inputs, data=data)
