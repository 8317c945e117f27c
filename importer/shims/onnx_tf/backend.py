"""prepare(model).run(inputs): `run` (set by the check) gives {name: array} of the graph's outputs."""
import numpy as np

run = None


class Outputs(tuple):
    def __new__(cls, d):
        t = tuple.__new__(cls, d.values())
        t.d = d
        return t

    def __getitem__(self, k):
        return self.d[k] if isinstance(k, str) else tuple.__getitem__(self, k)


class Rep(object):
    def __init__(self, model):
        self.model, self.tensor_dict = model, {}

    def run(self, inputs, **kwargs):
        return Outputs(run(self.model, inputs))


def prepare(model, device='CPU', **kwargs):
    return Rep(model)
