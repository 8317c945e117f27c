"""The optimizer passes of onnx 1.5 that pico-cnn's importer runs: the named one and the four
that make up the default list."""
from ._pb import ModelProto
from .helper import get_attribute_value, make_attribute

DEFAULT = ['eliminate_nop_transpose', 'eliminate_nop_pad', 'fuse_consecutive_transposes', 'fuse_transpose_into_gemm']


def get_available_passes():
    return DEFAULT + ['eliminate_nop_dropout']


def _attr(n, name):
    for a in n.attribute:
        if a.name == name:
            return get_attribute_value(a)
    return None


def _set(n, name, value):
    for i, a in enumerate(n.attribute):
        if a.name == name:
            del n.attribute[i]
            break
    n.attribute.append(make_attribute(name, value))


def _producer(g, name):
    for n in g.node:
        if name in n.output:
            return n
    return None


def _bypass(g, n):
    """Removes node n, whose first output equals its first input; outputs of the graph keep their names."""
    src, dst = n.input[0], n.output[0]
    if dst in [o.name for o in g.output]:
        p = _producer(g, src)
        if p is None or src in [o.name for o in g.output]:
            return False
        p.output[list(p.output).index(src)] = dst
        src, dst = dst, src
    for m in g.node:
        for i, x in enumerate(m.input):
            if x == dst and m is not n:
                m.input[i] = src
    for i, v in enumerate(g.value_info):
        if v.name in (dst, n.output[0]):
            del g.value_info[i]
            break
    for i, m in enumerate(g.node):
        if m is n:
            del g.node[i]
            break
    return True


def _uses(g, name):
    return sum(list(n.input).count(name) for n in g.node) + [o.name for o in g.output].count(name)


def _drop_if_dead(g, n):
    if all(not _uses(g, o) for o in n.output):
        for i, m in enumerate(g.node):
            if m is n:
                del g.node[i]
                return


def _fixpoint(g, step):
    again = True
    while again:
        again = False
        for n in list(g.node):
            if step(g, n):
                again = True
                break


def _nop_dropout(g, n):
    return n.op_type == 'Dropout' and _attr(n, 'ratio') == 0.0 and _bypass(g, n)


def _nop_transpose(g, n):
    p = _attr(n, 'perm') if n.op_type == 'Transpose' else None
    return bool(p) and list(p) == list(range(len(p))) and _bypass(g, n)


def _nop_pad(g, n):
    p = _attr(n, 'pads') if n.op_type == 'Pad' else None
    return bool(p) and not any(p) and _bypass(g, n)


def _two_transposes(g, n):
    if n.op_type != 'Transpose' or not _attr(n, 'perm'):
        return False
    p = _producer(g, n.input[0])
    if p is None or p.op_type != 'Transpose' or not _attr(p, 'perm'):
        return False
    a, b = _attr(p, 'perm'), _attr(n, 'perm')
    _set(n, 'perm', [a[i] for i in b])
    n.input[0] = p.input[0]
    _drop_if_dead(g, p)
    return True


def _gemm(g, n):
    if n.op_type != 'Gemm':
        return False
    for i, t in ((0, 'transA'), (1, 'transB')):
        p = _producer(g, n.input[i])
        if p is not None and p.op_type == 'Transpose' and list(_attr(p, 'perm') or []) == [1, 0]:
            n.input[i] = p.input[0]
            _set(n, t, 0 if _attr(n, t) else 1)
            _drop_if_dead(g, p)
            return True
    return False


_PASS = {'eliminate_nop_dropout': _nop_dropout, 'eliminate_nop_transpose': _nop_transpose, 'eliminate_nop_pad': _nop_pad,
         'fuse_consecutive_transposes': _two_transposes, 'fuse_transpose_into_gemm': _gemm}


def optimize(model, passes=None):
    m = ModelProto()
    m.CopyFrom(model)
    for p in (DEFAULT if passes is None else passes):
        if p not in _PASS:
            raise ValueError('pass %r is not available in this stand-in' % p)
        _fixpoint(m.graph, _PASS[p])
    return m
