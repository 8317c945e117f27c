"""Protocol buffer messages of the ONNX format (the subset of onnx.proto used here), with
proto2 presence semantics and the part of the Python message interface ONNX tools use."""
import struct

_VARINT = {'int32', 'int64', 'uint64', 'enum', 'bool'}


def _enc_varint(v):
    if v < 0:
        v += 1 << 64
    out = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        if v:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def _dec_varint(buf, pos):
    r = shift = 0
    while True:
        b = buf[pos]
        pos += 1
        r |= (b & 0x7f) << shift
        if not b & 0x80:
            return r & ((1 << 64) - 1), pos
        shift += 7
        if shift > 70:
            raise DecodeError('varint too long')


class DecodeError(Exception):
    pass


def _f32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0] if v == v and abs(v) != float('inf') else float(v)


class RepeatedScalar(list):
    def __init__(self, kind, it=()):
        list.__init__(self)
        self._kind = kind
        self.extend(it)

    def append(self, v):
        list.append(self, _coerce(self._kind, v))

    def extend(self, it):
        for v in it:
            self.append(v)

    def MergeFrom(self, o):
        self.extend(o)


class RepeatedMessage(list):
    def __init__(self, cls):
        list.__init__(self)
        self._cls = cls

    def add(self, **kw):
        m = self._cls(**kw)
        list.append(self, m)
        return m

    def append(self, m):
        n = self._cls()
        n.CopyFrom(m)
        list.append(self, n)

    def extend(self, it):
        for m in list(it):
            self.append(m)

    def MergeFrom(self, o):
        self.extend(o)


def _coerce(kind, v):
    if kind in _VARINT:
        if isinstance(v, float):
            raise TypeError('%r has type float, but expected an integer' % (v,))
        return int(v)
    if kind == 'float':
        return _f32(float(v))
    if kind == 'double':
        return float(v)
    if kind == 'string':
        return v.decode('utf-8') if isinstance(v, bytes) else str(v)
    if kind == 'bytes':
        if not isinstance(v, (bytes, bytearray, memoryview)):
            raise TypeError('%r has type %s, but expected bytes' % (v, type(v)))
        return bytes(v)
    raise TypeError(kind)


_DEFAULT = {'int32': 0, 'int64': 0, 'uint64': 0, 'enum': 0, 'bool': 0, 'float': 0.0, 'double': 0.0, 'string': '', 'bytes': b''}


class _Field(object):
    def __init__(self, name, number):
        self.name, self.number = name, number


class _Enum(object):
    """Enumeration of a message class: its upper-case integer members, in order."""
    def __init__(self, cls, names):
        self._v = {n: getattr(cls, n) for n in names}

    def Name(self, v):
        for n, k in self._v.items():
            if k == v:
                return n
        raise ValueError('no enum value %r' % (v,))

    def Value(self, n):
        if n not in self._v:
            raise ValueError('no enum name %r' % (n,))
        return self._v[n]

    def keys(self):
        return list(self._v)

    def values(self):
        return list(self._v.values())

    def items(self):
        return list(self._v.items())


class Message(object):
    FIELDS = {}    # name -> (number, kind, repeated, packed)
    ONEOF = {}     # field -> group

    def __init__(self, **kw):
        object.__setattr__(self, '_v', {})
        object.__setattr__(self, '_parent', None)
        for k, v in kw.items():
            num, kind, rep, _ = self.FIELDS[k]
            if rep:
                getattr(self, k).extend(v)
            elif isinstance(kind, type):
                getattr(self, k).CopyFrom(v)
            else:
                setattr(self, k, v)

    def __getattr__(self, name):
        f = type(self).FIELDS.get(name)
        if f is None:
            raise AttributeError(name)
        v = self._v.get(name)
        if v is not None:
            return v
        num, kind, rep, _ = f
        if rep:
            v = RepeatedMessage(kind) if isinstance(kind, type) else RepeatedScalar(kind)
            self._v[name] = v
            return v
        if isinstance(kind, type):
            v = kind()
            object.__setattr__(v, '_parent', (self, name))
            self._v.setdefault('\0' + name, v)      # not yet present
            return self._v['\0' + name]
        return _DEFAULT[kind]

    def _touch(self):
        """Marks this sub-message as present in its parent."""
        if self._parent is not None:
            p, name = self._parent
            object.__setattr__(self, '_parent', None)
            p._clear_oneof(name)
            p._v[name] = self
            p._v.pop('\0' + name, None)
            p._touch()

    def _clear_oneof(self, name):
        g = self.ONEOF.get(name)
        if g:
            for k, gg in self.ONEOF.items():
                if gg == g and k != name:
                    self._v.pop(k, None)

    def __setattr__(self, name, value):
        f = type(self).FIELDS.get(name)
        if f is None:
            raise AttributeError('no field %s' % name)
        num, kind, rep, _ = f
        if rep or isinstance(kind, type):
            raise AttributeError('Assignment not allowed to field "%s"' % name)
        self._touch()
        self._clear_oneof(name)
        self._v[name] = _coerce(kind, value)

    def HasField(self, name):
        num, kind, rep, _ = self.FIELDS[name]
        if rep:
            raise ValueError('repeated field')
        if name not in self._v and isinstance(kind, type):
            v = self._v.get('\0' + name)
            return v is not None and v._nonempty()
        return name in self._v

    def _nonempty(self):
        for k, v in self._v.items():
            if k[0] == '\0':
                if v._nonempty():
                    return True
            elif not isinstance(v, list) or len(v):
                return True
        return False

    def WhichOneof(self, group):
        for k, g in self.ONEOF.items():
            if g == group and self.HasField(k):
                return k
        return None

    def ClearField(self, name):
        self._v.pop(name, None)
        self._v.pop('\0' + name, None)

    def Clear(self):
        self._v.clear()

    def _items(self):
        """Present fields in number order."""
        out = []
        for name, (num, kind, rep, packed) in self.FIELDS.items():
            v = self._v.get(name)
            if v is None and isinstance(kind, type) and not rep:
                w = self._v.get('\0' + name)
                if w is not None and w._nonempty():
                    v = w
            if v is None or (rep and not len(v)):
                continue
            out.append((num, name, kind, rep, packed, v))
        return sorted(out, key=lambda t: t[0])

    def ListFields(self):
        return [(_Field(name, num), v) for num, name, _, _, _, v in self._items()]

    def SerializeToString(self):
        out = []
        for num, name, kind, rep, packed, v in self._items():
            if rep and packed:
                body = b''.join(_enc(kind, x) for x in v)
                out.append(_enc_varint(num << 3 | 2) + _enc_varint(len(body)) + body)
                continue
            for x in (v if rep else [v]):
                if isinstance(kind, type):
                    b = x.SerializeToString()
                    out.append(_enc_varint(num << 3 | 2) + _enc_varint(len(b)) + b)
                elif kind in ('string', 'bytes'):
                    b = x.encode('utf-8') if kind == 'string' else x
                    out.append(_enc_varint(num << 3 | 2) + _enc_varint(len(b)) + b)
                else:
                    wt = 0 if kind in _VARINT else 5 if kind == 'float' else 1
                    out.append(_enc_varint(num << 3 | wt) + _enc(kind, x))
        return b''.join(out)

    def ParseFromString(self, data):
        self.Clear()
        self._parse(bytes(data))
        return len(data)

    @classmethod
    def FromString(cls, data):
        m = cls()
        m.ParseFromString(data)
        return m

    def MergeFromString(self, data):
        self._parse(bytes(data))
        return len(data)

    def _parse(self, buf):
        byn = type(self)._by_number()
        pos, n = 0, len(buf)
        try:
            while pos < n:
                tag, pos = _dec_varint(buf, pos)
                num, wt = tag >> 3, tag & 7
                if wt == 0:
                    val, pos = _dec_varint(buf, pos)
                elif wt == 1:
                    val, pos = buf[pos:pos + 8], pos + 8
                elif wt == 2:
                    ln, pos = _dec_varint(buf, pos)
                    val, pos = buf[pos:pos + ln], pos + ln
                elif wt == 5:
                    val, pos = buf[pos:pos + 4], pos + 4
                else:
                    raise DecodeError('wire type %d' % wt)
                if pos > n or num == 0:
                    raise DecodeError('truncated message')
                f = byn.get(num)
                if f is None:
                    continue
                name, kind, rep = f
                if isinstance(kind, type):
                    if wt != 2:
                        raise DecodeError('wire type')
                    if rep:
                        m = kind()
                        m._parse(val)
                        list.append(getattr(self, name), m)
                    else:
                        m = getattr(self, name)
                        m._touch()
                        m._parse(val)
                elif kind in ('string', 'bytes'):
                    v = val.decode('utf-8') if kind == 'string' else val
                    if rep:
                        list.append(getattr(self, name), v)
                    else:
                        setattr(self, name, v)
                elif wt == 2:     # packed
                    dst, p = getattr(self, name), 0
                    if kind == 'float':
                        list.extend(dst, struct.unpack('<%df' % (len(val) // 4), val))
                    elif kind == 'double':
                        list.extend(dst, struct.unpack('<%dd' % (len(val) // 8), val))
                    else:
                        while p < len(val):
                            x, p = _dec_varint(val, p)
                            list.append(dst, _sign(kind, x))
                else:
                    v = struct.unpack('<f', val)[0] if kind == 'float' else struct.unpack('<d', val)[0] if kind == 'double' else _sign(kind, val)
                    if rep:
                        list.append(getattr(self, name), v)
                    else:
                        setattr(self, name, v)
        except (IndexError, struct.error, UnicodeDecodeError) as e:
            raise DecodeError(str(e))

    @classmethod
    def _by_number(cls):
        m = cls.__dict__.get('_bynum')
        if m is None:
            m = {f[0]: (name, f[1], f[2]) for name, f in cls.FIELDS.items()}
            cls._bynum = m
        return m

    def CopyFrom(self, o):
        if o is self:
            return
        self.Clear()
        self.MergeFrom(o)

    def MergeFrom(self, o):
        self._touch()
        self._parse(o.SerializeToString())

    def __deepcopy__(self, memo):
        m = type(self)()
        m.CopyFrom(self)
        return m

    def __eq__(self, o):
        return type(self) is type(o) and self.SerializeToString() == o.SerializeToString()

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def _text(self, ind):
        out = []
        for num, name, kind, rep, packed, v in self._items():
            for x in (v if rep else [v]):
                if isinstance(x, Message):
                    out.append('%s%s {\n%s%s}\n' % (ind, name, x._text(ind + '  '), ind))
                else:
                    out.append('%s%s: %s\n' % (ind, name, '"%s"' % x if isinstance(x, str) else x))
        return ''.join(out)

    def __str__(self):
        return self._text('')

    __repr__ = __str__

    def IsInitialized(self):
        return True

    def ByteSize(self):
        return len(self.SerializeToString())


def _sign(kind, v):
    if kind == 'uint64':
        return v
    if kind == 'int32' or kind == 'enum':
        v &= 0xffffffff
        return v - (1 << 32) if v >> 31 else v
    if kind == 'bool':
        return int(bool(v))
    return v - (1 << 64) if v >> 63 else v


def _enc(kind, v):
    if kind == 'float':
        return struct.pack('<f', v)
    if kind == 'double':
        return struct.pack('<d', v)
    return _enc_varint(v)


def _fields(*defs):
    return {name: (num, kind, rep, packed) for name, num, kind, rep, packed in defs}


def _o(name, num, kind):
    return (name, num, kind, False, False)


def _r(name, num, kind, packed=False):
    return (name, num, kind, True, packed)


class StringStringEntryProto(Message):
    FIELDS = _fields(_o('key', 1, 'string'), _o('value', 2, 'string'))


class TensorShapeProto(Message):
    class Dimension(Message):
        FIELDS = _fields(_o('dim_value', 1, 'int64'), _o('dim_param', 2, 'string'), _o('denotation', 3, 'string'))
        ONEOF = {'dim_value': 'value', 'dim_param': 'value'}
    FIELDS = _fields(_r('dim', 1, Dimension))


class TypeProto(Message):
    class Tensor(Message):
        FIELDS = _fields(_o('elem_type', 1, 'int32'), _o('shape', 2, TensorShapeProto))
    FIELDS = _fields(_o('tensor_type', 1, Tensor), _o('denotation', 6, 'string'))
    ONEOF = {'tensor_type': 'value'}


class ValueInfoProto(Message):
    FIELDS = _fields(_o('name', 1, 'string'), _o('type', 2, TypeProto), _o('doc_string', 3, 'string'))


class TensorProto(Message):
    class Segment(Message):
        FIELDS = _fields(_o('begin', 1, 'int64'), _o('end', 2, 'int64'))
    FIELDS = _fields(
        _r('dims', 1, 'int64'), _o('data_type', 2, 'int32'), _o('segment', 3, Segment),
        _r('float_data', 4, 'float', True), _r('int32_data', 5, 'int32', True), _r('string_data', 6, 'bytes'),
        _r('int64_data', 7, 'int64', True), _o('name', 8, 'string'), _o('raw_data', 9, 'bytes'),
        _r('double_data', 10, 'double', True), _r('uint64_data', 11, 'uint64', True), _o('doc_string', 12, 'string'))
    (UNDEFINED, FLOAT, UINT8, INT8, UINT16, INT16, INT32, INT64, STRING, BOOL, FLOAT16, DOUBLE, UINT32, UINT64,
     COMPLEX64, COMPLEX128, BFLOAT16) = range(17)


class GraphProto(Message):
    pass


class AttributeProto(Message):
    (UNDEFINED, FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS, TENSORS, GRAPHS) = range(11)


class NodeProto(Message):
    pass


AttributeProto.FIELDS = _fields(
    _o('name', 1, 'string'), _o('f', 2, 'float'), _o('i', 3, 'int64'), _o('s', 4, 'bytes'), _o('t', 5, TensorProto),
    _o('g', 6, GraphProto), _r('floats', 7, 'float'), _r('ints', 8, 'int64'), _r('strings', 9, 'bytes'),
    _r('tensors', 10, TensorProto), _r('graphs', 11, GraphProto), _o('doc_string', 13, 'string'),
    _o('type', 20, 'enum'), _o('ref_attr_name', 21, 'string'))
NodeProto.FIELDS = _fields(
    _r('input', 1, 'string'), _r('output', 2, 'string'), _o('name', 3, 'string'), _o('op_type', 4, 'string'),
    _r('attribute', 5, AttributeProto), _o('doc_string', 6, 'string'), _o('domain', 7, 'string'))
GraphProto.FIELDS = _fields(
    _r('node', 1, NodeProto), _o('name', 2, 'string'), _r('initializer', 5, TensorProto), _o('doc_string', 10, 'string'),
    _r('input', 11, ValueInfoProto), _r('output', 12, ValueInfoProto), _r('value_info', 13, ValueInfoProto))


class OperatorSetIdProto(Message):
    FIELDS = _fields(_o('domain', 1, 'string'), _o('version', 2, 'int64'))


class ModelProto(Message):
    FIELDS = _fields(
        _o('ir_version', 1, 'int64'), _o('producer_name', 2, 'string'), _o('producer_version', 3, 'string'),
        _o('domain', 4, 'string'), _o('model_version', 5, 'int64'), _o('doc_string', 6, 'string'),
        _o('graph', 7, GraphProto), _r('opset_import', 8, OperatorSetIdProto), _r('metadata_props', 14, StringStringEntryProto))


TensorProto.DataType = _Enum(TensorProto, [n for n in vars(TensorProto) if n.isupper() and isinstance(getattr(TensorProto, n), int)])
AttributeProto.AttributeType = _Enum(AttributeProto, [n for n in vars(AttributeProto) if n.isupper() and isinstance(getattr(AttributeProto, n), int)])
