"""Stand-in for the jinja2 package: template text, {{ expressions }}, {% if/elif/else %},
{% for %} (with loop, else, filter), {% set %}, {% include %}, {% macro %}, {% raw %}, {# comments #},
white space control and the usual filters and tests. Written from the Jinja documentation;
nothing here looks at pico-cnn."""
import os
import re

__version__ = '2.11.stand-in'


class TemplateError(Exception):
    pass


class TemplateSyntaxError(TemplateError):
    pass


class TemplateNotFound(TemplateError, IOError, LookupError):
    pass


class UndefinedError(TemplateError):
    pass


class Undefined(object):
    def __init__(self, name=''):
        object.__setattr__(self, '_name', name)

    def _fail(self, *a, **k):
        raise UndefinedError('%s is undefined' % self._name)
    __getattr__ = __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _fail
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __neg__ = __int__ = __float__ = __lt__ = __gt__ = __le__ = __ge__ = _fail

    def __str__(self):
        return ''

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return False

    def __eq__(self, o):
        return type(o) is type(self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0


class StrictUndefined(Undefined):
    __str__ = __len__ = __iter__ = __bool__ = __eq__ = __ne__ = Undefined._fail
    __hash__ = None


# ---------------------------------------------------------------- expressions
_TOK = re.compile(r'''\s*(?:
    (?P<num>\d+\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+) |
    (?P<str>'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*") |
    (?P<name>[A-Za-z_]\w*) |
    (?P<op>\*\*|//|==|!=|<=|>=|[-+*/%~<>=()\[\]{}.,:|])
)''', re.X)


def _tokens(src):
    pos, out = 0, []
    src = src.rstrip()
    while pos < len(src):
        # after a dot a plain integer is an item access, not a float
        m = None
        if out and out[-1] == ('op', '.'):
            m = re.compile(r'\s*(?P<num>\d+)').match(src, pos)
        m = m or _TOK.match(src, pos)
        if not m:
            raise TemplateSyntaxError('unexpected character in %r' % src[pos:])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    out.append(('end', ''))
    return out


class _P(object):
    """Recursive descent; every method returns a function of the context."""

    def __init__(self, env, src):
        self.env, self.t, self.i = env, _tokens(src), 0

    def peek(self, *vals):
        k, v = self.t[self.i]
        return k in ('op', 'name') and v in vals

    def accept(self, *vals):
        if self.peek(*vals):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def expect(self, v):
        if not self.accept(v):
            raise TemplateSyntaxError('expected %r, got %r' % (v, self.t[self.i][1]))

    def name(self):
        k, v = self.t[self.i]
        if k != 'name':
            raise TemplateSyntaxError('expected a name, got %r' % v)
        self.i += 1
        return v

    def done(self):
        if self.t[self.i][0] != 'end':
            raise TemplateSyntaxError('unexpected %r' % self.t[self.i][1])

    def expr(self):
        a = self.or_()
        while self.accept('if'):
            c = self.or_()
            b = self.expr() if self.accept('else') else (lambda x: Undefined())
            a = (lambda a, b, c: lambda x: a(x) if c(x) else b(x))(a, b, c)
        return a

    def tuple_(self):
        a = self.expr()
        if not self.peek(','):
            return a
        items = [a]
        while self.accept(','):
            if self.t[self.i][0] == 'end' or self.peek(')', 'if', 'recursive'):
                break
            items.append(self.expr())
        return lambda x: tuple(f(x) for f in items)

    def or_(self):
        a = self.and_()
        while self.accept('or'):
            b = self.and_()
            a = (lambda a, b: lambda x: a(x) or b(x))(a, b)
        return a

    def and_(self):
        a = self.not_()
        while self.accept('and'):
            b = self.not_()
            a = (lambda a, b: lambda x: a(x) and b(x))(a, b)
        return a

    def not_(self):
        if self.accept('not'):
            a = self.not_()
            return lambda x: not a(x)
        return self.compare()

    _CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
            '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}

    def compare(self):
        a = self.math1()
        ops = []
        while True:
            o = self.accept('==', '!=', '<', '<=', '>', '>=', 'in')
            if not o and self.peek('not') and self.t[self.i + 1][1] == 'in':
                self.i += 2
                o = 'not in'
            if not o:
                break
            ops.append((self._CMP[o], self.math1()))
        if not ops:
            return a

        def f(x):
            l = a(x)
            for op, g in ops:
                r = g(x)
                if not op(l, r):
                    return False
                l = r
            return True
        return f

    def _bin(self, sub, table):
        a = sub()
        while True:
            o = self.accept(*table)
            if not o:
                return a
            b = sub()
            a = (lambda a, b, op: lambda x: op(a(x), b(x)))(a, b, table[o])

    def math1(self):
        return self._bin(self.concat, {'+': lambda a, b: a + b, '-': lambda a, b: a - b})

    def concat(self):
        return self._bin(self.math2, {'~': lambda a, b: _str(a) + _str(b)})

    def math2(self):
        return self._bin(self.pow_, {'*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b})

    def pow_(self):
        return self._bin(self.unary, {'**': lambda a, b: a ** b})

    def unary(self, filt=True):
        if self.accept('-'):
            a = self.unary(False)
            r = lambda x: -a(x)  # noqa
        elif self.accept('+'):
            a = self.unary(False)
            r = lambda x: +a(x)  # noqa
        else:
            r = self.postfix(self.primary())
        return self.filters(r) if filt else r

    def primary(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'num':
            n = float(v) if re.search(r'[.eE]', v) else int(v)
            return lambda x: n
        if k == 'str':
            s = v[1:-1].encode('ascii', 'backslashreplace').decode('unicode_escape')
            while self.t[self.i][0] == 'str':
                s += self.t[self.i][1][1:-1]
                self.i += 1
            return lambda x: s
        if k == 'name':
            if v in ('true', 'True'):
                return lambda x: True
            if v in ('false', 'False'):
                return lambda x: False
            if v in ('none', 'None'):
                return lambda x: None
            return lambda x: x.get(v)
        if v == '(':
            if self.accept(')'):
                return lambda x: ()
            a = self.tuple_()
            self.expect(')')
            return a
        if v == '[':
            items = []
            while not self.accept(']'):
                items.append(self.expr())
                if not self.peek(']'):
                    self.expect(',')
            return lambda x: [f(x) for f in items]
        if v == '{':
            items = []
            while not self.accept('}'):
                a = self.expr()
                self.expect(':')
                items.append((a, self.expr()))
                if not self.peek('}'):
                    self.expect(',')
            return lambda x: {f(x): g(x) for f, g in items}
        raise TemplateSyntaxError('unexpected %r' % v)

    def args(self):
        pos, kw = [], {}
        while not self.accept(')'):
            if self.t[self.i][0] == 'name' and self.t[self.i + 1] == ('op', '='):
                n = self.name()
                self.expect('=')
                kw[n] = self.expr()
            else:
                pos.append(self.expr())
            if not self.peek(')'):
                self.expect(',')
        return pos, kw

    def postfix(self, a):
        env = self.env
        while True:
            if self.accept('.'):
                k, v = self.t[self.i]
                if k not in ('name', 'num'):
                    raise TemplateSyntaxError('unexpected %r after .' % v)
                self.i += 1
                if k == 'num':
                    a = (lambda a, n: lambda x: env.getitem(a(x), n))(a, int(v))
                else:
                    a = (lambda a, n: lambda x: env.getattr(a(x), n))(a, v)
            elif self.accept('['):
                a = self.subscript(a)
            elif self.accept('('):
                pos, kw = self.args()
                a = (lambda a, pos, kw: lambda x: a(x)(*[f(x) for f in pos], **{k: f(x) for k, f in kw.items()}))(a, pos, kw)
            else:
                return a

    def subscript(self, a):
        env = self.env

        def part():
            return None if self.peek(':', ']') else self.expr()
        first = part()
        if self.peek(':'):
            parts = [first]
            while self.accept(':'):
                parts.append(part())
            parts += [None] * (3 - len(parts))
            self.expect(']')
            return lambda x: env.getitem(a(x), slice(*[p(x) if p else None for p in parts]))
        if self.accept(','):
            rest = [first, self.expr()]
            while self.accept(','):
                rest.append(self.expr())
            self.expect(']')
            return lambda x: env.getitem(a(x), tuple(p(x) for p in rest))
        self.expect(']')
        return lambda x: env.getitem(a(x), first(x))

    def filters(self, a):
        env = self.env
        while True:
            if self.accept('|'):
                n = self.name()
                while self.accept('.'):
                    n += '.' + self.name()
                pos, kw = self.args() if self.accept('(') else ([], {})
                if n not in env.filters:
                    raise TemplateSyntaxError('No filter named %r.' % n)
                a = (lambda a, n, pos, kw: lambda x: env.filters[n](a(x), *[f(x) for f in pos], **{k: f(x) for k, f in kw.items()}))(a, n, pos, kw)
            elif self.peek('is'):
                self.i += 1
                neg = bool(self.accept('not'))
                n = self.name()
                pos = []
                if self.accept('('):
                    pos, _ = self.args()
                elif self.t[self.i][0] in ('num', 'str') or (self.t[self.i][0] == 'name' and not self.peek('else', 'or', 'and', 'is', 'if', 'not', 'in')):
                    pos = [self.postfix(self.primary())]
                if n not in env.tests:
                    raise TemplateSyntaxError('No test named %r.' % n)
                a = (lambda a, n, pos, neg: lambda x: bool(env.tests[n](a(x), *[f(x) for f in pos])) != neg)(a, n, pos, neg)
            else:
                return a


def _str(v):
    return str(v)


def _default(v, d='', boolean=False):
    return d if isinstance(v, Undefined) or (boolean and not v) else v


def _round(v, precision=0, method='common'):
    import math
    f = {'ceil': math.ceil, 'floor': math.floor}.get(method)
    return round(v, precision) if f is None else f(v * 10 ** precision) / 10 ** precision


def _indent(s, width=4, first=False, blank=False):
    pad = width if isinstance(width, str) else ' ' * width
    lines = str(s).splitlines(True)
    return ''.join((pad if (i or first) and (blank or l.strip()) else '') + l for i, l in enumerate(lines))


def _map(seq, *a, attribute=None, default=None):
    if attribute is not None:
        return [_attr_path(v, attribute, default) for v in seq]
    return [_FILTERS[a[0]](v, *a[1:]) for v in seq]


def _attr_path(v, path, default=None):
    for p in str(path).split('.'):
        v = Environment().getattr(v, p) if not p.isdigit() else Environment().getitem(v, int(p))
    return default if isinstance(v, Undefined) else v


def _select(seq, *a):
    return [v for v in seq if (_TESTS[a[0]](v, *a[1:]) if a else v)]


def _reject(seq, *a):
    return [v for v in seq if not (_TESTS[a[0]](v, *a[1:]) if a else v)]


def _batch(v, n, fill=None):
    v = list(v)
    out = [v[i:i + n] for i in range(0, len(v), n)]
    if out and fill is not None:
        out[-1] += [fill] * (n - len(out[-1]))
    return out


_FILTERS = {
    'abs': abs, 'default': _default, 'd': _default, 'int': lambda v, d=0: int(v), 'float': lambda v, d=0.0: float(v),
    'string': str, 'length': len, 'count': len, 'join': lambda v, d='', attribute=None: str(d).join(str(x if attribute is None else _attr_path(x, attribute)) for x in v),
    'lower': lambda v: str(v).lower(), 'upper': lambda v: str(v).upper(), 'trim': lambda v, c=None: str(v).strip(c),
    'replace': lambda v, a, b, n=-1: str(v).replace(a, b, n), 'first': lambda v: next(iter(v), Undefined('first')),
    'last': lambda v: (list(v) or [Undefined('last')])[-1], 'list': list, 'sum': lambda v, attribute=None, start=0: sum((_attr_path(x, attribute) if attribute else x for x in v), start),
    'max': lambda v: max(v), 'min': lambda v: min(v), 'sort': lambda v, reverse=False: sorted(v, reverse=reverse), 'reverse': lambda v: v[::-1] if isinstance(v, str) else list(reversed(list(v))),
    'round': _round, 'indent': _indent, 'format': lambda v, *a, **k: str(v) % (k or a), 'safe': lambda v: v, 'e': lambda v: v, 'escape': lambda v: v,
    'map': _map, 'select': _select, 'reject': _reject, 'unique': lambda v: list(dict.fromkeys(v)), 'batch': _batch, 'capitalize': lambda v: str(v).capitalize(), 'title': lambda v: str(v).title(),
    'items': lambda v: v.items(), 'dictsort': lambda v: sorted(v.items()), 'attr': lambda v, n: getattr(v, n, Undefined(n)), 'wordcount': lambda v: len(str(v).split()),
    'selectattr': lambda s, n, *a: [v for v in s if (_TESTS[a[0]](_attr_path(v, n), *a[1:]) if a else _attr_path(v, n))],
    'rejectattr': lambda s, n, *a: [v for v in s if not (_TESTS[a[0]](_attr_path(v, n), *a[1:]) if a else _attr_path(v, n))],
}
_TESTS = {
    'defined': lambda v: not isinstance(v, Undefined), 'undefined': lambda v: isinstance(v, Undefined), 'none': lambda v: v is None,
    'odd': lambda v: v % 2 == 1, 'even': lambda v: v % 2 == 0, 'divisibleby': lambda v, n: v % n == 0, 'string': lambda v: isinstance(v, str),
    'number': lambda v: isinstance(v, (int, float)), 'integer': lambda v: isinstance(v, int) and not isinstance(v, bool), 'float': lambda v: isinstance(v, float),
    'mapping': lambda v: isinstance(v, dict), 'sequence': lambda v: hasattr(v, '__len__') and hasattr(v, '__getitem__'), 'iterable': lambda v: hasattr(v, '__iter__'),
    'sameas': lambda v, o: v is o, 'true': lambda v: v is True, 'false': lambda v: v is False, 'boolean': lambda v: isinstance(v, bool), 'callable': callable,
    'in': lambda v, s: v in s, 'eq': lambda a, b: a == b, 'equalto': lambda a, b: a == b, '==': lambda a, b: a == b, 'ne': lambda a, b: a != b, '!=': lambda a, b: a != b,
    'lt': lambda a, b: a < b, 'lessthan': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'greaterthan': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'lower': lambda v: str(v).islower(), 'upper': lambda v: str(v).isupper(),
}


class _Ctx(object):
    def __init__(self, env, scopes):
        self.env, self.scopes = env, scopes

    def get(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return self.env.undefined(n)

    def push(self, s):
        return _Ctx(self.env, self.scopes + [s])


class _NS(object):
    def __init__(self, *a, **k):
        self.__dict__.update(*a, **k)


class _Loop(object):
    def __init__(self, seq, depth):
        self._s, self.length, self.depth, self.depth0 = seq, len(seq), depth, depth - 1

    def _at(self, i):
        n = self.length
        self.index0, self.index, self.revindex, self.revindex0 = i, i + 1, n - i, n - i - 1
        self.first, self.last = i == 0, i == n - 1
        self.previtem = self._s[i - 1] if i else Undefined('previtem')
        self.nextitem = self._s[i + 1] if i + 1 < n else Undefined('nextitem')

    def cycle(self, *a):
        return a[self.index0 % len(a)]

    def __len__(self):
        return self.length


# ---------------------------------------------------------------- templates
_TAG = re.compile(r'(\{%[-+]?.*?[-+]?%\}|\{\{[-+]?.*?[-+]?\}\}|\{#.*?#\})', re.S)


class Template(object):
    def __new__(cls, source='', env=None, name=None, **kw):
        if env is None:
            env = Environment(**kw)
        self = object.__new__(cls)
        self.environment, self.name, self.filename = env, name, name
        self._body = self._compile(source)
        return self

    def __init__(self, *a, **k):
        pass

    def _lex(self, src):
        env = self.environment
        src = re.sub(r'\r\n|\r|\n', '\n', src)
        if not env.keep_trailing_newline and src.endswith('\n'):
            src = src[:-1]
        out, pos, strip_next, trim_next = [], 0, False, False

        def text(t, tag=None, kind=None):
            nonlocal strip_next, trim_next
            if strip_next:
                t = t.lstrip()
            elif trim_next and t.startswith('\n'):
                t = t[1:]
            strip_next = trim_next = False
            if tag is not None:
                if tag[2:3] == '-':
                    t = t.rstrip()
                elif env.lstrip_blocks and kind != 'var' and tag[2:3] != '+':
                    i = t.rfind('\n')
                    if (i >= 0 or not out) and not t[i + 1:].strip():
                        t = t[:i + 1]
            if t:
                out.append(('text', t))
        while True:
            m = _TAG.search(src, pos)
            if not m:
                break
            tag = m.group(0)
            kind = {'{%': 'block', '{{': 'var', '{#': 'comment'}[tag[:2]]
            text(src[pos:m.start()], tag, kind)
            pos = m.end()
            if tag[-3] == '-':
                strip_next = True
            elif kind != 'var' and env.trim_blocks and tag[-3] != '+':
                trim_next = True
            if kind == 'comment':
                continue
            body = tag[2:-2]
            body = body[1:] if body[:1] in '-+' and kind == 'block' or body[:1] == '-' else body
            body = body[:-1] if body[-1:] == '-' or (kind == 'block' and body[-1:] == '+') else body
            body = body.strip()
            if kind == 'block' and body == 'raw':
                e = re.compile(r'\{%[-+]?\s*endraw\s*[-+]?%\}').search(src, pos)
                if not e:
                    raise TemplateSyntaxError('Missing end of raw directive')
                text(src[pos:e.start()], e.group(0), kind)
                strip_next = e.group(0)[-3] == '-'
                pos = e.end()
                continue
            out.append((kind, body))
        text(src[pos:])
        return out

    def _compile(self, src):
        self._t, self._i = self._lex(src), 0
        body, end = self._block(())
        return body

    def _block(self, ends):
        """Nodes up to one of the end tags; returns (list of f(ctx, out), (tag, rest))."""
        nodes, env = [], self.environment
        while self._i < len(self._t):
            kind, body = self._t[self._i]
            self._i += 1
            if kind == 'text':
                nodes.append((lambda s: lambda c, o: o.append(s))(body))
            elif kind == 'var':
                p = _P(env, body)
                f = p.tuple_()
                p.done()
                nodes.append((lambda f: lambda c, o: o.append(_str(env.finalize(f(c)))))(f))
            else:
                m = re.match(r'[A-Za-z_]\w*', body)
                if not m:
                    raise TemplateSyntaxError('bad tag %r' % body)
                word, rest = m.group(0), body[m.end():]
                if word in ends:
                    return nodes, (word, rest)
                h = getattr(self, '_tag_' + word, None)
                if not h:
                    raise TemplateSyntaxError('Encountered unknown tag %r.' % word)
                nodes.append(h(rest))
        if ends:
            raise TemplateSyntaxError('Unexpected end of template, expected %s' % (ends,))
        return nodes, None

    def _expr(self, src):
        p = _P(self.environment, src)
        f = p.tuple_()
        p.done()
        return f

    def _tag_if(self, rest):
        arms, cond = [], self._expr(rest)
        while True:
            body, (w, r) = self._block(('elif', 'else', 'endif'))
            arms.append((cond, body))
            if w == 'endif':
                break
            cond = self._expr(r) if w == 'elif' else (lambda c: True)

        def run(c, o):
            for cond, body in arms:
                if cond(c):
                    for n in body:
                        n(c, o)
                    return
        return run

    def _tag_for(self, rest):
        p = _P(self.environment, rest)
        names = [p.name()]
        while p.accept(','):
            names.append(p.name())
        p.expect('in')
        it = p.or_()
        filt = p.or_() if p.accept('if') else None
        p.done()
        body, (w, _) = self._block(('else', 'endfor'))
        alt = []
        if w == 'else':
            alt, _ = self._block(('endfor',))

        def run(c, o):
            def bind(v):
                if len(names) == 1:
                    return {names[0]: v}
                v = tuple(v)
                if len(v) != len(names):
                    raise ValueError('cannot unpack')
                return dict(zip(names, v))
            seq = [v for v in it(c) if filt is None or filt(c.push(bind(v)))]
            outer = c.get('loop')
            loop = _Loop(seq, outer.depth + 1 if isinstance(outer, _Loop) else 1)
            for i, v in enumerate(seq):
                loop._at(i)
                s = bind(v)
                s['loop'] = loop
                cc = c.push(s)
                for n in body:
                    n(cc, o)
            if not seq:
                for n in alt:
                    n(c, o)
        return run

    def _tag_set(self, rest):
        p = _P(self.environment, rest)
        names, attr = [p.name()], None
        if p.accept('.'):
            attr = p.name()
        while p.accept(','):
            names.append(p.name())
        if p.accept('='):
            f = p.tuple_()
            p.done()
        else:
            p.done()
            body, _ = self._block(('endset',))

            def f(c):
                o = []
                for n in body:
                    n(c, o)
                return ''.join(o)

        def run(c, o):
            v = f(c)
            if attr:
                setattr(c.get(names[0]), attr, v)
            elif len(names) == 1:
                c.scopes[-1][names[0]] = v
            else:
                for n, x in zip(names, v):
                    c.scopes[-1][n] = x
        return run

    def _tag_with(self, rest):
        p = _P(self.environment, rest)
        sets = []
        while p.t[p.i][0] != 'end':
            n = p.name()
            p.expect('=')
            sets.append((n, p.expr()))
            p.accept(',')
        body, _ = self._block(('endwith',))

        def run(c, o):
            cc = c.push({n: f(c) for n, f in sets})
            for n in body:
                n(cc, o)
        return run

    def _tag_filter(self, rest):
        body, _ = self._block(('endfilter',))
        f = self._expr('__body__ |' + rest)

        def run(c, o):
            out = []
            for n in body:
                n(c, out)
            o.append(_str(f(c.push({'__body__': ''.join(out)}))))
        return run

    def _tag_include(self, rest):
        rest = re.sub(r'\s+(with|without)\s+context\s*$', '', rest)
        ignore = re.search(r'\s+ignore\s+missing\s*$', rest)
        f = self._expr(rest[:ignore.start()] if ignore else rest)

        def run(c, o):
            try:
                t = self.environment.get_template(f(c))
            except TemplateNotFound:
                if ignore:
                    return
                raise
            cc = c.push({})
            for n in t._body:
                n(cc, o)
        return run

    def _macro(self, rest):
        p = _P(self.environment, rest)
        name = p.name()
        p.expect('(')
        params = []
        while not p.accept(')'):
            n = p.name()
            params.append((n, p.expr() if p.accept('=') else None))
            if not p.peek(')'):
                p.expect(',')
        p.done()
        body, _ = self._block(('endmacro',))

        def make(c):
            def call(*a, **k):
                s = {}
                for i, (n, d) in enumerate(params):
                    s[n] = a[i] if i < len(a) else k[n] if n in k else d(c) if d else Undefined(n)
                o = []
                cc = c.push(s)
                for n in body:
                    n(cc, o)
                return ''.join(o)
            return call
        return name, make

    def _tag_macro(self, rest):
        name, make = self._macro(rest)

        def run(c, o):
            c.scopes[-1][name] = make(c)
        return run

    def _module(self):
        c = _Ctx(self.environment, [dict(self.environment.globals), {}])
        for n in self._body:
            n(c, [])
        return _NS(c.scopes[-1])

    def _tag_import(self, rest):
        m = re.match(r'(.*?)\s+as\s+(\w+)(\s+with(out)?\s+context)?\s*$', rest, re.S)
        f, n = self._expr(m.group(1)), m.group(2)

        def run(c, o):
            c.scopes[-1][n] = self.environment.get_template(f(c))._module()
        return run

    def _tag_from(self, rest):
        m = re.match(r'(.*?)\s+import\s+(.*?)(\s+with(out)?\s+context)?\s*$', rest, re.S)
        f, names = self._expr(m.group(1)), [re.split(r'\s+as\s+', x.strip()) for x in m.group(2).split(',')]

        def run(c, o):
            mod = self.environment.get_template(f(c))._module()
            for n in names:
                c.scopes[-1][n[-1]] = getattr(mod, n[0])
        return run

    def _tag_do(self, rest):
        f = self._expr(rest)
        return lambda c, o: f(c) and None

    def render(self, *a, **k):
        d = dict(*a, **k)
        c = _Ctx(self.environment, [dict(self.environment.globals), d, {}])
        o = []
        for n in self._body:
            n(c, o)
        return ''.join(o)


class BaseLoader(object):
    def get_source(self, environment, name):
        raise TemplateNotFound(name)


class FileSystemLoader(BaseLoader):
    def __init__(self, searchpath, encoding='utf-8', followlinks=False):
        self.searchpath = [searchpath] if isinstance(searchpath, (str, os.PathLike)) else list(searchpath)
        self.encoding = encoding

    def get_source(self, environment, name):
        if '..' in name.split('/'):
            raise TemplateNotFound(name)
        for d in self.searchpath:
            p = os.path.join(str(d), *name.split('/'))
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    return f.read().decode(self.encoding), p, lambda: True
        raise TemplateNotFound(name)


class DictLoader(BaseLoader):
    def __init__(self, mapping):
        self.mapping = mapping

    def get_source(self, environment, name):
        if name not in self.mapping:
            raise TemplateNotFound(name)
        return self.mapping[name], None, lambda: True


class PackageLoader(FileSystemLoader):
    def __init__(self, package, path='templates', encoding='utf-8'):
        import importlib
        FileSystemLoader.__init__(self, os.path.join(os.path.dirname(importlib.import_module(package).__file__), path), encoding)


def select_autoescape(*a, **k):
    return False


class Environment(object):
    def __init__(self, loader=None, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False,
                 undefined=Undefined, autoescape=False, extensions=(), finalize=None, cache_size=400, auto_reload=True, **kw):
        if kw:
            raise TypeError('option(s) not supported by this stand-in: %s' % ', '.join(kw))
        self.loader, self.trim_blocks, self.lstrip_blocks = loader, trim_blocks, lstrip_blocks
        self.keep_trailing_newline, self.undefined = keep_trailing_newline, undefined
        self.finalize = finalize or (lambda v: v)
        self.filters, self.tests = dict(_FILTERS), dict(_TESTS)
        self.globals = {'range': range, 'dict': dict, 'namespace': _NS, 'lipsum': None}
        self._cache = {}

    def getattr(self, o, n):
        try:
            return getattr(o, n)
        except AttributeError:
            pass
        try:
            return o[n]
        except (TypeError, LookupError, AttributeError, ValueError):
            return self.undefined(n)

    def getitem(self, o, n):
        try:
            return o[n]
        except (AttributeError, TypeError, LookupError):
            if isinstance(n, str):
                try:
                    return getattr(o, n)
                except AttributeError:
                    pass
        return self.undefined(str(n))

    def get_template(self, name, parent=None, globals=None):
        if isinstance(name, Template):
            return name
        if name not in self._cache:
            src, fn, _ = self.loader.get_source(self, name)
            self._cache[name] = Template(src, env=self, name=name)
        return self._cache[name]

    def select_template(self, names):
        for n in names:
            try:
                return self.get_template(n)
            except TemplateNotFound:
                pass
        raise TemplateNotFound(names)

    def from_string(self, s):
        return Template(s, env=self)
