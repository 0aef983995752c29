"""Values: script literals <-> Python objects <-> values of the specification.

A script literal is plain JSON:
  {"t": "str"|"bytes", "c": [codes]}          {"t": "bool", "c": [0|1]}
  {"t": "date"|"datetime"|"time", "c": [ints]}
  {"t": "num", "d": dtype, "x": number}       {"t": "py", "x": number}
  {"t": "arr", "d": dtype, "s": shape, "x": [numbers]}
  {"t": "other", "w": kind}                   something no node accepts
  {"t": "map", "m": [[name, literal]...]}     {"t": "seq", "x": [literals]}
Numbers are JSON ints and floats or the strings "nan", "inf", "-inf"; complex
numbers are pairs.

In the specification, numbers are ranks.  Until a batch is complete, they are
kept as Num objects.
"""
import datetime
import decimal
import fractions
import json
import math

import numpy as np


class Num:
    """A real number that is replaced by its rank in the batch."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Num) and (
            self.v == other.v or (self.v != self.v and other.v != other.v))

    def __hash__(self):
        return hash(('Num', 'nan' if self.v != self.v else self.v))

    def __repr__(self):
        return 'Num({!r})'.format(self.v)


def lit_number(x):
    if isinstance(x, list):
        return complex(lit_number(x[0]), lit_number(x[1]))
    if isinstance(x, str):
        return float(x)
    return x


def number_lit(v):
    """Python number -> JSON number literal."""
    if isinstance(v, complex):
        return [number_lit(v.real), number_lit(v.imag)]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if math.isnan(v):
        return 'nan'
    if math.isinf(v):
        return 'inf' if v > 0 else '-inf'
    return v


def _nums(v):
    v = v.item() if isinstance(v, np.generic) else v
    if isinstance(v, complex):
        return [Num(v.real), Num(v.imag)]
    if isinstance(v, bool):
        return [Num(int(v))]
    return [Num(v)]


class Other:
    """An object without any meaning for dsch."""
    def __repr__(self):
        return 'Other()'


class BadLiteral(BaseException):
    """The harness made a literal without a meaning."""


def to_python(lit):
    """Script literal -> Python object."""
    try:
        return _to_python(lit)
    except Exception as err:
        raise BadLiteral('{}: {}'.format(lit, err))


def _tz(lit):
    return (datetime.timezone(datetime.timedelta(minutes=lit['tz'])) if 'tz' in lit
            else None)


def _tz_part(v):
    return [] if v.tzinfo is None else [int(v.utcoffset().total_seconds())]


def _to_python(lit):
    t = lit['t']
    if t == 'str':
        return ''.join(chr(c) for c in lit['c'])
    if t == 'bytes':
        return bytes(lit['c'])
    if t == 'bool':
        return bool(lit['c'][0])
    if t == 'npbool':
        return np.bool_(lit['c'][0])
    if t == 'date':
        return datetime.date(*lit['c'])
    if t == 'datetime':
        return datetime.datetime(*lit['c'], tzinfo=_tz(lit))
    if t == 'time':
        return datetime.time(*lit['c'], tzinfo=_tz(lit))
    if t == 'num':
        return np.dtype(lit['d']).type(lit_number(lit['x']))
    if t == 'py':
        return lit_number(lit['x'])
    if t == 'arr':
        a = np.array([lit_number(x) for x in lit['x']], dtype=lit['d'])
        a = a.reshape(tuple(lit['s']))
        lay = lit.get('lay')
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'view' and a.ndim:
            big = np.zeros(tuple(2 * n + 1 for n in a.shape), dtype=a.dtype)
            sl = tuple(slice(1, 2 * n + 1, 2) for n in a.shape)
            big[sl] = a
            a = big[sl]
        return a
    if t == 'other':
        return {'none': None, 'list': [1, 2], 'dict': {'a': 1}, 'obj': Other(),
                'set': {1}, 'tuple': (1,), 'type': int, 'bytearray': bytearray(b'a'),
                'view': memoryview(b'a'), 'frac': fractions.Fraction(1, 2), 'dec': decimal.Decimal(1),
                'range': range(2), 'delta': datetime.timedelta(1), 'ell': ...}[lit['w']]
    if t == 'map':
        return {name: to_python(v) for name, v in lit['m']}
    if t == 'seq':
        return [to_python(v) for v in lit['x']]
    if t == 'tuple':
        return tuple(to_python(v) for v in lit['x'])
    raise ValueError(t)


def enc(v):
    """Python object -> value of the specification (with Num objects)."""
    if isinstance(v, str) and type(v) is str:
        return {'t': 'str', 'c': [ord(c) for c in v]}
    if type(v) is bytes:
        return {'t': 'bytes', 'c': list(v)}
    if type(v) is bool:
        return {'t': 'bool', 'c': [int(v)]}
    if type(v) is datetime.datetime:
        if v.fold:
            return {'t': 'other', 'w': 'fold'}
        return {'t': 'datetime', 'c': [v.year, v.month, v.day, v.hour,
                                       v.minute, v.second, v.microsecond] + _tz_part(v)}
    if type(v) is datetime.date:
        return {'t': 'date', 'c': [v.year, v.month, v.day]}
    if type(v) is datetime.time:
        if v.fold:
            return {'t': 'other', 'w': 'fold'}
        return {'t': 'time', 'c': [v.hour, v.minute, v.second, v.microsecond] + _tz_part(v)}
    if type(v) is np.ndarray:
        if v.dtype.kind not in 'biufc':
            return {'t': 'other', 'w': 'dtype ' + str(v.dtype)}
        c = []
        for x in v.ravel(order='C').tolist():
            c += _nums(x)
        return {'t': 'arr', 'd': v.dtype.name + _order(v.dtype),
                's': list(v.shape), 'c': c}
    if isinstance(v, np.generic) and v.dtype.kind in 'biufc':
        return {'t': 'num', 'd': v.dtype.name + _order(v.dtype), 'c': _nums(v)}
    if isinstance(v, (int, float, complex)):
        return {'t': 'py', 'c': _nums(v)}
    return {'t': 'other', 'w': type(v).__name__}


def _order(dtype):
    return '' if dtype.isnative else '>'


def enc_arg(lit, schema=None):
    """Script literal used as an argument -> value of the specification.

    For the values of Scalar nodes, x tells whether the number is exactly
    representable in the dtype of the node.
    """
    t = lit['t']
    if t == 'map':
        names = sorted(schema['subs']) if schema and 'subs' in schema else []
        m = []
        for name, v in lit['m']:
            sub = schema['subs'].get(name) if schema and 'subs' in schema else None
            i = names.index(name) + 1 if name in names else 0
            m.append({'i': i, 'v': enc_arg(v, sub)})
        return {'t': 'map', 'm': m}
    if t in ('seq', 'tuple'):
        sub = schema['sub'] if schema and 'sub' in schema else None
        return {'t': 'seq', 'x': [enc_arg(v, sub) for v in lit['x']]}
    out = enc(to_python(lit))
    if schema and schema['t'] == 'Scalar' and out['t'] in ('num', 'py'):
        d = schema['kw']['dtype']
        d = d.get('np') or d.get('ty') if isinstance(d, dict) else d
        out['x'] = exact_in(to_python(lit), d)
    return out


def exact_in(v, dtype):
    dtype = np.dtype(dtype)
    a = v.item() if isinstance(v, np.generic) else v
    if isinstance(a, bool):
        return False
    if isinstance(a, complex) and dtype.kind != 'c':
        return False
    if isinstance(a, float) and dtype.kind not in 'fc':
        return False
    try:
        b = dtype.type(a).item()
    except (OverflowError, ValueError, TypeError):
        return False
    if dtype.kind == 'f' and math.isinf(b) and not math.isinf(a):
        return False
    return Num(b) == Num(a) if not isinstance(b, complex) else (
        [Num(b.real), Num(b.imag)] == [Num(complex(a).real), Num(complex(a).imag)])


class Ranks:
    """Numbers of a batch in their order."""

    def __init__(self):
        self.vals = {0}

    def add(self, obj):
        if isinstance(obj, Num):
            if obj.v == obj.v:
                self.vals.add(obj.v)
        elif isinstance(obj, dict):
            for v in obj.values():
                self.add(v)
        elif isinstance(obj, (list, tuple)):
            for v in obj:
                self.add(v)

    def close(self):
        self.rank = {}
        prev = object()
        n = -1
        for v in sorted(self.vals):
            if v != prev:
                n += 1
            self.rank[v] = n
            prev = v

    def sub(self, obj):
        if isinstance(obj, Num):
            return -1 if obj.v != obj.v else self.rank[obj.v]
        if isinstance(obj, dict):
            return {k: self.sub(v) for k, v in obj.items()}
        if isinstance(obj, (list, tuple)):
            return [self.sub(v) for v in obj]
        return obj


def jtext(x):
    return json.dumps(x, sort_keys=True)
