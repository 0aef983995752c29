"""Schemas in scripts: plain JSON
  {"t": "Array"|"Scalar"|..., "kw": {constructor arguments}}
  {"t": "List", "sub": schema, "kw": {...}}
  {"t": "Compilation", "subs": {name: schema}, "opt": [names]}
Numbers in max_value/min_value are JSON numbers; a dtype may be given as
{"np": name} (a numpy.dtype object) or {"ty": name} (a type object).
The order of "subs" is the order of declaration.
"""
import hashlib
import json

import numpy as np

from values import Num, to_python


def build(sc, dsch_schema):
    """Create the schema node with the library under test."""
    cls = getattr(dsch_schema, sc['t'])
    if sc['t'] == 'Compilation':
        subs = {n: build(s, dsch_schema) for n, s in sc['subs'].items()}
        kw = {}
        if 'opt' in sc:
            kw['optionals'] = (tuple(sc['opt']) if sc.get('opttuple')
                               else list(sc['opt']))
        return cls(subs, **kw)
    kw = dict(sc.get('kw', {}))
    if 'dtype' in kw and isinstance(kw['dtype'], dict):
        d = kw['dtype']
        kw['dtype'] = (np.dtype(d['np']) if 'np' in d
                       else getattr(np, d['ty']))
    for k in ('max_shape', 'min_shape', 'depends_on'):
        if isinstance(kw.get(k), list) and not sc.get('lists'):
            kw[k] = tuple(kw[k])
    for k in ('max_value', 'min_value'):
        if isinstance(kw.get(k), str):
            kw[k] = float(kw[k])
    if sc['t'] == 'List':
        return cls(build(sc['sub'], dsch_schema), **kw)
    return cls(**kw)


def dtype_json(d):
    if isinstance(d, dict):
        return np.dtype(d.get('np') or d.get('ty')).name
    return d


def dtype_of(sc):
    return np.dtype(dtype_json(sc['kw']['dtype']))


def dtype_name(sc):
    d = dtype_of(sc)
    return d.name + ('' if d.isnative else '>')


def canon(sc):
    """The dict whose JSON text identifies the schema (own implementation)."""
    t = sc['t']
    kw = sc.get('kw', {})
    if t == 'Compilation':
        cfg = {'optionals': list(sc.get('opt', [])),
               'subnodes': {n: canon(s) for n, s in sc['subs'].items()}}
    elif t == 'List':
        cfg = {'subnode': canon(sc['sub']),
               'max_length': kw.get('max_length'),
               'min_length': kw.get('min_length')}
    elif t == 'Array':
        mxs, mns = kw.get('max_shape'), kw.get('min_shape')
        dep = kw.get('depends_on')
        cfg = {'dtype': dtype_json(kw['dtype']), 'unit': kw.get('unit', ''),
               'max_shape': mxs, 'min_shape': mns,
               'ndim': ndim(sc),
               'max_value': num_json(kw.get('max_value')),
               'min_value': num_json(kw.get('min_value')),
               'depends_on': [dep] if isinstance(dep, str) else dep}
    elif t == 'Scalar':
        cfg = {'dtype': dtype_json(kw['dtype']), 'unit': kw.get('unit', ''),
               'max_value': num_json(kw.get('max_value')),
               'min_value': num_json(kw.get('min_value'))}
    elif t in ('Bytes', 'String'):
        cfg = {'max_length': kw.get('max_length'),
               'min_length': kw.get('min_length')}
    elif t == 'Bool':
        cfg = {}
    else:
        cfg = {'set_on_create': kw.get('set_on_create', False)}
    return {'node_type': t, 'config': cfg}


def num_json(x):
    return float(x) if isinstance(x, str) else x


def ndim(sc):
    kw = sc['kw']
    if kw.get('max_shape') or kw.get('min_shape'):
        return len(kw.get('max_shape') or kw.get('min_shape'))
    return kw.get('ndim', 1)


def text(sc):
    return json.dumps(canon(sc), sort_keys=True)


def hash_(sc):
    return hashlib.sha256(text(sc).encode()).hexdigest()


NEARLY = ('head', 'half', 'cut', 'tail', 'more', 'long')


def nearly(h, way=None):
    """A text that resembles a hash."""
    return {None: h, 'head': h[:8], 'half': h[:32], 'cut': h[:-1], 'tail': h[1:], 'more': h + '0',
            'long': h + h}[way]


def plain(text):
    """Text in printable ASCII characters (character by character)."""
    return json.dumps(text)[1:-1]


def _opt(x):
    return [] if x is None else [x]


def _shape(x):
    return [] if x is None else [[-1 if n is None else n for n in x]]


def _num(x):
    x = num_json(x)
    return [] if x is None else [{'r': Num(x), 'j': json.dumps(x)}]


def fields(sc):
    """Field names in their order in the specification."""
    return sorted(sc['subs'])


def to_spec(sc):
    """Schema record of the specification."""
    t = sc['t']
    kw = sc.get('kw', {})
    if t == 'Compilation':
        return {'t': t,
                'f': [{'n': n, 'q': json.dumps(n), 'e': plain(n), 's': to_spec(sc['subs'][n])}
                      for n in fields(sc)],
                'opt': [{'n': n, 'q': json.dumps(n)} for n in sc.get('opt', [])]}
    if t == 'List':
        return {'t': t, 'sub': to_spec(sc['sub']),
                'mn': _opt(kw.get('min_length')), 'mx': _opt(kw.get('max_length'))}
    if t == 'Array':
        dep = kw.get('depends_on')
        dep = [dep] if isinstance(dep, str) else dep
        return {'t': t, 'd': json.dumps(dtype_json(kw['dtype'])),
                'dn': dtype_name(sc), 'u': json.dumps(kw.get('unit', '')), 'un': plain(kw.get('unit', '')),
                'nd': kw.get('ndim', 1),
                'mxs': _shape(kw.get('max_shape')), 'mns': _shape(kw.get('min_shape')),
                'mxv': _num(kw.get('max_value')), 'mnv': _num(kw.get('min_value')),
                'dep': [] if dep is None else [[
                    {'n': n or '', 'q': json.dumps(n)} for n in dep]]}
    if t == 'Scalar':
        return {'t': t, 'd': json.dumps(dtype_json(kw['dtype'])),
                'dn': dtype_name(sc), 'u': json.dumps(kw.get('unit', '')), 'un': plain(kw.get('unit', '')),
                'mxv': _num(kw.get('max_value')), 'mnv': _num(kw.get('min_value'))}
    if t in ('Bytes', 'String'):
        return {'t': t, 'mn': _opt(kw.get('min_length')), 'mx': _opt(kw.get('max_length'))}
    if t == 'Bool':
        return {'t': t}
    return {'t': t, 'soc': kw.get('set_on_create', False)}


def walk(sc):
    """The schema and all its sub-schemas."""
    yield sc
    for s in sc.get('subs', {}).values():
        yield from walk(s)
    if 'sub' in sc:
        yield from walk(sc['sub'])


def at(sc, path):
    """Sub-schema at a path of positions (fields in the order of names)."""
    for i in path:
        sc = sc['subs'][fields(sc)[i - 1]] if sc['t'] == 'Compilation' else sc['sub']
    return sc


def is_leaf(sc):
    return sc['t'] not in ('Compilation', 'List')
