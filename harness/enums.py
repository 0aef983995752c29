"""Exhaustive enumerations of small cases, as scripts with recorded traces."""
import itertools
import math
import json
import os

import numpy as np

from driver import INMEM, Runner
from gen import BACKENDS, EXT, FILES
import schemas as S

NONE = [None]
FIXTURES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')


def traces(name, part, parts, deep=False):
    """The cases of an enumeration that belong to a part, in traces of a
    limited length."""
    out = []
    for n, (tags, schemas, cases) in enumerate(ENUMS[name](deep)):
        if n % parts != part:
            continue
        with Runner('{}-{}'.format(name, n), schemas, tags) as run:
            for step in cases:
                if callable(step):
                    step(run)
                else:
                    run.do(step)
            if run.steps:
                out.append(({'id': run.id, 'tags': run.tags, 'schemas': run.schemas,
                             'steps': run.steps}, run.finish()))
    return out


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def arr(d, shape, x=None):
    n = 1
    for k in shape:
        n *= k
    return {'t': 'arr', 'd': d, 's': list(shape), 'x': x if x is not None else [0] * n}


def text(n):
    return {'t': 'str', 'c': [97] * n}


def blob(n):
    return {'t': 'bytes', 'c': [0] * n}


def num(x, d='int32'):
    return {'t': 'num', 'd': d, 'x': x}


def comp(subs, opt=None):
    s = {'t': 'Compilation', 'subs': subs}
    if opt is not None:
        s['opt'] = opt
    return s


def lst(sub, **kw):
    return {'t': 'List', 'sub': sub, 'kw': kw}


def kws(**kw):
    return {k: v for k, v in kw.items() if v is not None}


# -- single values --------------------------------------------------------------
def value_cases(deep):
    """(schema, step arguments) of verdicts on single values."""
    lim = [None, 0, 1, 2]
    for mn, mx in itertools.product(lim, lim):
        kw = kws(min_length=mn, max_length=mx)
        for n in range(4):
            yield {'t': 'String', 'kw': kw}, {'v': text(n)}
            yield {'t': 'Bytes', 'kw': kw}, {'v': blob(n)}
            yield lst({'t': 'Bool'}, **kw), {'n': n}
    for d, nums in (('int32', [-2, -1, 0, 1, 2]), ('float64', [-1.5, -1, -0.5, 0, 0.5, 1, 1.5, 'nan', 'inf', '-inf']),
                    ('uint8', [0, 1, 2, 255])):
        lims = {'uint8': [None, 0, 1, 300], 'int32': [None, -1, 0, 0.5, 1]}.get(d, [None, -1, 0, 1])
        for mn, mx in itertools.product(lims, lims):
            kw = kws(min_value=mn, max_value=mx)
            for x in nums:
                yield {'t': 'Scalar', 'kw': dict(kw, dtype=d)}, {'v': num(x, d)}
                yield {'t': 'Array', 'kw': dict(kw, dtype=d, ndim=1)}, {'v': arr(d, [1], [x])}
                for y in (nums if deep else [0]):
                    yield {'t': 'Array', 'kw': dict(kw, dtype=d, ndim=1)}, {'v': arr(d, [2], [y, x])}
            yield {'t': 'Array', 'kw': dict(kw, dtype=d, ndim=1)}, {'v': arr(d, [0])}
            yield {'t': 'Array', 'kw': dict(kw, dtype=d, ndim=2)}, {'v': arr(d, [0, 2])}
            yield {'t': 'Array', 'kw': dict(kw, dtype=d, ndim=2)}, {'v': arr(d, [2, 2], [0, 0, 0, nums[-1]])}
    dts = ['float64', 'float32', 'int32', 'int64', 'int16', 'uint8', 'bool', 'complex128']
    for d, e in itertools.product(dts, dts):
        yield {'t': 'Array', 'kw': {'dtype': d, 'ndim': 1}}, {'v': arr(e, [1], [[1, 0]] if e == 'complex128' else [1])}
        if d != 'bool' and e not in ('bool', 'complex128') and d != 'complex128':
            yield {'t': 'Scalar', 'kw': {'dtype': d}}, {'v': num(1, e)}
    for d in dts:
        if np.dtype(d).itemsize > 1:
            for e in dts:
                if np.dtype(e).itemsize > 1 and (deep or d == e):
                    yield {'t': 'Array', 'kw': {'dtype': d, 'ndim': 1}}, {
                        'v': arr(np.dtype(e).newbyteorder('>').str, [1], [[1, 0]] if e == 'complex128' else [1])}
    # shapes
    for n in (1, 2):
        dims = [None, 0, 1, 2]
        for mx in [None] + list(itertools.product(dims, repeat=n)):
            for mn in [None] + list(itertools.product([None, 1, 2], repeat=n)):
                kw = kws(max_shape=mx and list(mx), min_shape=mn and list(mn))
                if not kw:
                    kw = {'ndim': n}
                for sh in itertools.product(range(4 if n == 1 else 3), repeat=n):
                    yield {'t': 'Array', 'kw': dict(kw, dtype='int32')}, {'v': arr('int32', sh)}
    for n, m in itertools.product((1, 2, 3), (0, 1, 2, 3, 4)):
        yield {'t': 'Array', 'kw': {'dtype': 'int32', 'ndim': n}}, {'v': arr('int32', [1] * m)}
        yield {'t': 'Array', 'kw': {'dtype': 'int32', 'max_shape': [1] * n}}, {'v': arr('int32', [1] * m)}
        yield {'t': 'Array', 'kw': {'dtype': 'int32', 'min_shape': [1] * n}}, {'v': arr('int32', [1] * m)}
    # types
    vals = [text(1), blob(1), {'t': 'bool', 'c': [1]}, {'t': 'npbool', 'c': [1]}, {'t': 'py', 'x': 1}, {'t': 'py', 'x': 0},
            {'t': 'py', 'x': 1.5}, num(1), num(1, 'float64'), {'t': 'date', 'c': [2000, 1, 1]},
            {'t': 'datetime', 'c': [2000, 1, 1, 0, 0, 0, 0]}, {'t': 'time', 'c': [1, 2, 3, 4]},
            arr('float64', [2]), arr('int32', [], [1])] + \
           [{'t': 'other', 'w': w} for w in ('none', 'list', 'dict', 'obj', 'tuple', 'type', 'set', 'bytearray', 'view',
                                               'frac', 'dec', 'range', 'delta', 'ell')]
    for s in LEAVES:
        for v in vals:
            if s['t'] == 'Scalar' and v['t'] == 'npbool':
                continue
            yield s, {'v': v}


LEAVES = [{'t': 'String'}, {'t': 'Bytes'}, {'t': 'Bool'}, {'t': 'Date'}, {'t': 'DateTime'}, {'t': 'Time'},
          {'t': 'Scalar', 'kw': {'dtype': 'int32'}}, {'t': 'Scalar', 'kw': {'dtype': 'float64'}},
          {'t': 'Array', 'kw': {'dtype': 'float64', 'ndim': 1}}, {'t': 'Array', 'kw': {'dtype': 'int32', 'ndim': 1}}]


def values(deep):
    vias = itertools.cycle(['', 'json', 'dict', 'json'])
    for c in chunks(value_cases(deep), 60):
        scs, steps = [], []
        for sc, args in c:
            if sc not in scs:
                scs.append(sc)
            steps.append(dict({'op': 'svalid', 's': scs.index(sc), 'via': next(vias)}, **args))
        yield [], scs, steps


# -- independent variables --------------------------------------------------------
def deps(deep):
    """Sizes of dependent arrays, in data trees and as plain values."""
    for n in (1, 2, 3) if deep else (1, 2):
        for dep in itertools.product([None, 'a', 'b'], repeat=n):
            if not any(dep):
                continue
            ax = {'t': 'Array', 'kw': {'dtype': 'int32'}}
            sc = comp({'d': {'t': 'Array', 'kw': {'dtype': 'int32', 'ndim': n, 'depends_on': list(dep)}},
                       'a': ax, 'b': ax})
            cases = []
            for be in (('inmem',) if n == 3 else ('inmem', 'npz')):
                h = be
                cases.append({'op': 'create', 'h': h, 's': 0, 'path': INMEM if be == 'inmem' else 'f.npz'})
                for a, b in itertools.product(range(3), repeat=2):
                    cases.append({'op': 'set', 'h': h, 'p': [1], 'v': arr('int32', [a])})
                    cases.append({'op': 'set', 'h': h, 'p': [2], 'v': arr('int32', [b])})
                    for sh in itertools.product(range(3), repeat=n):
                        cases.append({'op': 'set', 'h': h, 'p': [3], 'v': arr('int32', sh)})
                        cases.append({'op': 'val', 'h': h, 'p': []})
                        if sh == (1,) * n:
                            cases.append({'op': 'val', 'h': h, 'p': [3]})
                            cases.append({'op': 'clr', 'h': h, 'p': [1]})
                            cases.append({'op': 'val', 'h': h, 'p': []})
                            cases.append({'op': 'set', 'h': h, 'p': [1], 'v': arr('int32', [a])})
            yield [], [sc], cases


def faults(deep):
    """Every combination of faulty nodes in a nested tree."""
    leaf = {'t': 'String', 'kw': {'max_length': 1}}
    sc = comp({'a': leaf, 'l': lst(comp({'x': leaf, 'y': lst(leaf, max_length=2)})),
               'm': lst(lst(leaf), min_length=1)}, ['a'])
    v = [None, text(1), text(2)]

    def mp(**kw):
        return {'t': 'map', 'm': [[k, x] for k, x in kw.items() if x is not None]}

    def sq(*x):
        return {'t': 'seq', 'x': list(x)}
    bes = itertools.cycle(BACKENDS)
    trees = []
    for a, x0, y0, y1, m, x1 in itertools.product(v, v, v[1:], [0, 1, 2, 3], range(5), v[1:]):
        item0 = mp(x=x0, y=sq(*[y0] * y1))
        item1 = mp(x=x1, y=sq(text(1)))
        ml = [sq(), sq(sq()), sq(sq(text(1)), sq()), sq(sq(text(1)), sq(text(1), text(2))), sq(sq(text(2)))][m]
        trees.append(mp(a=a, l=sq(item0, item1), m=ml))
    for c in chunks(trees, 24):
        be = next(bes)
        path = INMEM if be == 'inmem' else 'f' + EXT[be]
        cases = [{'op': 'create', 'h': 'h', 's': 0, 'path': path}]
        for t in c:
            cases.append({'op': 'clr', 'h': 'h', 'p': []})
            cases.append({'op': 'rep', 'h': 'h', 'p': [], 'v': t})
            for p in ([], [2], [3], [2, 1]):
                cases.append({'op': 'val', 'h': 'h', 'p': p})
        yield [], [sc], cases


# -- patterns of filled and empty nodes ---------------------------------------------
def patterns(deep):
    leaf = {'t': 'String'}
    sc = comp({'a': leaf, 'b': {'t': 'Scalar', 'kw': {'dtype': 'int32'}},
               'k': comp({'x': {'t': 'Bool'}, 'y': leaf}, ['y']),
               'l': lst(comp({'p': {'t': 'Bytes'}, 'q': {'t': 'Array', 'kw': {'dtype': 'float64', 'ndim': 1}}}, ['q']))},
              ['b'])

    def mp(d):
        return {'t': 'map', 'm': [[k, x] for k, x in d.items() if x is not None]}
    trees = []
    items = [mp({}), mp({'p': blob(0)}), mp({'q': arr('float64', [0])}), mp({'p': blob(2), 'q': arr('float64', [2])})]
    for a, b, x, y in itertools.product([None, text(0)], [None, num(0)], [None, {'t': 'bool', 'c': [0]}],
                                        [None, text(1)]):
        for ls in [(), *itertools.product(range(4), repeat=1), *itertools.product(range(4), repeat=2),
                   *(itertools.product(range(4), repeat=3) if deep else [(0, 0, 1), (1, 0, 2), (3, 0, 0)])]:
            trees.append(mp({'a': a, 'b': b, 'k': mp({'x': x, 'y': y}),
                             'l': {'t': 'seq', 'x': [items[i] for i in ls]}}))
    bes = itertools.cycle(BACKENDS)
    rest = {be: list(trees[n % 2 if not deep and be == 'inmem' else 0::1]) for n, be in enumerate(BACKENDS)}
    for be in BACKENDS:
        for n, c in enumerate(chunks(rest[be], 12)):
            cases = []
            for i, t in enumerate(c):
                path = INMEM if be == 'inmem' else 'f{}{}'.format(i, EXT[be])
                cases.append({'op': 'create', 'h': 'h', 's': 0, 'path': path})
                cases.append({'op': 'rep', 'h': 'h', 'p': [], 'v': t})
                if be != 'inmem':
                    cases += [{'op': 'save', 'h': 'h', 'force': True}, {'op': 'raw', 'path': path},
                              {'op': 'drop', 'h': 'h'},
                              {'op': 'load', 'h': 'h', 'path': path, 'force': bool(i % 2)}]
                cases += [{'op': 'chk', 'h': 'h'}, {'op': 'dtree', 'h': 'h', 'p': [], 'inc': True},
                          {'op': 'dtree', 'h': 'h', 'p': [], 'inc': False}, {'op': 'val', 'h': 'h', 'p': []},
                          {'op': 'ptree', 'h': 'h', 'p': []},
                          {'op': 'create', 'h': 'g', 's': 0, 'path': INMEM},
                          {'op': 'rep', 'h': 'g', 'p': [], 'from': {'h': 'h', 'p': []}, 'via': 'dtree'},
                          {'op': 'drop', 'h': 'g'}, {'op': 'drop', 'h': 'h'}]
            yield [], [sc], cases


# -- pairs of schemas ------------------------------------------------------------------
def catalogue():
    out = list(LEAVES)
    for t in ('String', 'Bytes'):
        for mn, mx in ((0, None), (1, None), (None, 0), (None, 1), (1, 1), (1, 2)):
            out.append({'t': t, 'kw': kws(min_length=mn, max_length=mx)})
    for t in ('Date', 'DateTime', 'Time'):
        out.append({'t': t, 'kw': {'set_on_create': True}})
    A = {'dtype': 'float64', 'ndim': 1}
    for kw in (dict(A, unit='V'), dict(A, min_value=0), dict(A, max_value=0), dict(A, min_value=1),
               {'dtype': 'float64', 'max_shape': [2]}, {'dtype': 'float64', 'min_shape': [2]},
               {'dtype': 'float64', 'max_shape': [None]}, {'dtype': 'float64', 'max_shape': [2], 'min_shape': [2]},
               {'dtype': 'float64', 'max_shape': [2, 2]}, {'dtype': 'float64', 'max_shape': [2, None]},
               {'dtype': 'float64', 'ndim': 2}, dict(A, depends_on=['a']), dict(A, depends_on='b'),
               {'dtype': 'float64', 'ndim': 2, 'depends_on': ['a', 'b']},
               {'dtype': 'float64', 'ndim': 2, 'depends_on': ['b', 'a']},
               {'dtype': 'float64', 'ndim': 2, 'depends_on': ['a', None]},
               {'dtype': 'float64', 'ndim': 2, 'depends_on': [None, 'a']},
               {'dtype': 'float32', 'ndim': 1}, {'dtype': 'f8', 'ndim': 1}):
        out.append({'t': 'Array', 'kw': kw})
    for unit in ('V ', ' V', 'v', ' ', 'VV', 'µV', 'μV'):
        out += [{'t': 'Array', 'kw': dict(A, unit=unit)}, {'t': 'Scalar', 'kw': {'dtype': 'int32', 'unit': unit}}]
    for kw in ({'dtype': 'int32', 'unit': 'V'}, {'dtype': 'int32', 'min_value': 0}, {'dtype': 'int32', 'max_value': 0},
               {'dtype': 'int32', 'min_value': 0, 'max_value': 5}, {'dtype': 'int64'}):
        out.append({'t': 'Scalar', 'kw': kw})
    S_, B_ = {'t': 'String'}, {'t': 'Bool'}
    out += [comp({'A': S_}), comp({'a_': S_}), comp({'aa': S_}), comp({'a': S_}, ['A']), comp({'á': S_}), comp({'a\u0301': S_}),
            lst(S_), lst(B_), lst(S_, min_length=1), lst(S_, max_length=1), lst(lst(S_)), lst(comp({})), lst(comp({'a': S_}))]
    out += [comp({}), comp({'a': S_}), comp({'b': S_}), comp({'a': B_}), comp({'a': S_, 'b': B_}), comp({'b': B_, 'a': S_}),
            comp({'a': B_, 'b': S_}), comp({'a': S_, 'b': B_}, ['a']), comp({'a': S_, 'b': B_}, ['b']),
            comp({'a': S_, 'b': B_}, ['a', 'b']), comp({'a': S_, 'b': B_}, ['b', 'a']), comp({'a': comp({'a': S_})}),
            comp({'a': comp({'b': S_})}), comp({'a': lst(S_)}), comp({'a': lst(S_, max_length=2)}),
            comp({'a': comp({'a': S_}, ['a'])}), comp({'a': comp({'a': S_})}, ['a'])]
    return out


def schemas(deep):
    cat = catalogue()
    vias = itertools.cycle(['', 'json', ''])
    pairs = [(i, j) for i in range(len(cat)) for j in range(len(cat)) if deep or i <= j or (i + j) % 3 == 0]
    for c in chunks(pairs, 90):
        yield [], cat, [{'op': 'scheq', 's': i, 's2': j, 'via': next(vias)} for i, j in c]
    for c in chunks(range(len(cat)), 30):
        yield [], cat, [{'op': 'sch', 's': i, 'via': via} for i in c for via in ('', 'dict')]


def required(deep):
    """Required schemas and hashes, and PseudoStorages, for stored schemas."""
    cat = [s for n, s in enumerate(catalogue()) if n % (1 if deep else 2) == 0]
    for be in FILES:
        for c in chunks(range(len(cat)), 6):
            cases = []
            for i in c:
                path = 'f{}{}'.format(i, EXT[be])
                cases += [{'op': 'create', 'h': 'h', 's': i, 'path': path},
                          {'op': 'save', 'h': 'h', 'force': True}, {'op': 'drop', 'h': 'h'}]
                near = [i, (i + 1) % len(cat), (i + 2) % len(cat), (i - 1) % len(cat)]
                for n, j in enumerate(near):
                    other = {'force': True} if n % 2 else {}
                    cases += [dict({'op': 'load', 'h': 'h', 'path': path, 'rs': j}, **other), {'op': 'drop', 'h': 'h'},
                              dict({'op': 'load', 'h': 'h', 'path': path, 'rh': j}, **other), {'op': 'drop', 'h': 'h'}]
                for n, w in enumerate(S.NEARLY):
                    if deep or (i + n) % 3 == 0:
                        cases += [{'op': 'load', 'h': 'h', 'path': path, 'rh': i, 'rhw': w, 'force': bool(n % 2)},
                                  {'op': 'drop', 'h': 'h'},
                                  {'op': 'pnew', 'id': 'p', 's': near[1], 'tgt': {'k': 'path', 'path': path},
                                   'alts': [{'h': i, 'w': w}]}, {'op': 'pclose', 'id': 'p'}]
                for n, (m, alts) in enumerate([(i, None), (near[1], None), (near[1], [{'s': i}]), (near[1], [{'h': i}]),
                                               (near[1], [{'s': near[2]}, {'h': i}]),
                                               (near[1], [{'s': near[2]}, {'h': near[3]}]), (i, [{'h': near[1]}])]):
                    k = {} if alts is None else {'alts': alts}
                    cases += [dict({'op': 'pnew', 'id': 'p', 's': m, 'defer': bool(n % 2),
                                    'tgt': {'k': 'path', 'path': path}}, **k),
                              {'op': 'penter', 'id': 'p'}, {'op': 'pclose', 'id': 'p'}]
            yield ['ps'], cat, cases


# -- arrays -----------------------------------------------------------------------------
def dim_keys(n, back=False):
    ks = [{'k': 'i', 'i': i} for i in range(-n - 1, n + 1)]
    ks += [{'k': 's', 'a': a, 'b': b, 'st': st} for a in range(n + 1) for b in range(a, n + 2) for st in (1, 2)]
    ks += [dict({'k': 's'}, **{x: v for x, v in zip(('a', 'b', 'st'), c) if v is not None})
           for c in itertools.product((None, -n - 1, -n, -1, 1), (None, -1, n + 1), (None, 2))]
    if back:
        ks += [dict({'k': 's', 'st': st}, **{x: v for x, v in zip('ab', c) if v is not None})
               for c in itertools.product((None, -1, n, 0), (None, 0, -n - 1, 1)) for st in (-1, -2)]
    return ks


def keys(deep):
    shapes = [(3,), (2, 3), (0,), (1, 2, 2)] if deep else [(3,), (2, 2), (0,), (2, 1, 2)]
    for be in BACKENDS:
        for sh in shapes:
            sc = {'t': 'Array', 'kw': {'dtype': 'int32', 'ndim': len(sh)}}
            ks = []
            for n in range(1, len(sh) + 1):
                ks += list(itertools.product(*[dim_keys(d, be != 'hdf5') if n == 1 or (deep and n == 2) else
                                               dim_keys(d, be != 'hdf5')[::5 if n == 2 else 12] for d in sh[:n]]))
            size = 1
            for d in sh:
                size *= d
            for c in chunks(ks, 60):
                path = INMEM if be == 'inmem' else 'f' + EXT[be]
                cases = [{'op': 'create', 'h': 'h', 's': 0, 'path': path},
                         {'op': 'set', 'h': 'h', 'p': [], 'v': arr('int32', sh, list(range(1, size + 1)))}]
                for n, k in enumerate(c):
                    cases.append({'op': 'idx', 'h': 'h', 'p': [], 'key': list(k)})
                    if all(x['k'] == 'i' for x in k) or n % 4 == 0:
                        cases.append({'op': 'idxset', 'h': 'h', 'p': [], 'key': list(k), 'v': num(50 + n)})
                yield ['arrops'], [sc], cases


def sizes(deep):
    """Resizing from every small shape to every other, then saving."""
    for be in BACKENDS:
        for n in (1, 2, 3) if deep else (1, 2):
            sc = {'t': 'Array', 'kw': {'dtype': 'float64', 'ndim': n}}
            top = 4 if n == 1 else 3
            pairs = list(itertools.product(itertools.product(range(top), repeat=n), repeat=2))
            if n == 3:
                pairs = pairs[::5]
            for c in chunks(pairs, 30):
                path = INMEM if be == 'inmem' else 'f' + EXT[be]
                cases = [{'op': 'create', 'h': 'h', 's': 0, 'path': path}]
                for i, (a, b) in enumerate(c):
                    k = 1
                    for d in a:
                        k *= d
                    cases.append({'op': 'set', 'h': 'h', 'p': [], 'v': arr('float64', a, list(range(1, k + 1)))})
                    if be != 'inmem' and i % 3 == 0:
                        cases += [{'op': 'save', 'h': 'h', 'force': True}, {'op': 'drop', 'h': 'h'},
                                  {'op': 'load', 'h': 'h', 'path': path, 'force': True}]
                    cases.append({'op': 'rsz', 'h': 'h', 'p': [], 'size': list(b)})
                    if be != 'inmem' and i % 3 == 1:
                        cases += [{'op': 'save', 'h': 'h', 'force': True},
                                  {'op': 'probe', 'path': path, 'why': ['arr']}]
                yield ['arrops'], [sc], cases
            # sizes an array cannot have
            cases = [{'op': 'create', 'h': 'h', 's': 0, 'path': INMEM if be == 'inmem' else 'f' + EXT[be]}]
            for a in [(0,) * n, (2,) * n, (3,) + (1,) * (n - 1)]:
                cases.append({'op': 'set', 'h': 'h', 'p': [], 'v': arr('float64', a, list(range(1, 1 + math.prod(a))))})
                for b in ((-1,) * n, (2,) * (n - 1) + (-2,), (2,) * (n + 1), (1,) * (n + 2), (2,) * (n - 1), ()):
                    cases.append({'op': 'rsz', 'h': 'h', 'p': [], 'size': list(b)})
                cases.append({'op': 'rsz', 'h': 'h', 'p': [], 'size': [4] * n})
            yield ['arrops'], [sc], cases


# -- paths and backends ---------------------------------------------------------------------
def selection(deep):
    from walks import SPELL
    sc = comp({'a': {'t': 'String'}})
    for c in chunks(SPELL + [INMEM, 'sub.npz/x.mat', 'sub.h5/y', 'new.dir/x.npz'][:1], 2):
        cases = [{'op': 'create', 'h': 'src', 's': 0, 'path': INMEM},
                 {'op': 'set', 'h': 'src', 'p': [1], 'v': text(2)}]
        for path in c:
            for n, be in enumerate(('', 'npz', 'hdf5', 'mat', 'inmem')):
                p = path if path == INMEM else '{}{}'.format(n, path)
                cases.append({'op': 'load', 'h': 'h', 'path': p, 'be': be})
                if n % 2:
                    cases.append({'op': 'create', 'h': 'h', 's': 0, 'path': p, 'be': be})
                else:
                    cases.append({'op': 'cfrom', 'h': 'h', 'src': 'src', 'path': p, 'be': be, 'as': ('', 'abs', 'dot')[n // 2],
                                  'via': 'save_as' if n == 2 else ''})

                def more(run, p=p, be=be):
                    if 'h' not in run.hs:
                        return
                    if run.hinfo['h'][0] != 'inmem':
                        run.do({'op': 'save', 'h': 'h', 'force': True})
                        run.do({'op': 'sig', 'path': p})
                    run.do({'op': 'drop', 'h': 'h'})
                    if p != INMEM:
                        for be2 in ('', 'npz', 'hdf5', 'mat'):
                            run.do({'op': 'load', 'h': 'h', 'path': p, 'be': be2, 'force': True})
                            run.do({'op': 'drop', 'h': 'h'}) if 'h' in run.hs else None
                        run.do({'op': 'create', 'h': 'g', 's': 0, 'path': p, 'be': be})
                        run.do({'op': 'pnew', 'id': 'q', 's': 0, 'tgt': {'k': 'path', 'path': p}, 'defer': True})
                        run.do({'op': 'popen', 'id': 'q'})
                        run.do({'op': 'pclose', 'id': 'q'})
                cases.append(more)
        yield ['select'], [sc], cases


# -- changes to loaded data ----------------------------------------------------------------
def edits(deep):
    """Change loaded arrays of every dtype without saving, then load again."""
    dtypes = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'int64', 'uint64', 'float32', 'float64']
    for be in FILES:
        for wrap in (False, True):
            for c in chunks([(d, n) for d in dtypes for n in ((1, 2, 3) if deep else (1, 2))], 10):
                scs, cases = [], []
                for s, (d, n) in enumerate(c):
                    path = 'f%d' % s + EXT[be]
                    leaf = {'t': 'Array', 'kw': {'dtype': d}}
                    one = arr(d, [n], [1] * n)
                    scs.append({'t': 'List', 'kw': {}, 'sub': leaf} if wrap else comp({'a': leaf, 'b': leaf}))
                    v = {'t': 'seq', 'x': [one, one]} if wrap else {'t': 'map', 'm': [['a', one], ['b', one]]}
                    cases += [{'op': 'create', 'h': 'h', 's': s, 'path': path, 'be': be},
                              {'op': 'rep', 'h': 'h', 'p': [], 'v': v}]
                    cases += [{'op': 'idxset', 'h': 'h', 'p': [1], 'key': [{'k': 'i', 'i': 0}], 'v': num(0, d)},
                              {'op': 'save', 'h': 'h'}, {'op': 'drop', 'h': 'h'}]
                    load = {'op': 'load', 'path': path}
                    change = {'op': 'idxset', 'p': [2], 'key': [{'k': 'i', 'i': 0}], 'v': num(0, d)}
                    cases += [dict(load, h='h'), dict(change, h='h'), {'op': 'idx', 'h': 'h', 'p': [2], 'key': [{'k': 'i', 'i': 0}]}]
                    cases += [dict(load, h='g'), {'op': 'drop', 'h': 'g'}] if be != 'hdf5' else []
                    cases += [{'op': 'drop', 'h': 'h'}, {'op': 'probe', 'path': path}, dict(load, h='h'),
                              {'op': 'save', 'h': 'h'}, {'op': 'drop', 'h': 'h'}]
                yield ['arrops'], scs, cases


# -- archived files -----------------------------------------------------------------------
def fixtures(deep):
    with open(os.path.join(FIXTURES, 'index.json')) as f:
        index = json.load(f)
    for n, x in enumerate(index):
        path = 'g' + EXT[x['be']]
        cases = [{'op': 'foreign', 'org': 'golden', 'path': path, 'be': x['be'], 's': 0, 't': x['t'],
                  'file': x['file']}] + [{'op': 'raw', 'path': path}] * (x['be'] != 'mat')
        for k in ({}, {'force': True}, {'rs': 0}, {'rh': 0}, {'be': x['be']}):
            cases += [dict({'op': 'load', 'h': 'h', 'path': path}, **k), {'op': 'chk', 'h': 'h'},
                      {'op': 'val', 'h': 'h', 'p': []}, {'op': 'dtree', 'h': 'h', 'p': [], 'inc': n % 2 == 0},
                      {'op': 'drop', 'h': 'h'}]
        cases += [{'op': 'load', 'h': 'h', 'path': path},
                  {'op': 'cfrom', 'h': 'c', 'src': 'h', 'path': 'c' + EXT[x['be']]},
                  {'op': 'save', 'h': 'c'}, {'op': 'probe', 'path': 'c' + EXT[x['be']]},
                  {'op': 'raw', 'path': 'c' + EXT[x['be']]},
                  {'op': 'save', 'h': 'h'}, {'op': 'probe', 'path': path}, {'op': 'raw', 'path': path},
                  {'op': 'pnew', 'id': 'p', 's': 0, 'defer': False, 'tgt': {'k': 'path', 'path': path}}]
        yield [], [x['s']], cases


# -- sizes beyond the ones that other sources use ----------------------------------------
def scale(deep):
    """Long texts, many items, many elements, many fields, deep trees."""
    k = 3 if deep else 1

    def varied(n):
        return [32 + i * i % 90 for i in range(n)]
    i32 = {'t': 'Scalar', 'kw': {'dtype': 'int32'}}
    big = [('string', {'t': 'String', 'kw': {}}, [{'t': 'str', 'c': varied(n)} for n in (255, 256, 4097, 66000 * k)]),
           ('bytes', {'t': 'Bytes', 'kw': {}}, [{'t': 'bytes', 'c': varied(n)} for n in (255, 256, 4097, 66000 * k)]),
           ('elements', {'t': 'Array', 'kw': {'dtype': 'int32'}},
            [arr('int32', [n], [i * 7 % n for i in range(n)]) for n in (255, 1001, 5000 * k)]),
           ('rows', {'t': 'Array', 'kw': {'dtype': 'float64', 'ndim': 3}},
            [arr('float64', q, [i % 17 for i in range(q[0] * q[1] * q[2])]) for q in ([11, 1, 11], [2, 300, 3])])]
    seq = lambda n, f=num: {'t': 'seq', 'x': [f(i) for i in range(n)]}
    many = [('items', lst(i32), [seq(n) for n in (9, 10, 11, 99, 100, 101, 130 * k)]),
            ('texts', lst({'t': 'String', 'kw': {}}), [seq(n, lambda i: {'t': 'str', 'c': varied(i % 7)}) for n in (10, 101, 112)]),
            ('lists', lst(lst(i32)), [seq(n, lambda i: seq(m + i % 3)) for n, m in ((11, 9), (3, 99), (13, 13))]),
            ('structs', lst(comp({'a': i32, 'l': lst(i32)}, ['a'])),
             [seq(n, lambda i: {'t': 'map', 'm': [['l', seq(i % 12)]] + [['a', num(i)]] * (i % 5 > 0)}) for n in (11, 35 * k)])]
    wide = comp({'field%d' % i: i32 for i in range(150 * k)}, ['field%d' % i for i in range(0, 150 * k, 7)])
    fill = {'t': 'map', 'm': [['field%d' % i, num(i)] for i in range(150 * k) if i % 7]}
    unit = comp({'u%d' % i: {'t': 'Scalar', 'kw': {'dtype': 'int32', 'unit': chr(97 + i) * 17000}} for i in range(4)})
    deepest, inner = i32, num(5)
    for i in range(14):
        if i % 4 == 2:
            deepest, inner = lst(deepest), {'t': 'seq', 'x': [inner, inner] if i == 2 else [inner]}
        else:
            deepest, inner = comp({'ab'[i % 2] * (1 + i % 3): deepest}), {'t': 'map', 'm': [['ab'[i % 2] * (1 + i % 3), inner]]}
    cases = [(n, wrap(sc), [(at, v) for v in vs]) for n, sc, vs in big
             for wrap, at in ((lambda x: x, []), (lambda x: comp({'v': x, 'w': i32}, ['w']), [1]))]
    cases += [(n, sc, [([], v) for v in vs]) for n, sc, vs in many]
    cases += [('wide', wide, [([], fill)]), ('deep', deepest, [([], inner)]),
              ('unit', unit, [([], {'t': 'map', 'm': [['u%d' % i, num(i)] for i in range(4)]})])]
    for name, sc, vals in cases:
        for be in BACKENDS:
            steps = []
            for i, (at, v) in enumerate(vals):
                path = INMEM if be == 'inmem' else 'f%d' % i + EXT[be]
                look = [{'op': 'chk', 'h': 'h'}, {'op': 'val', 'h': 'h', 'p': []},
                        {'op': 'dtree', 'h': 'h', 'p': [], 'inc': bool(i % 2)}, {'op': 'ptree', 'h': 'h', 'p': []}]
                items = [{'op': 'len', 'h': 'h', 'p': []}] * (sc['t'] == 'List')
                steps += [{'op': 'create', 'h': 'h', 's': 0, 'path': path, 'be': be},
                          {'op': 'rep' if sc['t'] in ('List', 'Compilation') and not at else 'set', 'h': 'h', 'p': at, 'v': v}]
                if be != 'inmem':
                    steps += [{'op': 'save', 'h': 'h'}, {'op': 'raw', 'path': path}, {'op': 'drop', 'h': 'h'},
                              {'op': 'load', 'h': 'h', 'path': path, 'rs': 0}]
                steps += look + items
                other = BACKENDS[(BACKENDS.index(be) + i) % 4]
                dst = INMEM if other == 'inmem' else 'g%d' % i + EXT[other]
                steps += [{'op': 'cfrom', 'h': 'c', 'src': 'h', 'path': dst, 'be': other}]
                if sc['t'] == 'List':
                    steps += [{'op': 'app', 'h': 'h', 'p': []}, {'op': 'len', 'h': 'h', 'p': []}]
                if other != 'inmem':
                    steps += [{'op': 'save', 'h': 'c'}, {'op': 'probe', 'path': dst}]
                steps += [{'op': 'drop', 'h': 'c'}, {'op': 'clr', 'h': 'h', 'p': []}]
                if be != 'inmem':
                    steps += [{'op': 'save', 'h': 'h', 'force': True}]
                steps += [{'op': 'drop', 'h': 'h'}]
            yield [name, be], [sc], steps


ENUMS = {'edits': edits, 'fixtures': fixtures, 'values': values, 'deps': deps, 'faults': faults, 'patterns': patterns, 'schemas': schemas,
         'required': required, 'keys': keys, 'sizes': sizes, 'selection': selection, 'scale': scale}
