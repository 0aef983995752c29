"""Writes the golden files in fixtures/ with an old revision of dsch.

  DSCH_REPO=/path/to/worktree python -B tools/make_fixtures.py TAG

The committed files were written by the original revision (50c6abf, with the
first fix for the mat backend, which NumPy needs to import it), in a worktree.
They are only ever read by the checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))

import driver  # noqa: E402
import schemas as S  # noqa: E402
from values import to_python  # noqa: E402
from dsch import frontend, schema as dsch_schema  # noqa: E402


def comp(subs, opt=None):
    s = {'t': 'Compilation', 'subs': subs}
    if opt is not None:
        s['opt'] = opt
    return s


def lst(sub, **kw):
    return {'t': 'List', 'sub': sub, 'kw': kw}


def leaf(t, **kw):
    return {'t': t, 'kw': kw}


def i(v=None):
    return {'k': 'i', 'v': [] if v is None else [v]}


def node(k, *x):
    return {'k': k, 'x': list(x)}


def text(s):
    return {'t': 'str', 'c': [ord(c) for c in s]}


def arr(d, s, x):
    return {'t': 'arr', 'd': d, 's': s, 'x': x}


ALL = comp({'arr1': leaf('Array', dtype='float64', unit='V', max_value=10, min_value=-2.5),
            'arr2': leaf('Array', dtype='int32', max_shape=[None, 3], min_shape=[1, 1]),
            'bool': leaf('Bool'), 'bytes': leaf('Bytes', max_length=8),
            'date': leaf('Date'), 'datetime': leaf('DateTime', set_on_create=True),
            'time': leaf('Time'), 'num': leaf('Scalar', dtype='float32', unit='s', max_value=5),
            'str': leaf('String', min_length=1), 'unset': leaf('String')}, ['unset', 'time'])
ALL_T = node('c', i(arr('float64', [3], [1, -2.5, 10])), i(arr('int32', [2, 3], [1, 2, 3, 4, 5, 6])),
             i({'t': 'bool', 'c': [1]}), i({'t': 'bytes', 'c': [65, 1, 32, 122]}),
             i({'t': 'date', 'c': [2016, 2, 29]}), i({'t': 'datetime', 'c': [2017, 8, 1, 12, 30, 15, 123456]}),
             i({'t': 'num', 'd': 'float32', 'x': 1.5}), i(text('Äußerst schön')),
             i({'t': 'time', 'c': [23, 59, 1, 20]}), i())
NEST = comp({'meta': comp({'name': leaf('String'), 'ok': leaf('Bool')}),
             'runs': lst(comp({'data': leaf('Array', dtype='float64', depends_on=['t']),
                               't': leaf('Array', dtype='float64'),
                               'tags': lst(leaf('String'))}), min_length=1, max_length=20),
             'm': lst(lst(leaf('Scalar', dtype='int64')))})
RUN = [node('c', i(arr('float64', [2 + n], [0.5 * k for k in range(2 + n)])),
            i(arr('float64', [2 + n], list(range(2 + n)))),
            node('l', *[i(text('tag%d' % k)) for k in range(1 + n)])) for n in range(12)]
NEST_T = node('c', node('l', *[node('l', *[i({'t': 'num', 'd': 'int64', 'x': 100 * a + b}) for b in range(1 + a)])
                               for a in range(2)]),
              node('c', i(text('run')), i({'t': 'bool', 'c': [0]})), node('l', *RUN))
LIST = lst(leaf('Scalar', dtype='uint8'))
LIST_T = node('l', *[i({'t': 'num', 'd': 'uint8', 'x': n}) for n in range(13)])
ARR = leaf('Array', dtype='complex128', ndim=2)
ARR_T = i(arr('complex128', [2, 2], [[1, 2], [3, -4], [0, 0.5], [-1, 0]]))
STR = leaf('String')
STR_T = i(text('just text'))
CASES = {'all': (ALL, ALL_T), 'nest': (NEST, NEST_T), 'list': (LIST, LIST_T), 'arr': (ARR, ARR_T),
         'str': (STR, STR_T)}
EXT = {'npz': '.npz', 'hdf5': '.h5', 'mat': '.mat'}


def fill(n, sc, t):
    if t['k'] == 'i':
        if t['v']:
            n.value = to_python(t['v'][0])
        return
    for k, x in enumerate(t['x']):
        if t['k'] == 'l':
            n.append()
            fill(n[k], sc['sub'], x)
        else:
            name = S.fields(sc)[k]
            fill(getattr(n, name), sc['subs'][name], x)


def main(tag):
    index = []
    for be in EXT:
        for name, (sc, t) in CASES.items():
            f = '{}-{}{}'.format(tag, name, EXT[be])
            path = os.path.join(ROOT, 'fixtures', f)
            if os.path.exists(path):
                os.remove(path)
            st = frontend.create(path, S.build(sc, dsch_schema))
            fill(st.data, sc, t)
            st.save()
            del st
            index.append({'file': f, 'be': be, 's': sc, 't': t})
    with open(os.path.join(ROOT, 'fixtures', 'index.json'), 'w') as f:
        json.dump(index, f, indent=1)


if __name__ == '__main__':
    main(sys.argv[1])
