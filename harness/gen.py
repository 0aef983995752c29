"""Random schemas, values and steps (all choices from one random.Random)."""
import math
import numpy as np

import schemas as S
from values import number_lit

BACKENDS = ('inmem', 'npz', 'hdf5', 'mat')
FILES = ('npz', 'hdf5', 'mat')
EXT = {'npz': '.npz', 'hdf5': '.h5', 'mat': '.mat'}

INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
FLOATS = ('float32', 'float64')
COMPLEX = ('complex64', 'complex128')
NAMES = ('a', 'b', 'c', 'd', 'aa', 'ab', 'B', 'Z9', 'x1', 'foo', 'foo_bar',
         'fooBar', 'item_0', 'item_1', 'item_10', 'data', 'dsch_data', 'schema',
         'name', 'length', 'file', 'unit', 'time', 'sampling_rate_of_channel_0',
         'field_name_of_exactly_thirty_one', 'u', 'v', 'w', 'arr', 'dtype',
         'dsch_schema', 'shape', 'key', 'k', 'n', 'subnodes', 'config')
ODD_NAMES = ('ä', '_x', '1st', 'with space', 'Ω1', '_my_field', '__p', '_y1', 'x_', 'Data')   # not for mat
WORDS = ('', 'a', 'b', 'ab', 'x y', ' lead', 'trail ', 'ümläut', '日本', 'A' * 20,
         'None', '0', 'false', "it's", '"q"', 'tab\tx', 'line\nbreak', 'é', '\\', '.')


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.shape_pool = None

    # -- schemas ------------------------------------------------------------
    def names(self, n, odd=False):
        pool = list(NAMES) + (list(ODD_NAMES) if odd else [])
        if n > 12:
            pool += ['channel_%d_%s' % (i, x) for i in range(n) for x in 'xy']
        return self.r.sample(pool, n)

    def limits(self, lo=0, hi=6, p=0.4):
        """(min, max) lengths, either may be None."""
        r = self.r
        mn = r.randint(lo, hi // 2) if r.random() < p else None
        mx = r.randint(max(mn or 0, 1) if r.random() < .9 else (mn or 0), hi) if r.random() < p else None
        if mn is not None and mx is not None and mn > mx:
            mn = mx
        return mn, mx

    def num_limits(self, dtype, p=0.4):
        r = self.r
        d = np.dtype(dtype)
        if d.kind in 'bc' or r.random() > p:
            return None, None
        if d.kind == 'f':
            pool = [-3, -1.5, -0.25, 0, 0.5, 1, 2.75, 8, 100.0]
        elif d.kind == 'u':
            pool = [0, 1, 2, 5, 10, 100, 0.5, 2.5, 300, -1]
        else:
            pool = [-100, -5, -1, 0, 1, 3, 7, 100, 0.5, 2.5, -1.5, 1.0]
        if d.kind in 'iu' and d.itemsize == 8:
            pool = pool + [2**53 + 1, 2**62 + 1]
        a, b = sorted((r.choice(pool), r.choice(pool)))
        k = r.random()
        return (a, b) if k < .4 else (a, None) if k < .7 else (None, b)

    def dtype(self, kinds='iufc'):
        r = self.r
        pool = []
        if 'i' in kinds:
            pool += INTS
        if 'f' in kinds:
            pool += FLOATS * 3
        if 'c' in kinds:
            pool += COMPLEX
        if 'b' in kinds:
            pool += ('bool',) * 2
        return r.choice(pool)

    def dtype_spec(self, name):
        """A way to write a dtype in a schema."""
        r = self.r
        k = r.random()
        if k < .8:
            return name
        if k < .87:
            return {'np': name}
        if k < .92 and name != 'bool':
            return {'ty': name}
        if name == 'float64':
            return r.choice(['f8', 'float', 'd'])
        if name == 'int32':
            return r.choice(['i4', 'i'])
        return np.dtype(name).char if name not in ('int64', 'uint64') else name

    def leaf(self, kinds=None, constraints=.5, soc=.3):
        r = self.r
        t = r.choice(kinds or ('Array', 'Array', 'Array', 'Bool', 'Bytes', 'Date',
                               'DateTime', 'Scalar', 'Scalar', 'String', 'String', 'Time'))
        kw = {}
        if t in ('String', 'Bytes'):
            if r.random() < constraints:
                mn, mx = self.limits()
                if mn is not None:
                    kw['min_length'] = mn
                if mx is not None:
                    kw['max_length'] = mx
        elif t == 'Scalar':
            d = self.dtype('iufc')
            kw['dtype'] = self.dtype_spec(d)
            self._num_kw(kw, d, constraints)
        elif t == 'Array':
            return self.array(constraints)
        elif t in ('Date', 'DateTime', 'Time'):
            if r.random() < soc:
                kw['set_on_create'] = True
            elif r.random() < .3:
                kw['set_on_create'] = False
        return {'t': t, 'kw': kw} if kw or r.random() < .5 else {'t': t}

    def _num_kw(self, kw, d, constraints):
        r = self.r
        lo, hi = self.num_limits(d, constraints)
        if lo is not None:
            kw['min_value'] = lo
        if hi is not None:
            kw['max_value'] = hi
        if r.random() < .3:
            kw['unit'] = r.choice(['V', 'm/s', '', 'µA', '"', ' V', 'V ', ' ', 'm / s', 'v', 'μA', '\\', '%', '\n'])

    def array(self, constraints=.5, ndim=None, kinds='iufcb'):
        r = self.r
        d = self.dtype(kinds)
        kw = {'dtype': self.dtype_spec(d)}
        n = ndim or r.choice([1, 1, 1, 2, 2, 3])
        self._num_kw(kw, d, constraints * .7)
        if r.random() < constraints:
            mx = [r.choice([None, 1, 2, 3, 4, 6]) for _ in range(n)]
            mn = [None if r.random() < .3 else r.randint(0, m if m is not None else 2)
                  for m in mx]
            if r.random() < .15 and None not in mx:
                mn = list(mx)
            k = r.random()
            if k < .5:
                kw['max_shape'], kw['min_shape'] = mx, mn
            elif k < .75:
                kw['max_shape'] = mx
            else:
                kw['min_shape'] = mn
            if r.random() < .3:
                kw['ndim'] = r.choice([1, n])
        else:
            kw['ndim'] = n
            if n == 1 and r.random() < .5:
                del kw['ndim']
        return {'t': 'Array', 'kw': kw}

    def schema(self, depth=2, top=None, leaf=None, odd=False, dep=.25, constraints=.5, soc=.3,
               width=4):
        r = self.r
        k = top or ('leaf' if depth == 0 else
                    r.choices(['comp', 'list', 'leaf'], [4, 3, 3])[0])
        opt = dict(leaf=leaf, odd=odd, dep=dep, constraints=constraints, soc=soc, width=width)
        if k == 'leaf':
            return self.leaf(leaf, constraints, soc)
        if k == 'list':
            kw = {}
            if r.random() < constraints * .6:
                mn, mx = self.limits(hi=5)
                if mn is not None:
                    kw['min_length'] = mn
                if mx is not None:
                    kw['max_length'] = mx
            return {'t': 'List', 'kw': kw, 'sub': self.schema(depth - 1, **opt)}
        n = r.choice([0] + [1, 2, 3, 3, 4] * 4) if depth < 2 else r.randint(1, width)
        names = self.names(n, odd)
        subs = {x: self.schema(depth - 1, **opt) for x in names}
        if r.random() < dep and n < width + 1:
            self._dependent(subs, odd)
        sc = {'t': 'Compilation', 'subs': subs}
        if r.random() < .4:
            sc['opt'] = r.sample(list(subs), r.randint(0, len(subs)))
            if r.random() < .12:        # names that no field has
                sc['opt'].insert(r.randint(0, len(sc['opt'])), r.choice(['no_field', 'zz', '']))
            if r.random() < .3:
                sc['opttuple'] = True
        return sc

    def chain(self, depth, odd=False, dep=0, constraints=.5, soc=.3, leaf=None, **other):
        """A leaf below many levels."""
        r = self.r
        sc = self.leaf(leaf, constraints, soc)
        for _ in range(depth):
            if r.random() < .55:
                names = self.names(r.choice([1, 1, 2]), odd)
                subs = {n: sc if i == 0 else self.leaf(leaf, constraints, soc) for i, n in enumerate(names)}
                sc = {'t': 'Compilation', 'subs': subs}
                if r.random() < .3:
                    sc['opt'] = r.sample(list(subs), r.randint(0, len(subs)))
            else:
                sc = {'t': 'List', 'kw': {}, 'sub': sc}
                if r.random() < .3 * constraints:
                    sc['kw']['max_length'] = r.randint(1, 3)
        return sc

    def _dependent(self, subs, odd):
        """Add an array that depends on one-dimensional arrays."""
        r = self.r
        nd = r.choice([1, 2, 2, 3])
        free = [x for x in self.names(len(NAMES), odd) if x not in subs]
        if len(free) < nd + 1:
            return
        deps = []
        for _ in range(nd):
            if r.random() < .35 and nd > 1:
                deps.append(None)
            elif deps and r.random() < .2 and any(deps):
                deps.append(r.choice([x for x in deps if x]))
            else:
                x = free.pop()
                subs[x] = self.array(constraints=.1, ndim=1, kinds='if')
                deps.append(x)
        if not any(deps):
            return
        kw = {'dtype': self.dtype('if'), 'ndim': nd,
              'depends_on': deps if nd > 1 or r.random() < .5 else deps[0]}
        if r.random() < .2:
            kw['max_shape'] = [r.choice([None, 4]) for _ in range(nd)]
        subs[free.pop()] = {'t': 'Array', 'kw': kw}

    # -- values -------------------------------------------------------------
    def length(self, kw, good, big=.02):
        r = self.r
        mn, mx = kw.get('min_length') or 0, kw.get('max_length')
        if good:
            hi = mx if mx is not None else mn + 4
            if mx is None and r.random() < big:
                return r.choice([64, 300])
            if mn > hi:     # contradictory limits
                return r.choice([mn, hi])
            return r.choice([mn, hi, r.randint(mn, hi)])
        bad = ([mn - 1] if mn > 0 else []) + ([mx + 1] if mx is not None else [])
        return r.choice(bad) if bad else self.length(kw, True)

    def number(self, dtype, lo=None, hi=None, good=True, special=True):
        """JSON number for a dtype within (or outside) the limits."""
        r = self.r
        d = np.dtype(dtype)
        if d.kind == 'b':
            return r.randint(0, 1)
        if d.kind == 'c':
            return [self.number('float32', special=False), self.number('float32', special=False)]
        if not good:
            out = ([_below(lo, d)] if lo is not None else []) + \
                  ([_above(hi, d)] if hi is not None else [])
            out = [x for x in out if x is not None]
            if not out:
                return self.number(dtype, lo, hi, True, special)
            return r.choice(out)
        if d.kind == 'f':
            pool = [0, 1, -1, 0.5, -2.25, 3, 100.125, 1e10, -7]
            if special:
                pool += ['nan', 'inf', '-inf', np.finfo(d).max.item(), np.finfo(d).tiny.item(),
                         float(np.dtype(d).type(0.1))]
        else:
            info = np.iinfo(d)
            pool = [0, 1, 2, 3, 5, 7, 100, int(info.max), int(info.min)]
            if d.kind == 'i':
                pool += [-1, -2, -3]
        pool = [x for x in pool if x == 'nan' or (
            (lo is None or float_or(x) >= lo) and (hi is None or float_or(x) <= hi))]
        for x in (lo, hi):
            if x is not None:
                pool += [(math.ceil(x) if x is lo else math.floor(x)) if d.kind in 'iu' else x] * 2
        if d.kind in 'iu':
            pool = [x for x in pool if isinstance(x, int) and info.min <= x <= info.max]
        return r.choice(pool) if pool else 0

    def shape(self, sc, sizes=None, good=True):
        r = self.r
        kw = sc['kw']
        n = S.ndim(sc)
        if self.shape_pool and len(self.shape_pool) == n and r.random() < .9:
            return list(self.shape_pool)
        mx, mn = kw.get('max_shape') or [None] * n, kw.get('min_shape') or [None] * n
        out = []
        for i in range(n):
            lo = mn[i] or 0
            hi = mx[i] if mx[i] is not None else max(lo, 3) + r.choice([0, 0, 1])
            out.append(r.choice([lo, hi, r.randint(min(lo, hi), max(lo, hi)), max(lo, min(1, hi))]))
        if sizes:
            out = [s if s is not None else o for s, o in zip(sizes, out)]
            out = [o if m is None else min(o, m) for o, m in zip(out, mx)]
        if not good:
            cands = [(i, mx[i] + 1) for i in range(n) if mx[i] is not None] + \
                    [(i, mn[i] - 1) for i in range(n) if mn[i]]
            if cands:
                i, v = r.choice(cands)
                out[i] = v
        while np.prod(out) > 60 and n > 1:
            i = r.randrange(n)
            out[i] = max(out[i] // 2, mn[i] or 0, 0)
            if all(o <= max(m or 0, 2) for o, m in zip(out, mn)):
                break
        return out

    def arr(self, dtype, shape, lo=None, hi=None, bad=0):
        r = self.r
        n = int(np.prod(shape)) if shape else 1
        x = [self.number(dtype, lo, hi) for _ in range(n)]
        if bad and n:
            x[r.randrange(n)] = self.number(dtype, lo, hi, good=False)
        out = {'t': 'arr', 'd': np.dtype(dtype).name, 's': list(shape), 'x': x}
        k = r.random()
        if k < .1:
            out['lay'] = 'F'
        elif k < .2:
            out['lay'] = 'view'
        return out

    def text(self, n):
        r = self.r
        if n == 0:
            return []
        w = r.choice([w for w in WORDS if w])
        s = (w * (n // len(w) + 1))[:n]
        return [ord(c) for c in s]

    def leaf_value(self, sc, good=True, sizes=None, be=None):
        """Value of the right type for a leaf; good: meets the constraints."""
        r = self.r
        t, kw = sc['t'], sc.get('kw', {})
        if t == 'String':
            if good and not kw.get('min_length') and not kw.get('max_length') and r.random() < .4:
                return {'t': 'str', 'c': [ord(c) for c in r.choice(WORDS)]}
            return {'t': 'str', 'c': self.text(self.length(kw, good))}
        if t == 'Bytes':
            n = self.length(kw, good)
            return {'t': 'bytes', 'c': [r.choice([0, 1, 10, 65, 127, 128, 255]) for _ in range(n)]}
        if t == 'Bool':
            return {'t': 'bool', 'c': [r.randint(0, 1)]}
        if t == 'Date':
            return {'t': 'date', 'c': r.choice([[1, 1, 1], [9999, 12, 31], [1970, 1, 1],
                                                [2020, 2, 29], [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)]])}
        if t == 'Time':
            return {'t': 'time', 'c': r.choice([[0, 0, 0, 0], [23, 59, 59, 999999], [0, 0, 0, 1],
                                                [r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                                                 r.choice([0, 1000 * r.randint(0, 999), r.randint(0, 999999)])]])}
        if t == 'DateTime':
            return {'t': 'datetime', 'c': r.choice([
                [1, 1, 1, 0, 0, 0, 0], [9999, 12, 31, 23, 59, 59, 999999], [1970, 1, 1, 0, 0, 0, 0],
                [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23),
                 r.randint(0, 59), r.randint(0, 59),
                 r.choice([0, 1000 * r.randint(0, 999), r.randint(0, 999999)])]])}
        d = S.dtype_of(sc)
        lo, hi = kw.get('min_value'), kw.get('max_value')
        if t == 'Scalar':
            x = self.number(d, lo, hi, good)
            if r.random() < .35 and not isinstance(x, list):
                return {'t': 'py', 'x': x}
            if r.random() < .05 and d.kind in 'iu' and isinstance(x, int) and abs(x) < 100:
                return {'t': 'num', 'd': r.choice(['int64', 'float64']), 'x': x}
            return {'t': 'num', 'd': d.name, 'x': x}
        # arrays
        if good:
            return self.arr(d, self.shape(sc, sizes), lo, hi)
        ways = ['shape', 'value', 'value']
        if be not in ('hdf5',):
            ways += ['dtype'] * (be != 'mat' or d != 'bool') + ['ndim'] * (be != 'mat')
        else:
            ways = ['value', 'minshape']
        w = r.choice(ways)
        if w == 'value':
            return self.arr(d, self.shape(sc, sizes), lo, hi, bad=1)
        if w == 'dtype':
            d2 = r.choice([x for x in ('float64', 'float32', 'int32', 'int64', 'uint8', 'bool')
                           if x != d.name and (be != 'mat' or x != 'bool')])
            return self.arr(d2, self.shape(sc, sizes))
        if w == 'ndim':
            s = self.shape(sc, sizes)
            return self.arr(d, s[:-1] if len(s) > 1 and r.random() < .5 else s + [r.choice([1, 2])], lo, hi)
        if w == 'minshape':
            mn = sc['kw'].get('min_shape')
            s = self.shape(sc, sizes)
            if mn and any(mn):
                i = r.choice([i for i in range(len(mn)) if mn[i]])
                s[i] = mn[i] - 1
            return self.arr(d, s, lo, hi)
        return self.arr(d, self.shape(sc, sizes, good=False), lo, hi)

    def value(self, sc, good=.9, be=None, fill=.8, maxlen=3, part=True):
        """Argument of replace for a node of any type."""
        r = self.r
        if sc['t'] == 'Compilation':
            names = list(sc['subs'])
            r.shuffle(names)
            if part:
                names = [n for n in names if r.random() < fill]
            sizes = self.dep_sizes(sc)
            return {'t': 'map', 'm': [
                [n, self.value_at(sc, n, sizes, good, be, fill, maxlen, part)] for n in names]}
        if sc['t'] == 'List':
            kw = sc.get('kw', {})
            n = self.length({k: min(v, 12) for k, v in kw.items() if v is not None},
                            r.random() < good, big=0)
            n = min(n, max(maxlen, kw.get('min_length') or 0, 1 if kw else 0))
            if maxlen > 4 and kw.get('max_length') is None and r.random() < .6:
                n = r.choice([maxlen, maxlen - 1, r.randint(0, maxlen)])
                maxlen = 3
            x = [self.value(sc['sub'], good, be, fill, maxlen, part) for _ in range(n)]
            if n > 1 and r.random() < .25:
                # equal items, except for some
                y = self.value(sc['sub'], 1, be, fill, maxlen, part)
                x = [y if r.random() < .75 else z for z in x]
            return {'t': 'seq', 'x': x}
        return self.leaf_value(sc, r.random() < good, be=be)

    def dep_sizes(self, sc):
        """Random common sizes for the independent arrays of a Compilation."""
        return {n: self.r.randint(0, 3) for n in sc['subs']}

    def value_at(self, sc, name, sizes, good, be, fill, maxlen, part):
        sub = sc['subs'][name]
        if sub['t'] != 'Array':
            return self.value(sub, good, be, fill, maxlen, part)
        dep = sub['kw'].get('depends_on')
        dep = [dep] if isinstance(dep, str) else dep
        if dep:
            want = [sizes.get(x) if x else None for x in dep]
            ok = self.r.random() < good
            if not ok and any(dep) and self.r.random() < .7:
                i = self.r.choice([i for i, x in enumerate(dep) if x])
                if want[i] is not None:
                    want[i] += 1
                ok = True
            return self.leaf_value(sub, ok, want, be)
        used = any(name in ([s['kw']['depends_on']] if isinstance(s['kw'].get('depends_on'), str)
                            else s['kw'].get('depends_on') or [])
                   for s in sc['subs'].values() if s['t'] == 'Array')
        if used:
            return self.leaf_value(sub, True, [sizes[name]], be)
        return self.leaf_value(sub, self.r.random() < good, be=be)

    def wrong(self, sc):
        """A value of another type."""
        r = self.r
        while True:
            v = r.choice([
                {'t': 'str', 'c': [97]}, {'t': 'bytes', 'c': [97]}, {'t': 'bool', 'c': [1]},
                {'t': 'npbool', 'c': [1]},
                {'t': 'py', 'x': 1}, {'t': 'py', 'x': 0}, {'t': 'py', 'x': 1.5},
                {'t': 'num', 'd': 'int32', 'x': 1},
                {'t': 'num', 'd': 'float64', 'x': 1.0}, {'t': 'date', 'c': [2000, 1, 1]},
                {'t': 'datetime', 'c': [2000, 1, 1, 0, 0, 0, 0]}, {'t': 'time', 'c': [1, 2, 3, 4]},
                {'t': 'arr', 'd': 'float64', 's': [2], 'x': [1, 2]},
                {'t': 'arr', 'd': 'int32', 's': [], 'x': [1]},
                {'t': 'other', 'w': 'none'}, {'t': 'other', 'w': 'list'}, {'t': 'other', 'w': 'dict'},
                {'t': 'other', 'w': 'obj'}, {'t': 'other', 'w': 'tuple'}, {'t': 'other', 'w': 'type'}])
            return v

    # -- data trees (for files made by others) --------------------------------
    def tree(self, sc, good=.95, fill=.85, empty_items=False, maxlen=3, be='hdf5'):
        r = self.r
        if sc['t'] == 'Compilation':
            sizes = self.dep_sizes(sc)
            x = []
            for n in S.fields(sc):
                sub = sc['subs'][n]
                if not S.is_leaf(sub):
                    x.append(self.tree(sub, good, fill, empty_items, maxlen, be))
                elif r.random() < fill:
                    x.append(self._file_leaf(sub, self.value_at(
                        sc, n, sizes, good, be, 1, maxlen, False)))
                else:
                    x.append({'k': 'i', 'v': []})
            return {'k': 'c', 'x': x}
        if sc['t'] == 'List':
            kw = sc.get('kw', {})
            n = r.choice([0, 1, 2, 3, r.choice([11, 12])]) if not kw else self.length(kw, True, 0)
            items = [self.tree(sc['sub'], good, 1 if not empty_items else fill, empty_items, maxlen, be)
                     for _ in range(n)]
            if not empty_items:
                items = [t for t in items if not tree_empty(t)]
            return {'k': 'l', 'x': items}
        if r.random() < fill:
            return self._file_leaf(sc, self.leaf_value(sc, r.random() < good, be=be))
        return {'k': 'i', 'v': []}

    @staticmethod
    def _file_leaf(sc, v):
        if sc['t'] == 'Scalar':
            v = {'t': 'num', 'd': S.dtype_of(sc).name, 'x': v['x']}
        v.pop('lay', None)
        return {'k': 'i', 'v': [v]}


def tree_empty(t):
    return not t['v'] if t['k'] == 'i' else all(tree_empty(x) for x in t['x'])


def float_or(x):
    return float(x) if isinstance(x, str) else x


def _below(lo, d):
    if d.kind in 'iu':
        x = lo - 1 if isinstance(lo, int) else math.ceil(lo) - 1
        return x if np.iinfo(d).min <= x <= np.iinfo(d).max else None
    return lo - 0.5


def _above(hi, d):
    if d.kind in 'iu':
        x = hi + 1 if isinstance(hi, int) else math.floor(hi) + 1
        return x if np.iinfo(d).min <= x <= np.iinfo(d).max else None
    return hi + 0.5


def paths(tree, sc, p=()):
    """(path, sub-schema, sub-tree) of all nodes of a projected tree."""
    yield list(p), sc, tree
    if tree['k'] in ('c', 'l'):
        for i, x in enumerate(tree['x']):
            yield from paths(x, S.at(sc, [i + 1]), tuple(p) + (i + 1,))
