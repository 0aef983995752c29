"""Generators of traces, one per property.  Each takes a seed and returns the
script it ran together with the recorded trace."""
import os
import random
import traceback

import numpy as np

import schemas as S
from driver import EXC, INMEM, Runner
from gen import BACKENDS, EXT, FILES, Gen, paths, tree_empty


class Walk:
    """A random walk on one or more storages with the steps of a profile."""

    def __init__(self, run, rng, weights, good=.85, fill=.8, forces=.5, whys=(), maxlen=None):
        self.run, self.r, self.g = run, rng, Gen(rng)
        self.w = weights
        self.good, self.fill, self.maxlen = good, fill, maxlen or rng.choice([3] * 8 + [5, 8, 12])
        self.forces = forces
        self.whys = list(whys)
        self.n = 0
        self.paths_used = 0
        self.objs, self.nobj = None, 0

    def do(self, **step):
        if 'h' in step and 'p' in step and self.r.random() < .3:
            step['held'] = True
        if step['op'] in ('create', 'cfrom', 'load') and 'as' not in step and self.r.random() < .25:
            step['as'] = self.r.choice(['abs', 'dot', 'link', 'link'])
        elif step['op'] == 'pnew' and step['tgt']['k'] == 'path' and 'as' not in step['tgt'] and self.r.random() < .25:
            step['tgt'] = dict(step['tgt'], **{'as': self.r.choice(['abs', 'dot'])})
        return self.run.do(step)

    def handle(self):
        self.n += 1
        return 'h%d' % self.n

    def new_path(self, be, ext=None):
        if be == 'inmem':
            return INMEM
        self.paths_used += 1
        return 'f%d%s' % (self.paths_used, ext or EXT[be])

    def open_handles(self, files=None):
        hs = [h for h in self.run.hs]
        if files is not None:
            hs = [h for h in hs if (self.run.hinfo[h][0] != 'inmem') == files]
        return hs

    def create(self, be, s=0, **kw):
        h = self.handle()
        self.do(op='create', h=h, path=self.new_path(be), s=s, **kw)
        return h if h in self.run.hs else None

    # choices ---------------------------------------------------------------
    def pick(self, h, want):
        """Random (path, schema, tree) of a node that fulfils want."""
        info = self.run.hinfo[h]
        c = [x for x in paths(self.run.tree(h), info[2]) if want(*x)]
        return self.r.choice(c) if c else None

    def fill_all(self, h, good=1.0):
        sc = self.run.hinfo[h][2]
        if S.is_leaf(sc):
            self.do(op='set', h=h, p=[], v=self.g.leaf_value(sc, self.r.random() < good,
                                                            be=self.run.hinfo[h][0]))
        else:
            self.do(op='rep', h=h, p=[], v=self.g.value(
                sc, good, be=self.run.hinfo[h][0], fill=self.fill, maxlen=self.maxlen))

    # steps -----------------------------------------------------------------
    def step_set(self, h):
        x = self.pick(h, lambda p, s, t: S.is_leaf(s))
        if x:
            p, s, _ = x
            good = self.r.random() < self.good
            sizes = self.sizes_for(h, p) if good else None
            v = self.g.leaf_value(s, good, sizes, be=self.run.hinfo[h][0])
            return self.do(op=self.r.choice(['set', 'set', 'rep']), h=h, p=p, **self.obj(s, v))

    def sizes_for(self, h, p):
        """Sizes that an array must have because of its independent variables
        or that would fit the arrays depending on it."""
        if not p:
            return None
        sc = self.run.hinfo[h][2]
        par = S.at(sc, p[:-1])
        if par['t'] != 'Compilation':
            return None
        names = S.fields(par)
        t = self.run.tree(h)
        for i in p[:-1]:
            t = t['x'][i - 1]
        me = names[p[-1] - 1]

        def size(n):
            if n not in names:
                return None
            v = t['x'][names.index(n)]
            if v['k'] != 'i' or not v['v'] or v['v'][0]['t'] != 'arr':
                return None
            k = 1
            for d in v['v'][0]['s']:
                k *= d
            return k if k < 20 else None
        s = par['subs'][me]
        if s['t'] != 'Array':
            return None
        dep = s['kw'].get('depends_on')
        dep = [dep] if isinstance(dep, str) else dep
        if dep:
            return [size(n) if n else None for n in dep]
        return None

    def step_rep(self, h):
        x = self.pick(h, lambda p, s, t: not S.is_leaf(s))
        if x:
            p, s, _ = x
            v = self.g.value(s, self.good, be=self.run.hinfo[h][0], fill=self.fill, maxlen=self.maxlen)
            return self.do(op='rep', h=h, p=p, **self.obj(s, v))

    def obj(self, s, v):
        """Value arguments of a step: sometimes the very object that another
        node has been given."""
        if self.objs is None or self.r.random() < .3:
            return {'v': v}
        if s['t'] == 'Array' and (s['kw'].get('max_shape') or s['kw'].get('min_shape')):
            return {'v': v}
        key = (s['t'], S.dtype_of(s).name, s['kw'].get('ndim')) \
            if s['t'] in ('Array', 'Scalar') else s['t'] if S.is_leaf(s) else S.text(s)
        old = self.objs.setdefault(key, [])
        if old and self.r.random() < .6:
            return self.r.choice(old)
        self.nobj += 1
        old.append({'v': v, 'obj': self.nobj})
        return old[-1]

    def step_clr(self, h):
        leafy = self.r.random() < .7
        x = self.pick(h, lambda p, s, t: S.is_leaf(s) or not leafy)
        if x:
            return self.do(op='clr', h=h, p=x[0])

    def step_app(self, h):
        x = self.pick(h, lambda p, s, t: s['t'] == 'List' and len(t['x']) < 14)
        if x:
            p, s, _ = x
            if self.r.random() < .4:
                return self.do(op='app', h=h, p=p)
            return self.do(op='app', h=h, p=p, v=self.g.value(
                s['sub'], self.good, be=self.run.hinfo[h][0], fill=self.fill, maxlen=self.maxlen))

    def step_val(self, h):
        top = self.r.random() < .6
        x = self.pick(h, lambda p, s, t: not p or not top)
        return self.do(op='val', h=h, p=x[0], via=self.r.choice(['', 'node']))

    def step_dtree(self, h):
        top = self.r.random() < .6
        x = self.pick(h, lambda p, s, t: not p or not top)
        return self.do(op='dtree', h=h, p=x[0], inc=self.r.random() < .5)

    def step_chk(self, h):
        return self.do(op='chk', h=h)

    def step_len(self, h):
        x = self.pick(h, lambda p, s, t: s['t'] == 'List')
        if x:
            n = len(x[2]['x'])
            return self.do(op='len', h=h, p=x[0], keys=[self.key([n], bad=.25, back=True)[0] for _ in range(3)])

    def step_ptree(self, h):
        top = self.r.random() < .6
        x = self.pick(h, lambda p, s, t: not p or not top)
        return self.do(op='ptree', h=h, p=x[0])

    def step_links(self, h):
        top = self.r.random() < .6
        x = self.pick(h, lambda p, s, t: not p or not top)
        return self.do(op='links', h=h, p=x[0])

    def probe(self, path, why=(), raw=.0):
        self.do(op='probe', path=path, why=list(self.whys) + list(why))
        if self.r.random() < raw:
            self.do(op='raw', path=path)

    def step_save(self, h):
        be, path, _ = self.run.hinfo[h]
        if be == 'inmem':
            return None
        ev = self.do(op='save', h=h, force=self.r.random() < self.forces)
        ok = ev['out']['o'] == 'ok'
        if path in self.run.files and path in ev['ls']:
            self.probe(path, () if ok else ('fail',))
        return ev

    def step_reload(self, h):
        """Save, close and load again under the same name."""
        be, path, _ = self.run.hinfo[h]
        if be == 'inmem' or h.startswith('ps.'):
            return None
        ev = self.do(op='save', h=h, force=self.r.random() < self.forces)
        if ev['out']['o'] != 'ok':
            return ev
        if self.do(op='drop', h=h) is None:
            return ev
        if self.r.random() < .4:
            self.probe(path)
        ev = self.do(op='load', h=h, path=path, force=self.r.random() < .7,
                     be=be if self.r.random() < .1 else '')
        if h not in self.run.hs:
            self.do(op='load', h=h, path=path, force=True)
        return ev

    def step_cfrom(self, h):
        if len(self.run.hs) > 3:
            return None
        be = self.r.choice(BACKENDS)
        h2 = self.handle()
        return self.do(op='cfrom', h=h2, src=h, path=self.new_path(be),
                       via=self.r.choice(['save_as', 'create_from']),
                       be=be if self.r.random() < .3 else '')

    def step_lfrom(self, h):
        x = self.pick(h, lambda p, s, t: True)
        src = self.r.choice(self.open_handles())
        want = S.text(x[1])
        strict = self.r.random() < .85
        y = self.pick(src, lambda p, s, t: (S.text(s) == want or not strict))
        if self.r.random() < .06:    # onto itself
            src, y = h, x
        if y is None:
            return None
        return self.do(op='lfrom', h=h, p=x[0], src=src, sp=y[0])

    def step_setattr(self, h):
        x = self.pick(h, lambda p, s, t: s['t'] == 'Compilation' and s['subs'])
        if x:
            n = self.r.choice(list(x[1]['subs']) * 2 + ['undeclared'])
            i = S.fields(x[1]).index(n) + 1 if n in x[1]['subs'] else 0
            if i and self.r.random() < .3:
                return self.do(op='setattr', h=h, p=x[0], n=n, vp=x[0] + [i])
            return self.do(op='setattr', h=h, p=x[0], n=n, v=self.r.choice(
                [{'t': 'py', 'x': 1}, {'t': 'str', 'c': [97]}, {'t': 'map', 'm': []},
                 {'t': 'seq', 'x': []}, {'t': 'other', 'w': 'none'}]))

    def step_setitem(self, h):
        x = self.pick(h, lambda p, s, t: s['t'] == 'List')
        if x:
            n = len(x[2]['x'])
            i = self.r.choice([0, -1, n, max(0, n - 1), {'a': 0, 'b': n}, {'a': 0, 'b': 0}, {'a': n, 'b': n + 1},
                               {'a': 0, 'b': n, 'st': 2}])
            return self.do(op='setitem', h=h, p=x[0], i=i,
                           v=self.r.choice([{'t': 'py', 'x': 1}, {'t': 'seq', 'x': []}, {'t': 'map', 'm': []},
                                            {'t': 'other', 'w': 'none'}]))

    def step_repunk(self, h):
        x = self.pick(h, lambda p, s, t: s['t'] == 'Compilation')
        if x:
            v = self.g.value(x[1], 1, be=self.run.hinfo[h][0])['m']
            v.insert(self.r.randint(0, len(v)), ['undeclared', self.r.choice(
                [{'t': 'py', 'x': 1}, {'t': 'py', 'x': 0}, {'t': 'other', 'w': 'none'}, {'t': 'map', 'm': []},
                 {'t': 'seq', 'x': []}, {'t': 'bool', 'c': [0]}, {'t': 'str', 'c': []}])])
            return self.do(op='repunk', h=h, p=x[0], m=v)

    # arrays ----------------------------------------------------------------
    def _array(self, h):
        return self.pick(h, lambda p, s, t: s['t'] == 'Array' and t['v'] and
                         t['v'][0]['t'] == 'arr' and S.dtype_of(s).kind != 'c')

    def backward(self, h):
        """h5py has no negative steps."""
        return self.run.hinfo[h][0] != 'hdf5'

    def key(self, shape, bad=.15, back=False):
        """Index of an array; back: also with negative steps."""
        r = self.r
        n = r.randint(1, len(shape)) if shape else 1
        key = []
        for i in range(n):
            d = shape[i] if i < len(shape) else 1
            if r.random() < .45:
                if d == 0 or r.random() < bad:
                    key.append({'k': 'i', 'i': r.choice([d, d + 1, -d - 1])})
                else:
                    key.append({'k': 'i', 'i': r.choice([0, d - 1, -1, -d, r.randrange(d)])})
            else:
                a = r.randint(0, d)
                b = r.randint(a, d + (1 if r.random() < .2 else 0))
                k = {'k': 's', 'a': a, 'b': b, 'st': r.choice([1, 1, 1, 2, 3])}
                if back and r.random() < .15:
                    k = {'k': 's', 'a': b, 'b': a, 'st': r.choice([-1, -1, -2])}
                elif r.random() < .3:
                    # the same from the end, or any
                    k['a'] = k['a'] - d - (r.random() < .1) if k['a'] <= d and r.random() < .7 else r.randint(-d - 1, d + 1)
                    if r.random() < .5:
                        k['b'] = r.randint(-d - 1, d + 1)
                for x in ('a', 'b', 'st'):
                    if r.random() < .15 and (x != 'st' or k['st'] > 0):
                        del k[x]
                key.append(k)
        return key

    def step_idx(self, h):
        x = self._array(h)
        if x:
            return self.do(op='idx', h=h, p=x[0], key=self.key(x[2]['v'][0]['s'], back=self.backward(h)))

    def step_idxset(self, h):
        x = self._array(h)
        if not x:
            return None
        p, s, t = x
        v = t['v'][0]
        key = self.key(v['s'], back=self.backward(h))
        shape = sel_shape(v['s'], key)
        kw = s['kw']
        d = v['d']
        if shape is not None and (0 in shape):
            return None
        good = self.r.random() < self.good

        def num():
            # extremes could overflow the dtype of arrays with a wrong dtype
            return self.g.number(d, kw.get('min_value'), kw.get('max_value'), good)
        if shape is None or not shape or self.r.random() < .3:
            lit = {'t': 'num', 'd': d, 'x': num()}
        else:
            n = 1
            for k in shape:
                n *= k
            lit = {'t': 'arr', 'd': d, 's': shape, 'x': [num() for _ in range(n)]}
        return self.do(op='idxset', h=h, p=p, key=key, v=lit)

    def step_rsz(self, h):
        x = self._array(h)
        if not x:
            return None
        p, s, t = x
        sh = t['v'][0]['s']
        mx = s['kw'].get('max_shape') or [None] * len(sh)
        if s['kw'].get('max_shape') and s['kw'].get('max_shape') == s['kw'].get('min_shape'):
            size = list(sh)
            if self.run.hinfo[h][0] == 'hdf5':
                return None
        else:
            size = [self.r.choice([d, d + 1, max(0, d - 1), self.r.randint(0, d + 2)]) for d in sh]
            size = [min(d, m) if m is not None else d for d, m in zip(size, list(mx) + [None] * 9)]
        n = 1
        for d in size:
            n *= d
        if n > 80:
            return None
        if self.r.random() < .06 and not isinstance(self.run, _Dry):    # another number of dimensions
            size = size[:-1] if len(size) > 1 and self.r.random() < .5 else size + [self.r.randint(1, 2)]
        return self.do(op='rsz', h=h, p=p, size=size)

    # running ---------------------------------------------------------------
    def walk(self, n, hs=None):
        ops = list(self.w)
        ws = [self.w[o] for o in ops]
        limit = n * 3
        while n > 0 and limit > 0:
            limit -= 1
            pool = [h for h in (hs or self.open_handles()) if h in self.run.hs]
            if not pool:
                return
            h = self.r.choice(pool)
            if self.run.tree(h)['k'] == 'x':
                return
            op = self.r.choices(ops, ws)[0]
            if getattr(self, 'step_' + op)(h) is not None:
                n -= 1

    def close_all(self):
        for h in self.open_handles():
            if not h.startswith('ps.'):
                self.do(op='drop', h=h)


def sel_shape(shape, key):
    """Shape of a selection, None if the key does not fit."""
    if len(key) > len(shape):
        return None
    out = []
    for i, d in enumerate(shape):
        k = key[i] if i < len(key) else {'k': 's'}
        if k['k'] == 'i':
            if not -d <= k['i'] < d:
                return None
        else:
            out.append(len(range(*slice(k.get('a'), k.get('b'), k.get('st')).indices(d))))
    return out


# ---------------------------------------------------------------------------
EDIT = {'set': 8, 'rep': 4, 'clr': 3, 'app': 5}
READ = {'val': 1, 'dtree': 1, 'chk': 1, 'len': 1}


def _schema(g, r, odd=False, **kw):
    """A schema with one of several emphases."""
    k = r.random()
    if k < .06:
        return g.chain(r.randint(4, 8), **kw)
    if k < .15:
        return g.schema(0, top='leaf', **kw)
    if k < .35:
        return g.schema(r.choice([1, 2, 3]), top='list', odd=odd, **kw)
    return g.schema(r.choice([1, 2, 2, 3]), top='comp', odd=odd, **kw)


def _be(i, pool=FILES):
    return pool[i % len(pool)]


def c01(run, r, i, deep):
    """Save and load, again and again."""
    g = Gen(r)
    be = _be(i)
    run.schemas = [_schema(g, r, odd=be != 'mat')]
    w = Walk(run, r, dict(EDIT, reload=6, save=4, chk=1), good=.9, forces=.6)
    if r.random() < .15:
        w.maxlen = 12
    h = w.create(be)
    if h is None:
        return
    if r.random() < .8:
        w.fill_all(h)
    w.step_reload(h)
    w.walk(r.randint(6, 14) if not deep else 25)
    if h in run.hs:
        w.step_reload(h)
    w.close_all()


def c02(run, r, i, deep):
    g = Gen(r)
    run.schemas = [_schema(g, r, constraints=.2), _schema(g, r, constraints=.2)]
    w = Walk(run, r, dict(EDIT, lfrom=1, reload=1), good=.9)
    same = r.random() < .15
    if same:
        # many arrays of one type and size
        a = {'t': 'Array', 'kw': {'dtype': g.dtype('if'), 'ndim': r.choice([1, 2])}}
        run.schemas[0] = {'t': 'Compilation', 'subs': {'a': a, 'b': a, 'l': {'t': 'List', 'sub': a}}}
        w.g.shape_pool = [r.randint(1, 3) for _ in range(a['kw']['ndim'])]
    share = {'share': True} if r.random() < .3 else {}
    w.create(_be(i, BACKENDS), **share)
    w.create(_be(i // 4, BACKENDS), s=0 if r.random() < .6 else 1, **share)
    if same or r.random() < .35:
        # the same objects for several nodes; changing elements of an array in
        # place then changes all of them (known finding)
        w.objs = {}
        w.w = dict(w.w, idxset=0, rsz=1)
    if r.random() < .5:
        w.fill_all('h1')
    w.walk(18 if not deep else 40)


def c03(run, r, i, deep):
    """Verdicts on single values."""
    g = Gen(r)
    run.schemas = []
    for _ in range(16 if not deep else 40):
        k = r.random()
        sc = (g.schema(1, top='list', constraints=1) if k < .1 else
              g.array(constraints=.8) if k < .45 else g.leaf(constraints=.8))
        run.schemas.append(sc)
        s = len(run.schemas) - 1
        via = r.choice(['', '', 'json', 'dict'])
        if sc['t'] == 'List':
            kw = sc.get('kw', {})
            for n in sorted({0, 1, *[x + d for x in kw.values() if x is not None
                                     for d in (-1, 0, 1) if x + d >= 0]}):
                run.do({'op': 'svalid', 's': s, 'n': n, 'via': via})
            continue
        cases = [g.leaf_value(sc, True) for _ in range(3)] + \
                [g.leaf_value(sc, False) for _ in range(4)] + \
                [g.wrong(sc), {'t': 'other', 'w': r.choice(['bytearray', 'view', 'frac', 'dec', 'range', 'delta', 'ell'])}]
        if sc['t'] == 'Array' and np.dtype(cases[0]['d']).itemsize > 1:
            v = dict(cases[0], d=np.dtype(cases[0]['d']).newbyteorder('>').str)
            cases.append(v)
        for v in cases:
            if v['t'] == 'py' and sc['t'] == 'Scalar' and r.random() < .7:
                v = {'t': 'num', 'd': S.dtype_of(sc).name, 'x': v['x']}
            if sc['t'] == 'Scalar' and v['t'] == 'num' and v['d'] != S.dtype_of(sc).name:
                if S.dtype_of(sc).kind == 'c' or abs_big(v['x']):
                    continue
            ind = []
            if sc['t'] == 'Array':
                if S.dtype_of(sc).kind == 'c' or v['t'] != 'arr':
                    pass
                if sc['kw'].get('min_value') is not None or sc['kw'].get('max_value') is not None:
                    if v['t'] == 'arr' and v['d'] in ('bool',):
                        continue
            run.do({'op': 'svalid', 's': s, 'v': v, 'ind': ind, 'via': via})
    # values held by data nodes
    for s, sc in enumerate(list(run.schemas)):
        if sc['t'] == 'List' or r.random() > .4:
            continue
        w = Walk(run, r, {})
        w.n = s * 10
        w.paths_used = s * 10
        be = r.choice(BACKENDS)
        h = w.create(be, s=s)
        if h is None:
            continue
        for _ in range(3):
            w.do(op='set', h=h, p=[], v=g.leaf_value(sc, r.random() < .4, be=be))
            w.do(op='val', h=h, p=[], via=r.choice(['', 'node']))
        if be == 'inmem' and sc['t'] != 'Scalar':
            v = g.wrong(sc)
            if v != {'t': 'other', 'w': 'none'}:    # None empties a node
                w.do(op='set', h=h, p=[], v=v)
                w.do(op='val', h=h, p=[])
        w.do(op='drop', h=h)


def abs_big(x):
    return isinstance(x, str) or isinstance(x, list) or abs(x) > 2**40


def dep_case(g, r, run):
    """An Array schema with depends_on and matching independent values."""
    n = r.choice([1, 2, 2, 3])
    dep = [r.choice(['a', 'b', None]) if n > 1 else 'a' for _ in range(n)]
    sc = {'t': 'Array', 'kw': {'dtype': 'float64', 'ndim': n, 'depends_on': dep}}
    run.schemas.append(sc)
    s = len(run.schemas) - 1
    for _ in range(4):
        shape = [r.randint(0, 3) for _ in range(n)]
        ind = []
        for d, x in zip(shape, dep):
            if x is None:
                ind.append(None)
            else:
                k = d if r.random() < .75 else d + r.choice([-1, 1]) if d else 1
                ind.append({'t': 'arr', 'd': 'float64', 's': [k], 'x': [0] * k})
        run.do({'op': 'svalid', 's': s, 'v': g.arr('float64', shape), 'ind': ind,
                'via': r.choice(['', 'json'])})


def c04(run, r, i, deep):
    """Validation of whole trees."""
    g = Gen(r)
    run.schemas = [g.schema(r.choice([1, 2, 3]), top=r.choice(['comp', 'comp', 'list']),
                            constraints=.9, dep=.5, soc=.1)]
    if r.random() < .08:
        run.schemas = [g.chain(r.randint(4, 8), constraints=.8)]
    w = Walk(run, r, dict(EDIT, val=14, reload=.6), good=.75, forces=1)
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    if r.random() < .25:
        # valid and invalid values that are equal
        sc = {'t': 'List', 'sub': {'t': 'Bool'}}
        run.schemas.append({'t': 'Compilation', 'subs': {'a': sc, 'b': {'t': 'Bool'}}} if r.random() < .5 else sc)
        b = w.create('inmem', s=len(run.schemas) - 1)
        same = [{'t': 'bool', 'c': [1]}, {'t': 'bool', 'c': [1]}, {'t': 'py', 'x': 1}, {'t': 'py', 'x': 1.0},
                {'t': 'npbool', 'c': [1]}, {'t': 'num', 'd': 'int32', 'x': 1}, {'t': 'bool', 'c': [0]}]
        for _ in range(3):
            v = {'t': 'seq', 'x': [r.choice(same) for _ in range(r.randint(1, 4))]}
            if run.schemas[-1] is not sc:
                v = {'t': 'map', 'm': [['a', v], ['b', r.choice(same)]]}
            w.do(op='rep', h=b, p=[], v=v)
            w.do(op='val', h=b, p=[])
    w.fill_all(h, 1.0)
    w.do(op='val', h=h, p=[])
    for _ in range(9 if not deep else 24):
        # from a mostly valid tree, break or change single nodes
        w.good = r.choice([1, .5, 0])
        w.walk(1)
        if h in run.hs:
            w.do(op='val', h=h, p=[])
    if r.random() < .6:
        dep_case(g, r, run)


def c05(run, r, i, deep):
    g = Gen(r)
    be = _be(i)
    run.schemas = [_schema(g, r, constraints=.9, dep=.4, soc=.1)]
    w = Walk(run, r, dict(EDIT, save=7, reload=3, val=1), good=.8, forces=.35)
    h = w.create(be)
    if h is None:
        return
    w.fill_all(h, 1.0)
    for _ in range(4 if not deep else 10):
        w.good = r.choice([1, 0, .5])
        w.walk(3)
        if h in run.hs:
            w.step_save(h)
    if h not in run.hs:
        return
    w.do(op='save', h=h, force=True)
    path = run.hinfo[h][1]
    w.do(op='drop', h=h)
    for kw in ({}, {'rs': 0}, {'rh': 0}, {'rs': 0, 'rh': 0}, {'be': be, 'as': 'abs'}, {'force': True}):
        w.do(op='load', h='x1', path=path, **kw)
        if 'x1' in run.hs:
            w.do(op='drop', h='x1')
    if 'x1' not in run.hs:
        w.do(op='pnew', id='p', tgt={'k': 'path', 'path': path}, s=0, defer=r.random() < .5)
        w.do(op='popen', id='p')
        w.do(op='pclose', id='p')


def c06(run, r, i, deep):
    g = Gen(r)
    run.schemas = []
    wide = r.random() < .08
    for _ in range(2 if wide else 10 if not deep else 25):
        sc = g.schema(r.choice([0, 1, 2, 2, 3]), odd=True, constraints=.7,
                      **({'top': 'leaf'} if r.random() < .3 else {}))
        if wide:
            # texts of some thousand characters
            sc = {'t': 'Compilation', 'subs': {n: g.leaf(constraints=.9) for n in g.names(r.randint(20, 45), True)},
                  'opt': []}
            sc = {'t': 'List', 'sub': sc} if r.random() < .3 else sc
        run.schemas.append(sc)
        s = len(run.schemas) - 1
        run.do({'op': 'sch', 's': s, 'via': r.choice(['', 'dict'])})
        for _ in range(3):
            m = mutate(sc, r, g, True)
            run.schemas.append(m)
            t = len(run.schemas) - 1
            a, b = (s, t) if r.random() < .5 else (t, s)
            run.do({'op': 'scheq', 's': a, 's2': b, 'via': r.choice(['', 'json'])})
        run.do({'op': 'scheq', 's': s, 's2': s, 'via': r.choice(['', 'json'])})
    for _ in range(3):
        n, m = r.randint(1, 3), r.randint(1, 3)
        kw = {'dtype': 'int32', 'max_shape': [2] * n}
        if r.random() < .7:
            kw['min_shape'] = [1] * m
        if r.random() < .5:
            kw['depends_on'] = ['a'] * r.randint(1, 3)
        if r.random() < .3:
            del kw['max_shape']
            kw['ndim'] = n
        run.do({'op': 'sctor', 'sc': {'t': 'Array', 'kw': kw}})


def near_text(text, r):
    """A different text that is easily taken for the same."""
    return r.choice([text + ' ', ' ' + text, text.swapcase(), text + '\n', text.replace('µ', 'μ'), text + '\u0301',
                     text.lower(), text + ' ' + text, text[:-1]])


def mutate(sc, r, g, floats=False):
    """The schema with one change somewhere (or only in the order of fields)."""
    import copy
    sc = copy.deepcopy(sc)
    nodes = list(S.walk(sc))
    n = r.choice(nodes)
    t = n['t']
    kw = n.setdefault('kw', {}) if t != 'Compilation' else {}
    if t == 'Compilation':
        k = r.random()
        if k < .35 and len(n['subs']) > 1:
            items = list(n['subs'].items())
            r.shuffle(items)
            n['subs'] = dict(items)
        elif k < .6 and n['subs']:
            old = r.choice(list(n['subs']))
            new = r.choice(['q' + old, 'q' + old, old + '_', old.swapcase()])
            if new not in n['subs']:
                n['subs'] = {(new if x == old else x): s for x, s in n['subs'].items()}
        elif k < .65:
            n['opt'] = list(n.get('opt', [])) + [r.choice(['no_field', 'zz'])]
        elif k < .8 and n['subs']:
            x = r.choice(list(n['subs']))
            opt = list(n.get('opt', []))
            n['opt'] = [o for o in opt if o != x] if x in opt else opt + [x]
        elif n['subs']:
            n['subs'] = dict(list(n['subs'].items())[1:])
    elif t in ('String', 'Bytes', 'List'):
        k = r.choice(['min_length', 'max_length', 'type'])
        if k == 'type' and t != 'List':
            n['t'] = 'Bytes' if t == 'String' else 'String'
        else:
            k = 'min_length' if k == 'type' else k
            kw[k] = r.choice([None, 0, 1, 2, 7])
    elif t in ('Date', 'DateTime', 'Time'):
        if r.random() < .5:
            kw['set_on_create'] = not kw.get('set_on_create', False)
        else:
            n['t'] = r.choice(['Date', 'DateTime', 'Time'])
    elif t in ('Array', 'Scalar'):
        k = r.choice(['unit', 'max_value', 'min_value', 'dtype', 'shape', 'dep', 'ndim'])
        if k in ('max_value', 'min_value') and S.dtype_of(n).kind in 'cb':
            k = 'unit'      # bounds of such numbers have no meaning
        if k == 'unit':
            kw['unit'] = r.choice(['', 'V', 'A', near_text(kw.get('unit') or 'V', r)])
        elif k in ('max_value', 'min_value'):
            kw[k] = r.choice([None, 0, 1, -1, 5] + [0.0, 1.0] * floats)
        elif k == 'dtype':
            kw['dtype'] = r.choice(['float64', 'f8', 'int32', {'np': 'int32'}, 'uint8'])
        elif t == 'Array':
            nd = S.ndim(n)
            if k == 'shape':
                kk = r.choice(['max_shape', 'min_shape'])
                kw[kk] = [r.choice([None, 1, 2]) for _ in range(nd)] if r.random() < .8 else None
                if not kw.get('max_shape') and not kw.get('min_shape'):
                    kw['ndim'] = nd
            elif k == 'dep' and nd:
                kw['depends_on'] = r.choice([None, ['a'] * nd, [None] * nd, ['b'] * nd])
            elif not kw.get('max_shape') and not kw.get('min_shape') and not kw.get('depends_on'):
                kw['ndim'] = r.choice([1, 2, 3])
    return sc


def c07(run, r, i, deep):
    """Required schemas when loading, and in PseudoStorages."""
    g = Gen(r)
    be = _be(i)
    main = _schema(g, r, constraints=.5, dep=.1)
    run.schemas = [main] + [mutate(main, r, g) for _ in range(3)] + [_schema(g, r)]
    w = Walk(run, r, dict(EDIT), good=.8, forces=1)
    h = w.create(be, s=r.choice([0, 0, 1]))
    if h is None:
        return
    w.fill_all(h, .9)
    w.do(op='save', h=h, force=True)
    path = run.hinfo[h][1]
    w.do(op='drop', h=h)
    for n in range(7 if not deep else 16):
        k = dict(op='load', h='l%d' % n, path=path, force=r.random() < .5)
        c = r.random()
        s = r.randrange(len(run.schemas))
        if c < .45:
            k['rs'] = s
        elif c < .9:
            k['rh'] = s
        else:
            k['rs'], k['rh'] = s, r.randrange(len(run.schemas))
        if 'rh' in k and r.random() < .25:
            k['rh'], k['rhw'] = r.choice([0, s]), r.choice(S.NEARLY)
        w.do(**k)
        if k['h'] in run.hs:
            w.do(op='chk', h=k['h'])
            w.do(op='drop', h=k['h'])
    for n in range(4 if not deep else 9):
        main_s = r.randrange(len(run.schemas))
        alts = [{r.choice('sh'): r.randrange(len(run.schemas))} for _ in range(r.choice([0, 1, 2]))]
        for a in alts:
            if 'h' in a and r.random() < .25:
                a['w'] = r.choice(S.NEARLY)
        pid = 'p%d' % n
        tgt = {'k': 'path', 'path': path}
        if r.random() < .35:
            hh = w.create(r.choice(['inmem', 'npz']), s=r.randrange(len(run.schemas)))
            if hh:
                x = w.pick(hh, lambda p, s, t: not p or r.random() < .3)
                tgt = {'k': 'node', 'h': hh, 'p': x[0]}
        elif r.random() < .25:
            tgt = {'k': 'path', 'path': w.new_path(be)}
        k = dict(op='pnew', id=pid, tgt=tgt, s=main_s, defer=r.random() < .4)
        if alts or r.random() < .5:
            k['alts'] = alts
        w.do(**k)
        if pid in run.ps:
            if k['defer']:
                w.do(op=r.choice(['popen', 'penter']), id=pid)
            w.do(op='pclose', id=pid)
            if tgt['k'] == 'path' and r.random() < .4:
                # the same object again, for a file that has come or gone
                if r.random() < .7:
                    w.do(op='rm', path=tgt['path'])
                    if r.random() < .3:
                        hh = w.handle()
                        w.do(op='create', h=hh, path=tgt['path'], s=r.randrange(len(run.schemas)))
                        if hh in run.hs:
                            w.do(op='save', h=hh, force=True)
                            w.do(op='drop', h=hh)
                w.do(op=r.choice(['popen', 'penter']), id=pid)
                if 'ps.' + pid in run.hs and r.random() < .6:
                    w.fill_all('ps.' + pid)
                w.do(op='pclose', id=pid)


def c08(run, r, i, deep):
    g = Gen(r)
    run.schemas = [_schema(g, r, constraints=.1)]
    w = Walk(run, r, {'set': 6, 'rep': 3, 'clr': 6, 'app': 6, 'chk': 3, 'reload': 2}, good=1, forces=1,
             fill=r.choice([.3, .8, 1]))
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    w.do(op='chk', h=h)
    w.walk(20 if not deep else 45)
    w.do(op='chk', h=h)


def c09(run, r, i, deep):
    g = Gen(r)
    k = r.random()
    sub = (g.leaf(constraints=.1) if k < .45 else
           {'t': 'List', 'sub': g.leaf(constraints=.1)} if k < .6 else
           g.schema(2, top='comp', constraints=.1))
    lst = {'t': 'List', 'sub': sub}
    run.schemas = [lst if r.random() < .4 else
                   {'t': 'Compilation', 'subs': {'l': lst, 'a': g.leaf(), 'l2': {'t': 'List', 'sub': g.leaf()}}}]
    w = Walk(run, r, {'app': 9, 'len': 2, 'set': 3, 'rep': 1.6, 'clr': 1.2, 'reload': 2.5, 'lfrom': .3}, good=1,
             forces=1, maxlen=r.choice([3, 3, 12, 13]))
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    if r.random() < .5:
        w.fill_all(h)
    w.walk(20 if not deep else 45)
    w.step_reload(h)
    w.step_len(h)


def c10(run, r, i, deep):
    g = Gen(r)
    main = _schema(g, r, constraints=.3)
    run.schemas = [main, mutate(main, r, g)]
    w = Walk(run, r, dict(EDIT, lfrom=8, cfrom=2, idxset=1.5, reload=.7), good=.95, forces=1,
             fill=r.choice([.5, .9]))
    h = w.create(_be(i, BACKENDS))
    h2 = w.create(_be(i // 4, BACKENDS), s=0 if r.random() < .75 else 1)
    if h is None or h2 is None:
        return
    w.fill_all(h)
    if r.random() < .5:
        w.fill_all(h2)
    w.do(op='lfrom', h=h2, p=[], src=h, sp=[])
    w.walk(3)
    w.step_cfrom(h)
    w.walk(12 if not deep else 30)


def c11(run, r, i, deep):
    """The same steps on storages of all backends."""
    g = Gen(r)
    run.schemas = [_schema(g, r, soc=0, constraints=.5, dep=.3)]
    w = Walk(run, r, {})
    hs = [w.create(be) for be in BACKENDS]
    if None in hs:
        return
    lead = Walk(_Dry(run), r, dict(EDIT, val=2, dtree=1.5, chk=.5, len=.7, idx=1, idxset=1.2, rsz=1.2,
                                   lfrom=0), good=.85)
    for _ in range(9 if not deep else 25):
        # limits of arrays hold everywhere, as HDF5 rejects larger arrays
        if hs[2] not in run.hs:
            return
        lead.run.step = None
        ops = list(lead.w)
        for _ in range(5):
            op = r.choices(ops, [lead.w[o] for o in ops])[0]
            getattr(lead, 'step_' + op)(hs[2])
            if lead.run.step:
                break
        if not lead.run.step:
            continue
        for h in hs:
            if h in run.hs:
                run.do(dict(lead.run.step, h=h))
        if any(h not in run.hs or run.tree(h)['k'] == 'x' for h in hs):
            return
        run.do({'op': 'sync', 'hs': hs})
        if r.random() < .3:
            for h in hs:
                if run.hinfo[h][0] != 'inmem' and r.random() < .6:
                    w.forces = 1
                    w.step_reload(h)
            if any(h not in run.hs for h in hs):
                return
            run.do({'op': 'sync', 'hs': hs, 'data': True})


class _Dry:
    """Stands in for a Runner: only remembers the step."""

    def __init__(self, run):
        self.real = run
        self.step = None

    def do(self, step):
        self.step = step
        return {}

    def __getattr__(self, name):
        return getattr(self.real, name)


def blocked(run, r, w):
    """Paths that cannot be written: in a missing directory, or a directory."""
    def mkdir(path):
        w.do(op='foreign', path=path, be='', org='garbage', s=0, data=[], dir=True)

    def save(h):
        if h in run.hs:
            w.do(op='save', h=h, force=r.random() < .7)
            w.probe(run.hinfo[h][1])

    be = r.choice(FILES)
    ext = r.choice([EXT[be], '', '.dat'])
    kw = {} if ext == EXT[be] else {'be': be}
    path = 'g' + ext
    if r.random() < .5:
        path = os.path.join('d', path)
        if r.random() < .4:
            mkdir('d')
        w.do(op='load', h='b1', path=path, **kw)
        src = r.choice(w.open_handles() or [''])
        if src and r.random() < .3:
            w.do(op='cfrom', h='b1', src=src, path=path, via=r.choice(['save_as', '']), **kw)
        else:
            w.do(op='create', h='b1', path=path, s=r.choice([0, 1]), **kw)
        save('b1')
        mkdir('d')
        if 'b1' not in run.hs:
            w.do(op='create', h='b1', path=path, s=r.choice([0, 1]), **kw)
        save('b1')
        if be != 'hdf5' and r.random() < .6:
            w.do(op='rm', path=path)
            w.do(op='rm', path='d')
            save('b1')
            if r.random() < .5:
                mkdir('d')
                save('b1')
    else:
        # a file whose name an extension would be added to
        full = path + EXT[be]
        if r.random() < .7:
            w.do(op='create', h='b2', path=full, s=r.choice([0, 1]))
            save('b2')
            w.do(op='drop', h='b2')
        w.do(op='create', h='b1', path=path, s=r.choice([0, 1]), **kw)
        if r.random() < .3:
            save('b1')
            w.do(op='rm', path=path)
        mkdir(path)
        w.do(op='load', h='b3', path=path, force=r.random() < .5, **kw)
        save('b1')
        w.do(op='rm', path=path)
        w.do(op='load', h='b3', path=path, force=r.random() < .5, **kw)
        save('b1')
        w.probe(full)
    if r.random() < .5:
        w.walk(2)


def c12(run, r, i, deep):
    """Only saving changes files."""
    g = Gen(r)
    be = _be(i)
    run.tags.append('noevents')
    run.schemas = [_schema(g, r), _schema(g, r)]
    w = Walk(run, r, dict(EDIT, val=2, dtree=2, chk=1, len=1, idx=1), good=.9, forces=1, whys=['fail'])
    h = w.create(be)
    if h is None:
        return
    w.fill_all(h)
    path = run.hinfo[h][1]
    # other files beside it, with names that might be used for temporary files
    for form in r.sample(['{}.tmp', '{}~', '{}.bak', '{}.lock', '.{}', '{}.npz', '{}.mat', '{}.npy', '{}.part', '{}.new',
                          '{}.old', '{}.swp', '.{}.tmp', 'tmp_{}', '_{}', '~{}', '{}_tmp', '{}.orig', '{}.temp', '{}.backup'],
                         r.choice([0, 3, 8, 20])):
        w.do(op='foreign', path=form.format(path), be='', org='garbage', s=0, data=[0] * r.choice([0, 1]))
    stem, ext = os.path.splitext(path)
    for form in r.sample(['{}{}', '{}.tmp{}', '{}_tmp{}', '{}.tmp', '{}.bak{}', '{}.bak', '{}.new{}'], r.choice([0, 3, 7])):
        if (stem + ext) != form.format(stem, ext):
            w.do(op='foreign', path=form.format(stem, ext), be='', org='garbage', s=0, data=[0])
    if r.random() < .3:
        w.walk(2)
    w.do(op='save', h=h, force=True)
    w.do(op='create', h='y1', path=path, s=r.choice([0, 1]), be=r.choice(['', '', be]))
    w.do(op='cfrom', h='y2', src=h, path=path, via=r.choice(['save_as', '']))
    w.do(op='drop', h=h)
    w.probe(path)
    w.do(op='create', h='y3', path=path, s=r.choice([0, 1]), be=r.choice(['', '', *FILES]))
    w.do(op='load', h='y4', path=w.new_path(r.choice(FILES)), force=True)
    if r.random() < .5:
        # files of others
        for n in range(2):
            other = w.new_path(r.choice(FILES))
            data = r.choice([[], [], [0], [80, 75, 3, 4], [r.randrange(256) for _ in range(20)]])
            kind = {'dir': True} if r.random() < .3 else {}
            w.do(op='foreign', path=other, be='', org='garbage', s=0, data=data, **kind)
            bb = r.choice(['', '', *FILES])
            if r.random() < .3 and h in run.hs:
                w.do(op='cfrom', h='x%d' % n, src=h, path=other, be=bb, via=r.choice(['save_as', '']))
            else:
                w.do(op='create', h='x%d' % n, path=other, s=r.choice([0, 1]), be=bb)
            w.do(op='load', h='x%d' % n, path=other, be=bb)
            if r.random() < .6:
                w.do(op='pnew', id='g%d' % n, tgt={'k': 'path', 'path': other}, s=r.choice([0, 1]), defer=r.random() < .5)
                if 'g%d' % n in run.ps:
                    w.do(op=r.choice(['popen', 'penter']), id='g%d' % n)
                    w.do(op='pclose', id='g%d' % n)
            if r.random() < .4:
                w.do(op='rm', path=other)
                w.do(op='load', h='x%d' % n, path=other, be=bb)
                w.do(op='create', h='x%d' % n, path=other, s=r.choice([0, 1]), be=bb)
                if 'x%d' % n in run.hs:
                    w.do(op='save', h='x%d' % n, force=True)
                    w.do(op='drop', h='x%d' % n)
    if r.random() < .4:
        blocked(run, r, w)
    reads = Walk(run, r, dict(READ, idx=2), good=.9)
    # a file somebody else has written
    if r.random() < .6:
        t = g.tree(run.schemas[0], be=be)
        if not (S.is_leaf(run.schemas[0]) and tree_empty(t)):
            path = w.new_path(be)
            w.do(op='foreign', path=path, be=be, org='raw', s=0, t=t,
                 style=','.join(r.sample(['js', 'js', 'js', 'z', 'i32', 'b0'], 2)))
    for n in range(3 if not deep else 6):
        hh = 'z%d' % n
        w.do(op='stored', path=path)
        w.do(op='load', h=hh, path=path, force=r.random() < .8, be=r.choice(['', be]))
        if hh not in run.hs:
            w.do(op='stored', path=path)
            if n:
                return
            continue
        if be != 'hdf5' and r.random() < .5:
            w.walk(3, [hh])
        else:
            reads.walk(4, [hh])
        if r.random() < .5:
            reads.walk(2, [hh])
        if r.random() < .4:
            w.do(op='cfrom', h=hh + 'c', src=hh, path=w.new_path(r.choice(FILES)))
        w.do(op='drop', h=hh)
        w.do(op='stored', path=path)
        w.probe(path)
    w.do(op='load', h='q', path=path, force=True)
    if 'q' in run.hs:
        w.walk(3, ['q'])
        w.do(op='save', h='q', force=True)
        w.probe(path)


def c13(run, r, i, deep):
    g = Gen(r)
    run.tags.append('ps')
    main = _schema(g, r, constraints=.3, dep=.1)
    run.schemas = [main, mutate(main, r, g)]
    w = Walk(run, r, dict(EDIT), good=.97, whys=['ps'])
    be = (FILES + ('inmem', 'node'))[i % 5]
    if be == 'node':
        hh = w.create(r.choice(BACKENDS))
        if hh is None:
            return
        w.fill_all(hh)
        x = w.pick(hh, lambda p, s, t: not p or r.random() < .4)
        sub = x[1]
        run.schemas.append(sub)
        s = len(run.schemas) - 1
        tgt = {'k': 'node', 'h': hh, 'p': x[0]}
        target = hh
    else:
        path = INMEM if be == 'inmem' else w.new_path(be)
        tgt = {'k': 'path', 'path': path}
        s = 0
        target = 'ps.p'
        if be != 'inmem' and r.random() < .4:
            hh = w.create(be)
            if hh is None:
                return
            path = tgt['path'] = run.hinfo[hh][1]
            w.fill_all(hh)
            w.do(op='save', h=hh, force=True)
            w.do(op='drop', h=hh)
    w.do(op='pnew', id='p', tgt=tgt, s=s, defer=r.random() < .5)
    if 'p' not in run.ps:
        return
    isfile = tgt['k'] == 'path' and tgt['path'] != INMEM
    for k in range(14 if not deep else 35):
        op = r.choices(['popen', 'penter', 'pclose', 'pexit', 'edit', 'rm', 'other'],
                       [3, 2, 2, 2, 6, .5, 1 if isfile and 'ps.p' not in run.hs else 0])[0]
        if op == 'other':
            # somebody else changes, reads or replaces the file in between
            o = 'o%d' % k
            how = r.random()
            if how < .35 and w.do(op='rm', path=tgt['path']):
                w.do(op='create', h=o, path=tgt['path'], s=r.choice([0, 0, 0, 1]))
                if o in run.hs:
                    w.fill_all(o)
            else:
                w.do(op='load', h=o, path=tgt['path'], force=True)
                if o in run.hs and how < .85:
                    w.walk(2, [o])
            if o in run.hs:
                if how < .85:
                    w.do(op='save', h=o, force=True)
                w.do(op='drop', h=o)
            op = 'popen'
        if op == 'edit':
            if target in run.hs:
                w.walk(r.randint(1, 3), [target])
            continue
        if op == 'rm':
            if tgt['k'] == 'path' and tgt['path'] != INMEM:
                w.do(op='rm', path=tgt['path'])
            continue
        kw = {'exc': r.choice([False, True, *EXC]) if r.random() < .6 else False} if op == 'pexit' else {}
        ev = w.do(op=op, id='p', **kw)
        if ev and op in ('pclose', 'pexit') and tgt['k'] == 'path' and tgt['path'] in run.files \
                and tgt['path'] in ev['ls'] and ev['out']['o'] == 'ok':
            w.probe(tgt['path'])


def c14(run, r, i, deep):
    g = Gen(r)
    dates = ['Date', 'DateTime', 'Time']
    sc = g.schema(r.choice([1, 2, 3]), top=r.choice(['comp', 'list', 'comp', 'leaf']),
                  leaf=dates * 2 + ['Bool'], soc=.65, dep=0, constraints=.1)
    run.schemas = [sc]
    w = Walk(run, r, {'app': 6, 'clr': 4, 'reload': 4, 'set': 2, 'rep': 2, 'lfrom': 2, 'cfrom': 1, 'save': 1,
                      'val': 1}, good=1, forces=.8, fill=.4)
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    if r.random() < .3:
        w.create(r.choice(BACKENDS))
    w.walk(15 if not deep else 40)


def c15(run, r, i, deep):
    g = Gen(r)
    be = _be(i, BACKENDS)
    run.schemas = [_schema(g, r, odd=be != 'mat', constraints=.2)]
    if be != 'mat' and r.random() < .2 and run.schemas[0]['t'] == 'Compilation':
        run.schemas[0]['subs'][r.choice(['_z', '__q', '_1'])] = g.leaf()
    w = Walk(run, r, dict(EDIT, setattr=5, setitem=4, repunk=3, reload=1, lfrom=.5, links=1), good=1, forces=1)
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    w.fill_all(h)
    w.walk(15 if not deep else 35)
    if h in run.hs:
        w.do(op='links', h=h, p=[])


def c16(run, r, i, deep):
    g = Gen(r)
    run.schemas = [_schema(g, r, constraints=.1, width=5)]
    w = Walk(run, r, dict(EDIT, dtree=9, reload=1), good=1, forces=1, fill=r.choice([.4, .8]))
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    if r.random() < .8:
        w.fill_all(h)
    for inc in (True, False):
        w.do(op='dtree', h=h, p=[], inc=inc)
    w.walk(12 if not deep else 30)
    # restore the export of the whole tree into an empty storage
    h2 = w.create(r.choice(BACKENDS))
    if h2 and h in run.hs:
        w.do(op='rep', h=h2, p=[], **{'from': {'h': h, 'p': []}}, via='dtree')
        w.do(op='dtree', h=h2, p=[], inc=False)


def c17(run, r, i, deep):
    g = Gen(r)
    be = _be(i)
    sc = _schema(g, r, odd=be != 'mat', constraints=.2)
    run.schemas = [sc]
    w = Walk(run, r, dict(EDIT, reload=1), good=.95, forces=1)
    if r.random() < .5:
        h = w.create(be)
        if h is None:
            return
        w.fill_all(h)
        for _ in range(4 if not deep else 10):
            w.walk(2, [h])
            if h not in run.hs:
                return
            ev = w.do(op='save', h=h, force=True)
            if ev['out']['o'] == 'ok':
                w.do(op='raw', path=run.hinfo[h][1])
        return
    for n in range(2 if not deep else 5):
        path = w.new_path(be)
        t = g.tree(sc, be=be)
        if S.is_leaf(sc) and tree_empty(t):
            continue
        style = r.choice(['', 'z', 'i32', 'b0', 'js', 'z,js'] + (['col', 'txt', 'col,txt'] if be == 'mat' else []))
        w.do(op='foreign', path=path, be=be, org='raw', s=0, t=t, style=style)
        h = 'f%d' % n
        w.do(op='stored', path=path)
        w.do(op='load', h=h, path=path, force=True)
        if h in run.hs:
            w.do(op='chk', h=h)
            if r.random() < .5:
                w.do(op='drop', h=h)
                w.do(op='stored', path=path)
                w.do(op='load', h=h, path=path, force=True)
                if h not in run.hs:
                    continue
            w.walk(3, [h])
            if h in run.hs:
                w.step_save(h)


def c18(run, r, i, deep):
    g = Gen(r)
    run.tags.append('arrops')
    subs = {n: g.array(constraints=.3, kinds='ifb') for n in g.names(2)}
    k = r.random()
    run.schemas = [{'t': 'Compilation', 'subs': subs} if k < .6 else
                   {'t': 'List', 'sub': next(iter(subs.values()))} if k < .75 else
                   next(iter(subs.values()))]
    w = Walk(run, r, {'idx': 6, 'idxset': 6, 'rsz': 5, 'set': 2, 'reload': 2.5, 'save': .7, 'app': .7}, good=.95,
             forces=1, whys=['arr'])
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    w.fill_all(h)
    w.walk(18 if not deep else 45)
    if h in run.hs:
        w.step_reload(h)


SPELL = ['x.npz', 'x.h5', 'x.hdf5', 'x.mat', 'x', 'x.NPZ', 'x.npz.bak', 'npz', '.npz', 'a.mat.npz', 'a.h5.mat',
         'x.h5x', 'x.mat ', 'xmat', 'a.b.hdf5', 'x.dat', 'inmem', ':inmem:', '::inmem::x', 'x.Mat', '.h5', 'xhdf5',
         'y.npz.h5', '::inmem::.npz', 'x.json', 'x.npz ', ' x.npz', 'x.h5 ', 'x.hdf5\n', 'x.npz.', 'x.npz~',
         'x.h', 'x.hdf', 'x.np', 'x .mat', '::inmem:: ', ' ::inmem::', '::INMEM::', ':: inmem::', 'x.npy', 'x.hdf4', 'x.h4',
         'x.inmem', 'x.dsch', 'x.npz.inmem']


def c19(run, r, i, deep):
    run.tags.append('select')
    g = Gen(r)
    run.schemas = [_schema(g, r, constraints=.1, odd=False)]
    w = Walk(run, r, dict(EDIT), good=1)
    names = r.sample(SPELL, 7) + [INMEM]
    src = w.create('inmem')
    if src is None:
        return
    w.fill_all(src)
    for n, path in enumerate(names):
        be = r.choice(['', '', *BACKENDS]) if path != INMEM else r.choice(['', 'inmem', *FILES])
        h = 's%d' % n
        if r.random() < .15 and path != INMEM:
            w.do(op='foreign', path=path, be='', org='garbage', s=0, data=[0] * r.choice([0, 0, 1]))
        if r.random() < .3:
            w.do(op='cfrom', h=h, src=src, path=path, be=be, via=r.choice(['save_as', '']))
        else:
            w.do(op='create', h=h, path=path, be=be, s=0)
            if h in run.hs:
                w.fill_all(h)
        if h not in run.hs:
            w.do(op='load', h=h, path=path, be=be)
            continue
        if run.hinfo[h][0] != 'inmem':
            w.do(op='save', h=h, force=True)
            w.do(op='sig', path=path)
            w.do(op='drop', h=h)
            for be2 in (['', be] if r.random() < .7 else [r.choice(FILES)]):
                w.do(op='load', h=h, path=path, be=be2, force=True)
                if h in run.hs:
                    w.do(op='drop', h=h)
        else:
            w.do(op='drop', h=h)
    if r.random() < .3:
        w.do(op='create', h='bad', path='z.npz', be='nosuch', s=0)


def c20(run, r, i, deep):
    """Printed trees."""
    g = Gen(r)
    run.schemas = [_schema(g, r, constraints=.1, width=5, odd=i % 4 != 3)]
    w = Walk(run, r, dict(EDIT, ptree=9, reload=1, idxset=.5, rsz=.5), good=.9, forces=1, fill=r.choice([.4, .8]))
    if r.random() < .1:
        w.maxlen = 12
    h = w.create(_be(i, BACKENDS))
    if h is None:
        return
    if r.random() < .8:
        w.fill_all(h)
    w.do(op='ptree', h=h, p=[])
    w.walk(14 if not deep else 35)


def c21(run, r, i, deep):
    """What errors tell."""
    g = Gen(r)
    be = _be(i, BACKENDS)
    deep_down = r.random() < .12
    if deep_down:
        main = g.chain(r.randint(3, 9), constraints=.95, leaf=['String', 'Bytes', 'Scalar', 'Array'])
    else:
        main = _schema(g, r, constraints=.95, dep=.4, soc=.1)
    run.schemas = [main, mutate(main, r, g)]
    w = Walk(run, r, dict(EDIT, val=10, save=4, lfrom=2, setattr=1, setitem=1, repunk=.5), good=.6, forces=.2)
    h = w.create(be)
    h2 = w.create('inmem', s=1)
    if h is None or h2 is None:
        return
    w.fill_all(h, 1.0)
    for _ in range(4 if deep_down else 0):
        w.good = r.choice([1, 0])
        x = w.pick(h, lambda p, s, t: S.is_leaf(s) and len(p) > 2)
        if x:
            w.do(op='set', h=h, p=x[0], v=g.leaf_value(x[1], r.random() < .2, be=be))
            w.do(op='val', h=h, p=[])
    for _ in range(5 if not deep else 14):
        w.good = r.choice([1, 0, 0, .5])
        w.walk(3, [h])
        if h not in run.hs:
            return
        w.do(op='val', h=h, p=[])
    w.do(op='lfrom', h=h, p=[], src=h2, sp=[])
    if be != 'inmem':
        w.do(op='save', h=h, force=True)
        path = run.hinfo[h][1]
        w.do(op='drop', h=h)
        for n, k in enumerate(({}, {'rs': 1}, {'rh': 1}, {'rs': r.randrange(2), 'rh': r.randrange(2)})):
            w.do(op='load', h='l', path=path, **k)
            if 'l' in run.hs:
                w.do(op='drop', h='l')
        w.do(op='pnew', id='p', tgt={'k': 'path', 'path': path}, s=r.randrange(2), defer=False)
    else:
        w.do(op='pnew', id='p', tgt={'k': 'node', 'h': h, 'p': []}, s=1, defer=False)
    bad = r.choice(['x', 'y.dat', 'x.npz ', '.h5.x', 'a b', 'ä.x'])
    w.do(op=r.choice(['create', 'load']), h='bad', path=bad, s=0, **{'as': r.choice(['', 'abs', 'dot'])})
    w.do(op='cfrom', h='bad', src=h2, path=bad, **{'as': r.choice(['', 'abs', 'dot'])})
    w.do(op='pnew', id='pb', tgt={'k': 'path', 'path': bad, 'as': r.choice(['', 'abs', 'dot'])}, s=0, defer=False)
    # single values
    for _ in range(4 if not deep else 12):
        sc = g.array(constraints=.9) if r.random() < .5 else g.leaf(constraints=.9)
        run.schemas.append(sc)
        s = len(run.schemas) - 1
        for v in [g.leaf_value(sc, False) for _ in range(3)] + [g.wrong(sc)]:
            if v['t'] == 'py' and sc['t'] == 'Scalar' and r.random() < .7:
                v = {'t': 'num', 'd': S.dtype_of(sc).name, 'x': v['x']}
            if sc['t'] == 'Scalar' and v['t'] == 'num' and v['d'] != S.dtype_of(sc).name:
                if S.dtype_of(sc).kind == 'c' or abs_big(v['x']):
                    continue
            if sc['t'] == 'Array' and v['t'] == 'arr' and v['d'] == 'bool' and (
                    sc['kw'].get('min_value') is not None or sc['kw'].get('max_value') is not None):
                continue
            run.do({'op': 'svalid', 's': s, 'v': v, 'via': r.choice(['', 'json'])})
    dep_case(g, r, run)


PROFILES = {n: f for n, f in globals().items() if n[0] == 'c' and n[1:].isdigit()}


def trace(prop, seed, i, deep=False):
    """Run one generated trace; returns (script, trace)."""
    name = prop.lower()
    r = random.Random('{}/{}/{}'.format(name, seed, i))
    with Runner('{}-{}-{}'.format(name, seed, i), []) as run:
        failed = None
        try:
            PROFILES[name](run, r, i, deep)
        except Exception:   # the generator failed: judge what has been recorded
            failed = traceback.format_exc()[-2000:]
        script = {'id': run.id, 'tags': run.tags, 'schemas': run.schemas, 'steps': run.steps}
        return script, run.finish(), failed
