"""Scenarios of the bounded model (spec/Dsch.tla): schemas and the operations
that may happen, as steps of scripts.  Node operations name the schema of the
storage they are meant for with 'on'."""
from driver import INMEM
from enums import arr, comp, lst, num, text
from gen import BACKENDS, EXT, FILES

N = 'int32'


def sca(**kw):
    return {'t': 'Scalar', 'kw': dict(dtype=N, **kw)}


def string(**kw):
    return {'t': 'String', 'kw': kw}


def date(soc=True, t='DateTime'):
    return {'t': t, 'kw': {'set_on_create': soc}}


def path_of(be, n=1):
    return INMEM if be == 'inmem' else 'f%d%s' % (n, EXT[be])


def seq(*x):
    return {'t': 'seq', 'x': list(x)}


def map_(**kw):
    return {'t': 'map', 'm': [[k, v] for k, v in kw.items()]}


def opening(be, h='h', s=0, n=1, load=True):
    p = path_of(be, n)
    out = [{'op': 'create', 'h': h, 'path': p, 's': s}, {'op': 'drop', 'h': h}]
    if be != 'inmem':
        out += [{'op': 'save', 'h': h}, {'op': 'save', 'h': h, 'force': True}]
        if load:
            out += [{'op': 'load', 'h': h, 'path': p}, {'op': 'load', 'h': h, 'path': p, 'force': True}]
    return out


def node(op, p, h='h', on=0, **kw):
    return dict(op=op, h=h, p=list(p), on=on, **kw)


def edit(be):
    sc = comp({'a': string(min_length=1, max_length=2), 'l': lst(sca(min_value=0), max_length=1), 't': date()},
              ['t'])
    ev = opening(be) + [
        node('set', [1], v=text(1)), node('set', [1], v=text(3)), node('clr', [1]),
        node('app', [2]), node('app', [2], v=num(1)), node('app', [2], v=num(-1)),
        node('rep', [2], v=seq(num(0))), node('clr', [2]), node('set', [2, 1], v=num(2)), node('clr', [2, 1]),
        node('clr', [3]), node('rep', [], v=map_(a=text(2))), node('rep', [], v=map_(a=text(1), l=seq(num(1), num(2)))),
        node('clr', [])]
    return [sc], ev, 2


def lists(be):
    sc = lst(comp({'v': sca(), 'w': lst(string())}, ['w']))
    ev = opening(be) + [
        node('app', []), node('app', [], v=map_(v=num(1))), node('app', [], v=map_(w=seq(text(1)))),
        node('set', [1, 1], v=num(2)), node('clr', [1]), node('set', [2, 1], v=num(3)),
        node('app', [1, 2]), node('app', [1, 2], v=text(2)), node('set', [1, 2, 1], v=text(0)), node('clr', [1, 2]),
        node('app', [2, 2], v=text(1)), node('rep', [], v=seq(map_(), map_(v=num(4), w=seq(text(1), text(2))))),
        node('rep', [1], v=map_(v=num(5))), node('clr', [])]
    return [sc], ev, 2


def deep(be):
    sc = lst(lst(lst(sca())))
    ev = opening(be) + [node('app', []), node('app', [1]), node('app', [1, 1]), node('app', [1, 1], v=num(1)),
                        node('app', [2]), node('app', [2, 1], v=num(2)), node('app', [1, 2], v=num(3)),
                        node('set', [1, 1, 1], v=num(4)), node('clr', [1]), node('clr', [1, 1]), node('clr', []),
                        node('rep', [], v=seq(seq(), seq(seq(), seq(num(5))))),
                        node('rep', [1], v=seq(seq(num(6)), seq()))]
    return [sc], ev, 2


def gate(be):
    sc = comp({'a': sca(min_value=0, max_value=5), 'l': lst(string(max_length=1), min_length=1)})
    p = path_of(be)
    ev = opening(be) + [
        node('set', [1], v=num(0)), node('set', [1], v=num(-1)), node('set', [1], v=num(6)), node('clr', [1]),
        node('app', [2], v=text(1)), node('app', [2], v=text(2)), node('set', [2, 1], v=text(0)),
        node('clr', [2])]
    if be != 'hdf5':
        ev += [{'op': 'load', 'h': 'g', 'path': p}, {'op': 'load', 'h': 'g', 'path': p, 'force': True},
               {'op': 'drop', 'h': 'g'}]
    return [sc], ev, 2


def soc(be):
    sc = comp({'d': date(True, 'Date'), 'l': lst(comp({'t': date(True, 'Time'), 'n': date(False)}))})
    ev = opening(be) + [
        node('app', [2]), node('clr', [1]), node('clr', [2, 1, 1]), node('clr', [2]), node('clr', []),
        node('app', [2], v=map_(n={'t': 'datetime', 'c': [2000, 1, 2, 3, 4, 5, 6]})),
        node('rep', [2], v=seq(map_())), node('rep', [2, 1], v=map_()),
        node('set', [1], v={'t': 'date', 'c': [1999, 12, 31]}),
        {'op': 'cfrom', 'h': 'g', 'src': 'h', 'path': INMEM}, {'op': 'drop', 'h': 'g'},
        node('lfrom', [], src='g', sp=[]), node('lfrom', [2], src='g', sp=[2])]
    return [sc], ev, 2


def copy(be, be2):
    sc = comp({'a': string(), 'b': lst(sca()), 'c': string()})
    p, p2 = path_of(be), path_of(be2, 2)
    ev = [{'op': 'create', 'h': 'h', 'path': p, 's': 0}, {'op': 'create', 'h': 'g', 'path': p2, 's': 0},
          {'op': 'cfrom', 'h': 'g', 'src': 'h', 'path': p2}, {'op': 'cfrom', 'h': 'g', 'src': 'h', 'path': p2, 'via': 'save_as'},
          {'op': 'drop', 'h': 'g'}]
    if be2 != 'inmem':
        ev += [{'op': 'save', 'h': 'g'}, {'op': 'load', 'h': 'g', 'path': p2}]
    ev += [node('set', [1], v=text(1)), node('clr', [1]), node('app', [2], v=num(1)), node('app', [2]), node('set', [2, 1], v=num(2))]
    ev += [node('set', [1], 'g', v=text(2)), node('app', [2], 'g', v=num(3)), node('clr', [], 'g'), node('clr', [2], 'g'),
           node('set', [2, 1], 'g', v=num(4))]
    ev += [node('lfrom', [], 'g', src='h', sp=[]), node('lfrom', [1], 'g', src='h', sp=[1]),
           node('lfrom', [2], 'g', src='h', sp=[2]), node('lfrom', [3], 'g', src='h', sp=[1]),
           node('lfrom', [2], 'h', src='g', sp=[2]), node('lfrom', [2, 1], 'g', src='h', sp=[2, 1]),
           node('lfrom', [1], 'g', src='h', sp=[2]), node('lfrom', [], 'h', src='h', sp=[]),
           node('lfrom', [2], 'g', src='g', sp=[2])]
    return [sc], ev, 2


def ps(be):
    sc, sc2, sc3 = comp({'a': string(min_length=1)}), comp({'a': string()}), comp({'b': string()})
    p = path_of(be)
    tgt = {'k': 'path', 'path': p}
    ev = []
    if be != 'inmem':
        for n, h in ((0, 'h0'), (1, 'h1'), (2, 'h2')):
            ev += [{'op': 'create', 'h': h, 'path': p, 's': n}, {'op': 'save', 'h': h, 'force': True}, {'op': 'drop', 'h': h},
                   node('set', [1], h, n, v=text(1))]
        ev += [node('set', [1], 'h0', 0, v=text(0)), {'op': 'rm', 'path': p}]
    ev += [{'op': 'pnew', 'id': 'q', 's': 0, 'tgt': tgt, 'defer': False, 'alts': [{'s': 1}]},
           {'op': 'pnew', 'id': 'q', 's': 0, 'tgt': tgt, 'defer': True, 'alts': [{'h': 1}]},
           {'op': 'popen', 'id': 'q'}, {'op': 'penter', 'id': 'q'}, {'op': 'pclose', 'id': 'q'}, {'op': 'pexit', 'id': 'q', 'exc': True},
           node('set', [1], 'ps.q', 0, v=text(2)), node('set', [1], 'ps.q', 0, v=text(0)), node('clr', [1], 'ps.q', 0),
           node('set', [1], 'ps.q', 1, v=text(0))]
    return [sc, sc2, sc3], ev, 2


def psnode(be):
    sub = comp({'a': string(min_length=1)})
    sub2 = comp({'a': string()})
    sc = comp({'x': sub, 'y': sub2})
    p = path_of(be)
    ev = opening(be, load=False) + [
        node('set', [1, 1], v=text(1)), node('set', [1, 1], v=text(0)), node('clr', [1]), node('set', [2, 1], v=text(2))]
    for i, tgt in (('q', [1]), ('r', [2])):
        ev += [{'op': 'pnew', 'id': i, 's': 1, 'tgt': {'k': 'node', 'h': 'h', 'p': tgt}, 'defer': d, 'alts': a}
               for d in (False, True) for a in ([], [{'s': 2}])]
        ev += [{'op': o, 'id': i} for o in ('popen', 'penter', 'pclose', 'pexit')]
    ev += [{'op': 'pnew', 'id': 'p', 's': 0, 'tgt': {'k': 'path', 'path': p}, 'defer': False}] * (be not in ('inmem', 'hdf5'))
    return [sc, sub, sub2], ev, 2


def paths(be):
    """Storages on two paths, with and without explicit backends."""
    sc = comp({'a': string()})
    other = FILES[(FILES.index(be) + 1) % 3]
    ev = []
    for h, p, b in (('h1', 'x' + EXT[be], ''), ('h2', 'x.dat', be), ('h3', 'x' + EXT[other], be)):
        k = {'be': b} if b else {}
        ev += [dict(op='create', h=h, path=p, s=0, **k), dict(op='load', h=h, path=p, **k), {'op': 'save', 'h': h},
               {'op': 'drop', 'h': h}, node('set', [1], h, v=text(int(h[1])))]
        if h != 'h1':
            ev += [dict(op='load', h=h, path=p), dict(op='cfrom', h=h, src='h1', path=p, **k)]
    ev += [{'op': 'cfrom', 'h': 'h4', 'src': 'h1', 'path': 'x.dat'}, {'op': 'create', 'h': 'h4', 's': 0, 'path': 'x.' },
           {'op': 'foreign', 'path': 'x.dat', 'be': be, 'org': 'garbage', 'data': [1, 2, 3]},
           {'op': 'rm', 'path': 'x.dat'}, {'op': 'rm', 'path': 'x' + EXT[be]}]
    return [sc], ev, 2


def twice(be):
    """Two storages on one file."""
    sc = comp({'a': string(), 'l': lst(sca(), max_length=1)})
    p = path_of(be)
    ev = [{'op': 'rm', 'path': p}]
    for h in ('h', 'g'):
        ev += [{'op': 'create', 'h': h, 'path': p, 's': 0}, {'op': 'load', 'h': h, 'path': p},
               {'op': 'save', 'h': h}, {'op': 'save', 'h': h, 'force': True}, {'op': 'drop', 'h': h},
               node('set', [1], h, v=text(1 if h == 'h' else 2)), node('app', [2], h, v=num(1 if h == 'h' else 2)),
               node('clr', [], h)]
    return [sc], ev, 2


def dep(be):
    sc = comp({'t': {'t': 'Array', 'kw': {'dtype': N}}, 'u': {'t': 'Array', 'kw': {'dtype': N}},
               'v': {'t': 'Array', 'kw': {'dtype': N, 'depends_on': ['t', 'u'], 'ndim': 2}}})
    ev = opening(be) + [
        node('set', [1], v=arr(N, [1])), node('set', [1], v=arr(N, [2])), node('clr', [1]),
        node('set', [2], v=arr(N, [2])), node('set', [2], v=arr(N, [3])), node('clr', [2]),
        node('set', [3], v=arr(N, [2, 2])), node('set', [3], v=arr(N, [2, 3])), node('clr', [3]), node('clr', [])]
    return [sc], ev, 2


def arrays(be):
    sc = comp({'a': {'t': 'Array', 'kw': {'dtype': N, 'ndim': 2}}, 'b': {'t': 'Array', 'kw': {'dtype': N}}})
    I = lambda i: {'k': 'i', 'i': i}
    S = lambda a, b, st=1: {'k': 's', 'a': a, 'b': b, 'st': st}
    ev = opening(be) + [
        node('set', [1], v=arr(N, [2, 2], [1, 2, 3, 4])), node('set', [1], v=arr(N, [1, 3], [5, 6, 7])),
        node('idxset', [1], key=[I(0), I(1)], v=num(9)), node('idxset', [1], key=[S(0, 2), I(-1)], v=num(8)),
        node('idxset', [1], key=[I(1), I(2)], v=num(7)),
        node('rsz', [1], size=[3, 1]), node('rsz', [1], size=[1, 2]), node('rsz', [1], size=[2, 3]), node('rsz', [1], size=[0, 2]),
        node('set', [2], v=arr(N, [2], [1, 2])), node('rsz', [2], size=[3]), node('rsz', [2], size=[1]),
        node('idxset', [2], key=[I(-1)], v=num(5)), node('clr', [2])]
    return [sc], ev, 2


def required(be):
    a, b = comp({'a': string(max_length=2)}), comp({'a': string(max_length=3)})
    p = path_of(be)
    ev = [{'op': 'create', 'h': 'h0', 'path': p, 's': 0}, {'op': 'create', 'h': 'h1', 'path': p, 's': 1}]
    for n, h in ((0, 'h0'), (1, 'h1')):
        ev += [{'op': 'save', 'h': h, 'force': True}, {'op': 'drop', 'h': h}, node('set', [1], h, n, v=text(3))]
    for kw in ({'rs': 0}, {'rs': 1}, {'rh': 0}, {'rh': 1}, {'rs': 0, 'rh': 0}, {'rs': 0, 'rh': 1}, {'rs': 1, 'force': True},
               {'rs': 0, 'force': True}, {'rh': 1, 'force': True}):
        ev.append(dict(op='load', h='l', path=p, **kw))
    ev += [{'op': 'drop', 'h': 'l'}, node('clr', [1], 'l', 0), {'op': 'save', 'h': 'l'}]
    return [a, b], ev, 2


def struct(be):
    sub = comp({'x': sca(), 'y': string()}, ['y'])
    sc = comp({'a': string(), 'b': sub, 'l': lst(sub)})
    ev = opening(be) + [
        node('setattr', [], n='a', v=text(1)), node('setattr', [], n='b', v=map_(x=num(1))), node('setattr', [2], n='x', v=num(1)),
        node('setattr', [], n='l', v=seq()), node('setitem', [3], i=0, v=map_(x=num(1))), node('setattr', [3, 1], n='y', v=text(1)),
        node('set', [1], v=text(1)), node('set', [2, 1], v=num(1)), node('app', [3]), node('app', [3], v=map_(y=text(1))),
        node('clr', [3, 1]), node('rep', [2], v=map_(y=text(2))), node('rep', [], v=map_(b=map_(x=num(3)), l=seq(map_()))), node('clr', [2])]
    return [sc], ev, 2


def top(be, leaf):
    """A leaf as the top-level node."""
    sc, vals = {'bytes': ({'t': 'Bytes', 'kw': {'max_length': 2}}, [{'t': 'bytes', 'c': c} for c in ([], [0], [65, 0], [1, 2, 3])]),
                'bool': ({'t': 'Bool'}, [{'t': 'bool', 'c': [c]} for c in (0, 1)]),
                'array': ({'t': 'Array', 'kw': {'dtype': 'float64', 'min_shape': [1]}},
                          [arr('float64', [n], [0.5] * n) for n in (0, 1, 3)]),
                'time': (date(True, 'Time'), [{'t': 'time', 'c': c} for c in ([0, 0, 0, 0], [23, 59, 59, 999999])]),
                'string': (string(min_length=1), [text(n) for n in (0, 1, 20)])}[leaf]
    ev = opening(be) + [node('set', [], v=v) for v in vals] + [node('clr', [])]
    return [sc], ev, 2


# name -> (function, variants, depth of the quick and thorough tier)
B, F = [(b,) for b in BACKENDS], [(b,) for b in FILES]
ALL = {
    'edit': (edit, B, (5, 7)), 'lists': (lists, B, (5, 7)), 'deep': (deep, B, (5, 7)), 'gate': (gate, F, (6, 9)),
    'soc': (soc, B, (5, 7)),
    'copy': (copy, [(a, b) for a in BACKENDS for b in BACKENDS if (a, b) != ('hdf5', 'x')], (5, 6)),
    'ps': (ps, B, (6, 8)), 'psnode': (psnode, B, (6, 8)), 'paths': (paths, F, (5, 6)), 'twice': (twice, [('npz',), ('mat',)], (6, 8)),
    'dep': (dep, B, (6, 9)), 'arrays': (arrays, B, (5, 7)), 'required': (required, F, (6, 8)), 'struct': (struct, B, (6, 8)),
    'top': (top, [(b, l) for b in BACKENDS for l in ('bytes', 'bool', 'array', 'time', 'string')], (8, 12)),
}
