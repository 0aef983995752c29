#!/opt/venv/bin/python -B
"""Self-test of the binding: is every recorded fact judged?

    PYTHONHASHSEED=0 harness/selftest.py [PROFILES [TRACES [SEED]]]

Records traces of the real library, changes one recorded fact of one event
(outcome, a node, a flag, a list of files, a result), and lets TLC judge the
changed trace, cut off after that event.  Prints the facts whose change went
unnoticed; those that the specification leaves open are expected."""
import collections
import copy
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import batch  # noqa: E402
import walks  # noqa: E402
from values import Num  # noqa: E402

KEYS = ('out', 'obs', 'ls', 'dch', 'pso', 'res', 'open')


def scalars(o, path=()):
    if isinstance(o, dict):
        for k in o:
            yield from scalars(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            yield from scalars(x, path + (i,))
    else:
        yield path, o


def other(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, str):
        return x + 'x'
    if isinstance(x, int):
        return x + 1
    return Num(12345.678) if isinstance(x, Num) else None


def corrupt(trace, r):
    """(corrupted trace, what was changed) or None."""
    j = r.randrange(len(trace['ev']))
    e = trace['ev'][j]
    key = r.choice([k for k in KEYS if e.get(k)] or ['ls'])
    t = copy.deepcopy(trace)
    t['ev'] = t['ev'][:j + 1]
    if key == 'out':
        # path and cause of an outcome mean something for errors only
        t['ev'][j]['out']['o'] = 'ValueError' if e['out']['o'] == 'ok' else 'ok'
        what = 'outcome ' + e['out']['o']
    elif key in ('ls', 'dch') and r.random() < .6:
        t['ev'][j][key].append('ghost')
        what = key + ' +'
    else:
        some = [p for p in scalars(e[key]) if other(p[1]) is not None and p[0][-1] != 'h']
        if not some:
            return None
        path, x = r.choice(some)
        o = t['ev'][j][key]
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = other(x)
        what = ' '.join([key] + [k if isinstance(k, str) else '#' for k in path[-3:]])
    return t, '{}: {} ({})'.format(e['op'], what, e['out']['o'])


def main(argv):
    profiles = argv[0].split(',') if argv else sorted(walks.PROFILES)
    n = int(argv[1]) if len(argv) > 1 else 4
    seed = int(argv[2]) if len(argv) > 2 else 1
    r = random.Random(seed)
    total, missed = 0, collections.Counter()
    for p in profiles:
        todo, what = [], {}
        for i in range(n):
            t = walks.trace(p.upper(), seed, i)[1]
            for k in range(10 if t['ev'] else 0):
                c = corrupt(t, r)
                if c:
                    c[0]['id'] += '/%d' % k
                    what[c[0]['id']] = c[1]
                    todo.append(c[0])
        for i in range(0, len(todo), 30):
            part = todo[i:i + 30]
            try:
                hit = {m['tr'] for m in batch.check(part)[0]}
            except batch.TlcError:
                total += len(part)      # a trace that cannot be read is not accepted
                continue
            total += len(part)
            for t in part:
                if t['id'] not in hit:
                    missed[what[t['id']]] += 1
    print('{} corrupted traces, {} accepted'.format(total, sum(missed.values())))
    for w, k in missed.most_common():
        print(k, w)


if __name__ == '__main__':
    main(sys.argv[1:])
