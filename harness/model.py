"""The bounded model: runs TLC on a scenario (spec/Dsch.tla), reads the
transition graph and makes scripts that cover it."""
import collections
import json
import os
import random
import re
import tempfile

import batch
import scenarios
import schemas as S
from driver import INMEM, SchemaRef
from enums import FIXTURES  # noqa: F401
from values import Num, Ranks, enc_arg, to_python, enc


class ModelError(Exception):
    pass


def codes(path):
    return [ord(c) for c in path]


def spec_event(step, scs):
    """Step of a script -> event of the specification."""
    op = step['op']
    e = {'op': op}
    if op in ('create', 'cfrom', 'load'):
        e.update(h=step['h'], path=step['path'], pc=codes(step['path']), be=step.get('be', ''))
    if op == 'create':
        e['s'] = SchemaRef(scs[step['s']])
    elif op == 'cfrom':
        e.update(src=step['src'])
    elif op == 'load':
        e.update(force=bool(step.get('force')), rs=[], rh=[])
        if 'rs' in step:
            e['rs'] = [SchemaRef(scs[step['rs']])]
        if 'rh' in step:
            e['rh'] = [S.hash_(scs[step['rh']])]
    elif op == 'save':
        e.update(h=step['h'], force=bool(step.get('force')))
    elif op == 'drop':
        e['h'] = step['h']
    elif op == 'foreign':
        e.update(path=step['path'], be=step['be'], org=step['org'], s=SchemaRef({'t': 'Bool'}), t={'k': 'i', 'v': []})
    elif op == 'rm':
        e['path'] = step['path']
    elif op == 'pnew':
        tgt = dict(step['tgt'])
        if tgt['k'] == 'path':
            e['path'] = tgt['path']
            tgt['pc'] = codes(tgt['path'])
        e.update(id=step['id'], s=SchemaRef(scs[step['s']]), defer=bool(step.get('defer')), hh='ps.' + step['id'], tgt=tgt,
                 acc=[S.hash_(scs[a['s'] if 's' in a else a['h']]) for a in step.get('alts', [])])
    elif op in ('popen', 'penter', 'pclose', 'pexit'):
        e['id'] = step['id']
    else:
        sc = S.at(scs[step['on']], step['p'])
        e.update(h=step['h'], p=step['p'], on=SchemaRef(scs[step['on']]))
        if op in ('set', 'rep'):
            e['v'] = enc_arg(step['v'], sc)
        elif op == 'app':
            e['v'] = [enc_arg(step['v'], sc['sub'])] if 'v' in step else []
        elif op == 'lfrom':
            e.update(src=step['src'], sp=step['sp'])
        elif op == 'idxset':
            v = enc(to_python(step['v']))
            e.update(key=step['key'], v={'t': 'arr', 'd': v['d'], 's': [], 'c': v['c']})
        elif op == 'rsz':
            e.update(size=step['size'], zero=Num(0))
    return e


EDGE = re.compile(r'^"@E <<(-?\d+), (-?\d+)>> (\d+) <<(-?\d+), (-?\d+)>>"$')


def explore(name, variant, depth, strict=False, timeout=600):
    """Explore a scenario; returns (schemas, steps, root, edges, statistics)."""
    scs, steps, maxlist = scenarios.ALL[name][0](*variant)
    table = batch.Table()
    data = batch._resolve({'events': [spec_event(s, scs) for s in steps]}, table)
    data.update(schemas=table.rows, depth=depth, maxlist=maxlist, strict=strict)
    ranks = Ranks()
    ranks.add(data)
    ranks.close()
    data = ranks.sub(data)
    with tempfile.TemporaryDirectory(prefix='dschm') as d:
        path = os.path.join(d, 'scenario.json')
        with open(path, 'w') as f:
            json.dump(data, f, ensure_ascii=True)
        rc, out = batch.tlc('Dsch.tla', 'Dsch.cfg', {'SCENARIO': path}, timeout=timeout, short=depth < 7)
    edges = collections.defaultdict(dict)
    first = None
    for line in out.splitlines():
        m = EDGE.match(line)
        if m:
            a, b = (int(m.group(1)), int(m.group(2))), (int(m.group(4)), int(m.group(5)))
            if first is None:
                first = a
            edges[a].setdefault(int(m.group(3)) - 1, b)
    m = None
    for m in batch.STATES.finditer(out):
        pass
    if rc != 0 or m is None:
        text = '\n'.join(x for x in out.splitlines() if not x.startswith('"@E'))
        text = text[max(0, text.find('Error:')):]
        raise ModelError('model {}{}: TLC exit {}\n{}\n...\n{}'.format(name, variant, rc, text[:1500], text[-1500:]))
    stats = {'scenario': name, 'variant': list(variant), 'depth': depth, 'strict': strict,
             'states': int(m.group(2)), 'transitions': int(m.group(1)) - 1,
             'graph_states': len(set(edges) | {b for x in edges.values() for b in x.values()}),
             'graph_transitions': sum(len(x) for x in edges.values())}
    return scs, steps, first, edges, stats


def cover(root, edges, rng, length=60, limit=None):
    """Walks from the root that cover the transitions (or about limit of them)."""
    left = {a: set(x) for a, x in edges.items()}
    n = total = sum(len(x) for x in left.values())
    want = total if limit is None else min(total, limit)

    def nearest(start, room):
        """Shortest way from start to a state with an uncovered transition."""
        seen, queue = {start: None}, collections.deque([(start, 0)])
        while queue:
            a, d = queue.popleft()
            if left.get(a):
                way = []
                while seen[a] is not None:
                    a, i = seen[a]
                    way.append(i)
                return way[::-1]
            if d >= room:
                continue
            outs = list(edges.get(a, {}).items())
            rng.shuffle(outs)
            for i, b in outs:
                if b not in seen:
                    seen[b] = (a, i)
                    queue.append((b, d + 1))
        return None

    walks = []
    while total - n < want:
        at, walk = root, []
        fresh = 0
        while len(walk) < length and total - n < want:
            if left.get(at):
                i = rng.choice(sorted(left[at]))
                left[at].discard(i)
                n -= 1
                fresh += 1
                walk.append(i)
                at = edges[at][i]
                continue
            way = nearest(at, length - len(walk))
            if way is None:
                break
            for i in way:
                walk.append(i)
                at = edges[at][i]
        if not fresh:
            break
        walks.append(walk)
    return walks, total - n


def scripts(name, variant, scs, steps, walks, rng):
    """Walks -> scripts, with observers."""
    out = []
    label = '-'.join([name] + list(variant))
    for n, walk in enumerate(walks):
        st = []
        for i in walk:
            s = {k: v for k, v in steps[i].items() if k != 'on'}
            st.append(s)
            r = rng.random()
            h = s.get('h')
            if h and s['op'] != 'drop':
                if r < .2:
                    st.append({'op': 'val', 'h': h, 'p': []})
                elif r < .4:
                    st.append({'op': 'dtree', 'h': h, 'p': [], 'inc': r < .3})
                elif r < .5:
                    st.append({'op': 'chk', 'h': h})
                elif r < .6:
                    st.append({'op': 'ptree', 'h': h, 'p': []})
                elif r < .65:
                    st.append({'op': 'links', 'h': h, 'p': []})
            if s['op'] in ('save', 'drop', 'pclose', 'pexit') and r > .3:
                for p in sorted({x['path'] for x in steps if x.get('path', INMEM) != INMEM} |
                                {x['tgt']['path'] for x in steps if 'tgt' in x and x['tgt'].get('path', INMEM) != INMEM}):
                    st.append({'op': 'probe', 'path': p, 'closed': True, 'why': ['ps'] * (s['op'][0] == 'p')})
                    if r > .6:
                        st.append({'op': 'raw', 'path': p, 'closed': True})
        out.append({'id': 'model-{}-{}'.format(label, n), 'tags': ['arrops'] * (name == 'arrays') + ['ps'] * name.startswith('ps'),
                    'schemas': scs, 'steps': st})
    return out


def run(spec):
    """Work unit: explore a scenario and make scripts; returns (statistics, scripts)."""
    name, variant = spec['name'], tuple(spec['variant'])
    scs, steps, root, edges, stats = explore(name, variant, spec['depth'], spec.get('strict', False),
                                             spec.get('timeout', 600))
    if spec.get('limit') == 0:
        return stats, []
    rng = random.Random('{}/{}/{}'.format(name, variant, spec['seed']))
    walks, covered = cover(root, edges, rng, limit=spec.get('limit'))
    stats['covered_transitions'] = covered
    return stats, scripts(name, variant, scs, steps, walks, rng)


def laws(spec):
    """Work unit: laws of the specification itself (spec/DschLaws.tla), case by case."""
    rc, out = batch.tlc('DschLaws.tla', 'DschLaws.cfg', {'LAWS': spec['name'], 'DEEP': '1' if spec.get('deep') else '0'},
                        timeout=spec.get('timeout', 600))
    m = None
    for m in batch.STATES.finditer(out):
        pass
    if rc != 0 or m is None:
        raise batch.TlcError('laws {}: TLC exit {}:\n{}'.format(spec['name'], rc, out[-3000:]))
    return {'scenario': 'laws ' + spec['name'], 'variant': [], 'depth': 1, 'strict': False, 'states': int(m.group(2)),
            'transitions': int(m.group(1)), 'graph_states': 0, 'graph_transitions': 0, 'covered_transitions': 0}
