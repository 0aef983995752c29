"""Work units of the checks, run in parallel processes: make traces (or replay
scripts), let TLC check them against the specification, and report."""
import collections
import multiprocessing
import os
import time
import traceback

import batch
import driver
import enums
import model
import walks


def run(spec):
    """One work unit; spec is a dict with

    kind   walk     generated traces first..first+n-1 of a profile
           enum     part of an exhaustive enumeration
           model    a scenario of the bounded model, and behaviours that cover it
           laws     laws of the specification, no traces
           scripts  given scripts
    """
    t0 = time.time()
    out = {'kind': spec['kind'], 'prop': spec.get('prop', ''), 'errors': [], 'mm': [],
           'halts': 0, 'failed': [], 'scripts': {}, 'ops': collections.Counter(), 'outs': collections.Counter(),
           'stats': {'states': 0, 'transitions': 0, 'traces': 0, 'events': 0}, 'sample': None}
    out['model'] = None
    try:
        if spec['kind'] == 'model':
            out['model'], todo = model.run(spec)
            pairs = [(s, driver.run_script(s)) for s in todo]
        elif spec['kind'] == 'laws':
            out['model'], pairs = model.laws(spec), []
        elif spec['kind'] == 'walk':
            pairs = []
            for i in range(spec['first'], spec['first'] + spec['n']):
                s, t, failed = walks.trace(spec['prop'], spec['seed'], i, spec.get('deep', False))
                pairs.append((s, t))
                if failed:
                    out['failed'].append((s['id'], failed))
        elif spec['kind'] == 'enum':
            pairs = enums.traces(spec['name'], spec['part'], spec['parts'], spec.get('deep', False))
        else:
            pairs = [(s, driver.run_script(s)) for s in spec['scripts']]
        pairs = [p for p in pairs if p[1]['ev']]
        out['t_run'] = time.time() - t0
        if not pairs:
            return out
        scripts = {s['id']: s for s, _ in pairs}
        traces = [t for _, t in pairs]
        bad = set()
        for i in range(0, len(traces), 30):
            mms, halts, stats = batch.check(traces[i:i + 30])
            bad |= {m['tr'] for m in mms}
            out['mm'] += mms
            out['halts'] += len(halts)
            for k in stats:
                out['stats'][k] += stats[k]
        out['scripts'] = {i: scripts[i] for i in bad}
        for t in traces:
            for e in t['ev']:
                out['ops'][e['op']] += 1
                out['outs'][e['op'] + ':' + e['out']['o']] += 1
        s, t = pairs[len(pairs) // 2]
        out['sample'] = {'trace': s['id'], 'steps': s['steps'][:12],
                         'outcomes': [e['out']['o'] for e in t['ev'][:12]],
                         'verdict': 'rejected' if s['id'] in bad else 'accepted'}
    except Exception:
        out['errors'].append(traceback.format_exc()[-3000:])
    except driver.BadLiteral as err:
        out['errors'].append('literal: {}'.format(err))
    out['t'] = time.time() - t0
    return out


def pool(n=None):
    return multiprocessing.get_context('fork').Pool(n or min(8, os.cpu_count() or 1), maxtasksperchild=4)


def all_(specs, deadline=None):
    """Run work units in parallel; those not begun by the deadline are left out."""
    results, left = [], 0
    with pool() as p:
        it = p.imap_unordered(_guarded, [(s, deadline) for s in specs])
        for r in it:
            if r is None:
                left += 1
            else:
                results.append(r)
    return results, left


def _guarded(a):
    spec, deadline = a
    if deadline and time.time() > deadline:
        return None
    return run(spec)
