#!/opt/venv/bin/python -B
"""Decides one property:  check.py PROPERTY [--replay FILE]

Runs the real library in /repo (recording traces) and lets TLC decide whether
the traces are behaviours of the specification in spec/.  VERIF_TIER (quick or
thorough) and VERIF_SEED come from the environment.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the
machinery failed."""
import collections
import json
import os
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv)

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))

import batch  # noqa: E402
import driver  # noqa: E402
import findings  # noqa: E402
import jobs  # noqa: E402
import model  # noqa: E402
import plan  # noqa: E402
import shrink  # noqa: E402

IDS = ['C%02d' % n for n in range(1, 22)]
ASSUMPTIONS = [
    'CPython, NumPy, SciPy, h5py, the file system and TLC work as documented',
    'values are compared through their canonical form in the harness (type, dtype, shape and content); '
    'the harness observes a storage only through the public API',
    'inputs that the known findings exclude (see DESIGN.md) are not generated',
]


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    trace = driver.run_script(data['script'])
    mms, _, _ = batch.check([trace], strict=data.get('strict', False))
    hits = [m for m in mms if prop in m['ps']]
    for m in mms:
        e = trace['ev'][m['n'] - 1]
        print('step {} {}: {} violates {} (outcome {}) {}'.format(
            m['n'], json.dumps(data['script']['steps'][m['n'] - 1]), m['c'], ','.join(sorted(m['ps'])),
            e['out']['o'], m['info']))
    if hits:
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    print('no violation')
    return 0


def known(prop):
    """Run the scripts of the known findings; returns (lines, mismatches, statistics)."""
    listed = [x for x in findings.listed() if x[0] == prop]
    if not listed:
        return [], [], None
    all_ = collections.defaultdict(set)
    for _, name, fails, _ in findings.listed():
        all_[name] |= fails
    scripts = findings.scripts()
    names = [x[1] for x in listed]
    traces = [driver.run_script(scripts[n]) for n in names]
    mms, _, stats = batch.check(traces, strict=True)
    lines, bad = [], []
    for _, name, fails, what in listed:
        mine = [m for m in mms if m['tr'] == 'finding-' + name]
        if any((m['n'], m['c']) in fails for m in mine):
            lines.append('KNOWN-FINDING: property={} {}'.format(prop, what))
        for m in mine:
            if prop in m['ps'] and (m['n'], m['c']) not in all_[name]:
                bad.append((m, scripts[name]))
    return lines, bad, stats


def main(argv):
    prop = argv[0]
    if prop not in IDS:
        raise SystemExit('unknown property {}'.format(prop))
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + plan.BUDGET[tier]
    errors, left, results = [], 0, []
    units = plan.units(prop, tier, seed)
    results, left = jobs.all_(units, deadline)
    lines, bad, kstats = [], [], None
    try:
        lines, bad, kstats = known(prop)
    except Exception as err:
        errors.append('known findings: {}'.format(err))
    total = collections.Counter()
    ops, outs, samples, models = collections.Counter(), collections.Counter(), [], []
    kinds = collections.Counter()
    hits, others, failed = [], collections.Counter(), []
    for r in results:
        total.update(r['stats'])
        ops.update(r['ops'])
        outs.update(r['outs'])
        kinds[r['kind'] + (':' + r['prop'] if r['prop'] else '')] += r['stats']['traces']
        if r.get('model'):
            models.append(r['model'])
        errors += r['errors']
        failed += r['failed']
        if r['sample'] and len(samples) < 3 and (r['prop'] in (prop, '') or not samples):
            samples.append(r['sample'])
        for m in r['mm']:
            if prop in m['ps']:
                hits.append((m, r['scripts'][m['tr']], False))
            else:
                for p in m['ps']:
                    others[p] += 1
    if len(failed) > 10 and len(failed) > total['traces'] / 50:
        errors += ['generator: {}: {}'.format(i, e) for i, e in failed]
    if kstats:
        total.update(kstats)
    hits += [(m, s, True) for m, s in bad]
    for line in lines:
        print(line)
    code = 0
    if hits:
        code = 1
        # one report per clause and operation, the shortest script first
        seen = set()
        hits.sort(key=lambda x: (x[0]['n'], x[0]['tr']))
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        for m, script, strict in hits:
            key = (m['op'], m['c'])
            if key in seen or len(seen) >= 4:
                continue
            seen.add(key)
            path = os.path.join('out', '{}-{}-{}.json'.format(prop, m['op'], m['c']))
            small = shrink.shrink(script, prop, m, 40 if len(seen) == 1 else 10, strict)
            with open(os.path.join(ROOT, path), 'w') as f:
                json.dump({'property': prop, 'mismatch': m, 'script': small, 'strict': strict}, f, indent=1)
            print('violated: {} of {} {}'.format(m['c'], m['op'], m['info']))
            print('VIOLATION property={} replay={}'.format(prop, path))
    elif errors:
        code = 2
    for i, e in failed[:2]:
        print('generator failed in {}: {}'.format(i, e.strip().splitlines()[-1]))
    for e in errors[:3]:
        print('ERROR', e[-2500:])
    if others:
        print('other properties violated:', dict(others))
    model_states = sum(m['states'] for m in models)
    model_trans = sum(m['transitions'] for m in models)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total['states'] + model_states,
            'transitions': total['transitions'] + model_trans,
            'traces_validated_against_impl': total['traces'],
            'events_validated': total['events'],
            'model_states': model_states, 'model_transitions': model_trans,
            'models': models,
            'traces_by_source': dict(kinds),
            'operations': dict(ops), 'outcomes': {k: n for k, n in sorted(outs.items())},
            'traces_not_judged_to_the_end': sum(r['halts'] for r in results),
            'traces_ended_early_by_the_generator': len(failed),
            'work_units_left_out_for_time': left,
            'known_findings_shown': len(lines),
            'samples': samples},
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(hits)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('{} {} seed {}: {} traces, {} events, {} states, {} mismatches, {:.0f} s'.format(
        prop, tier, seed, total['traces'], total['events'], total['states'] + model_states, len(hits),
        time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
