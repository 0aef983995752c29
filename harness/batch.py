"""Batches of traces: encoding for TLC, running TLC, reading its verdicts."""
import json
import os
import re
import subprocess
import sys
import tempfile

import schemas as S
from driver import SchemaRef
from values import Ranks

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')


class TlcError(Exception):
    pass


class Table:
    def __init__(self):
        self.index = {}
        self.rows = []

    def add(self, sc):
        j = S.text(sc)
        if j not in self.index:
            for s in S.walk(sc):
                if s is not sc:
                    self.add(s)
            self.rows.append({'sc': S.to_spec(sc), 'j': j, 'h': S.hash_(sc)})
            self.index[j] = len(self.rows)
        return self.index[j]


def _resolve(obj, table):
    if isinstance(obj, SchemaRef):
        return table.add(obj.sc)
    if isinstance(obj, dict):
        return {k: _resolve(v, table) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_resolve(v, table) for v in obj]
    return obj


def encode(traces, strict=False):
    table = Table()
    traces = [_resolve(t, table) for t in traces]
    batch = {'schemas': table.rows, 'traces': traces, 'strict': strict}
    ranks = Ranks()
    ranks.add(batch)
    ranks.close()
    return ranks.sub(batch)


def tlc(module, cfg, env=None, workers=1, timeout=800, args=(), heap='3g', cwd=None,
        short=True):
    """Run TLC; returns (exit code, output)."""
    with tempfile.TemporaryDirectory(prefix='dschtlc') as meta:
        cmd = ['java', '-Xmx' + heap, '-Xss64m',
               *(['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if short else ['-XX:+UseParallelGC']),
               '-XX:-UsePerfData', '-cp', CP,
               'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-config', cfg, '-noGenerateSpecTE', *args, module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise TlcError('TLC took more than {} s'.format(timeout))
    return r.returncode, r.stdout


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def check(traces, workers=1, keep=None, timeout=400, strict=False):
    """Check traces against the specification.

    Returns (mismatches, halts, statistics)."""
    try:
        return _check(traces, workers, keep, timeout, strict)
    except TlcError:
        # find out which trace TLC could not handle
        if len(traces) == 1:
            raise
        half = len(traces) // 2
        out, errors = [], []
        for part in (traces[:half], traces[half:]):
            try:
                out.append(check(part, workers, None, timeout, strict))
            except TlcError as err:
                errors.append(err)
        mms = [m for o in out for m in o[0]]
        if errors and not mms:
            raise errors[0]
        return (mms, [h for o in out for h in o[1]],
                {k: sum(o[2][k] for o in out) for k in ('states', 'transitions', 'traces', 'events')})


def _check(traces, workers, keep, timeout, strict):
    data = encode(traces, strict)
    with tempfile.TemporaryDirectory(prefix='dschb') as d:
        path = keep or os.path.join(d, 'batch.json')
        with open(path, 'w') as f:
            json.dump(data, f, ensure_ascii=True)
        rc, out = tlc('DschTrace.tla', 'DschTrace.cfg', {'BATCH': path},
                      workers=workers, timeout=timeout)
    mms, halts = [], []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@'):
            tag, body = json.loads(line).split(' ', 1)
            (mms if tag == '@MM' else halts).append(json.loads(body))
    m = None
    for m in STATES.finditer(out):
        pass
    if rc != 0 or m is None:
        raise TlcError('TLC exit {}:\n{}'.format(rc, out[-6000:]))
    stats = {'states': int(m.group(2)), 'transitions': int(m.group(1)) - len(traces),
             'traces': len(traces), 'events': sum(len(t['ev']) for t in traces)}
    # every event of every trace must have been judged, except after a halt
    lens = {t['id']: len(t['ev']) for t in traces}
    halted = {h['tr']: h['n'] for h in halts}
    want = sum((halted[t['id']] if t['id'] in halted else lens[t['id']]) + 1
               for t in traces)
    if stats['states'] != want:
        raise TlcError('{} states, expected {}\n{}'.format(
            stats['states'], want, out[-3000:]))
    return mms, halts, stats


if __name__ == '__main__':
    sys.exit('not a program')
