"""Directed scripts that show the known findings.  They are checked with the
deviations of the specification switched off; known_findings.txt lists which
of their steps fail, and how."""
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(ROOT, 'known_findings.txt')
EXT = {'npz': 'f.npz', 'hdf5': 'f.h5', 'mat': 'f.mat', 'inmem': '::inmem::'}


def text(s):
    return {'t': 'str', 'c': [ord(c) for c in s]}


def arr(d, s, x):
    return {'t': 'arr', 'd': d, 's': s, 'x': x}


def comp(**subs):
    return {'t': 'Compilation', 'subs': subs}


def stored(be, sc, p, v):
    """Assign one value, save with force, and look at the file."""
    path = EXT[be]
    return [sc], [{'op': 'create', 'h': 'h', 's': 0, 'path': path},
                  {'op': 'set', 'h': 'h', 'p': p, 'v': v},
                  {'op': 'save', 'h': 'h', 'force': True},
                  {'op': 'probe', 'path': path}]


def scripts():
    out = {}
    s3 = comp(a={'t': 'String', 'kw': {'max_length': 3}})
    steps = [{'op': 'create', 'h': 'h', 's': 0, 'path': 'f.h5'},
             {'op': 'set', 'h': 'h', 'p': [1], 'v': text('ab')},
             {'op': 'save', 'h': 'h'},
             {'op': 'set', 'h': 'h', 'p': [1], 'v': text('toolong')}]
    tail = [{'op': 'drop', 'h': 'h'}, {'op': 'probe', 'path': 'f.h5'}]
    out['hdf5-unsaved'] = [s3], steps + tail
    out['hdf5-rejected'] = [s3], steps + [{'op': 'save', 'h': 'h'}] + tail
    out['mat-dimensions'] = stored('mat', {'t': 'Array', 'kw': {'dtype': 'int32', 'ndim': 2}}, [],
                                   arr('int32', [3], [1, 2, 3]))
    out['mat-logical'] = stored('mat', {'t': 'Array', 'kw': {'dtype': 'int32'}}, [], arr('bool', [2], [1, 0]))
    for be in ('npz', 'hdf5', 'mat'):
        out['nul-' + be] = stored(be, {'t': 'String'}, [], text('a\0'))
        out['tz-datetime-' + be] = stored(be, {'t': 'DateTime'}, [],
                                          {'t': 'datetime', 'c': [2020, 1, 2, 3, 4, 5, 6], 'tz': 60})
        out['tz-time-' + be] = stored(be, {'t': 'Time'}, [], {'t': 'time', 'c': [3, 4, 5, 6], 'tz': 60})
    out['mat-underscore'] = stored('mat', comp(_x={'t': 'String'}, y={'t': 'String'}), [1], text('v'))
    out['mat-digit'] = stored('mat', {'t': 'Compilation', 'subs': {'1st': {'t': 'String'}, 'y': {'t': 'String'}}},
                              [1], text('v'))
    out['mat-umlaut'] = stored('mat', comp(**{'ä': {'t': 'String'}, 'y': {'t': 'String'}}), [2], text('v'))
    out['mat-long'] = stored('mat', comp(**{'n' * 64: {'t': 'String'}}), [1], text('v'))
    out['npz-dot'] = stored('npz', {'t': 'Compilation', 'subs': {'a.b': {'t': 'String'}}}, [1], text('v'))
    out['npz-reserved'] = stored('npz', comp(_schema={'t': 'String'}), [1], text('v'))
    two = comp(a={'t': 'Array', 'kw': {'dtype': 'int32'}}, b={'t': 'Array', 'kw': {'dtype': 'int32'}})
    for be in ('inmem', 'npz', 'mat'):
        out['shared-array-' + be] = [two], [
            {'op': 'create', 'h': 'h', 's': 0, 'path': EXT[be]},
            {'op': 'set', 'h': 'h', 'p': [1], 'v': arr('int32', [2], [1, 2])},
            {'op': 'set', 'h': 'h', 'p': [2], 'from': {'h': 'h', 'p': [1]}},
            {'op': 'idxset', 'h': 'h', 'p': [1], 'key': [{'k': 'i', 'i': 0}], 'v': {'t': 'num', 'd': 'int32', 'x': 7}}]
    return {n: {'id': 'finding-' + n, 'tags': [], 'schemas': s, 'steps': st} for n, (s, st) in out.items()}


LINE = re.compile(r'^known: property=(\S+) script=(\S+) fails=(\S+) (.*)$')


def listed():
    """(property, script, {(step, clause)}, description) of the known findings."""
    out = []
    with open(FILE) as f:
        for line in f:
            m = LINE.match(line.strip())
            if m:
                fails = {(int(x.split(':')[0]), x.split(':')[1]) for x in m.group(3).split(',')}
                out.append((m.group(1), m.group(2), fails, m.group(4)))
    return out
