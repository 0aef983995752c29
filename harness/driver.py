"""Executes scripts against the real library, through its public API only, and
records what can be observed as events for the trace specification."""
import contextlib
import datetime
import gc
import hashlib
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import warnings

sys.path.insert(0, os.environ.get('DSCH_REPO', '/repo'))
sys.dont_write_bytecode = True
# local time is not UTC
os.environ['TZ'] = 'VRF-05:30'
time.tzset()
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

import dsch  # noqa: E402
from dsch import exceptions, frontend  # noqa: E402
from dsch import schema as dsch_schema  # noqa: E402

import rawio  # noqa: E402
import schemas as S  # noqa: E402
from values import BadLiteral, Num, enc, enc_arg, to_python  # noqa: E402

assert os.path.realpath(dsch.__file__).startswith(
    os.path.realpath(os.environ.get('DSCH_REPO', '/repo')) + os.sep), dsch.__file__

OP_TIMEOUT = 20
# operations after which storages that are no longer used must be gone
CLOSING = ('drop', 'pclose', 'pexit', 'probe')
OPENING = ('create', 'cfrom', 'load', 'pnew', 'popen', 'penter', 'save')
INMEM = '::inmem::'
gc.freeze()


# what repr() puts before the labels; characters at which lines may be broken
INDENT = ' \u2502\u251c\u2514\u2500\u250c'
BREAKS = set('\\')


class SchemaRef:
    """Stands for the number of a schema in the batch."""
    def __init__(self, sc):
        self.sc = sc


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


@contextlib.contextmanager
def time_limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def now():
    t = datetime.datetime.now()
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]


_base_dir = {}


def base_dir(node):
    """Attributes of a Compilation without any fields, per class name."""
    mod = type(node).__module__.split('.')[-1]
    if mod not in _base_dir:
        with tempfile.TemporaryDirectory(prefix='dschv') as d:
            path = INMEM if mod == 'inmem' else os.path.join(d, 'x')
            st = frontend.create(path, dsch_schema.Compilation({}), backend=mod)
            _base_dir[mod] = set(dir(st.data))
            del st
            gc.collect()
    return _base_dir[mod]


def child(node, sc, i):
    """Child at position i (1-based) of a data node."""
    if sc['t'] == 'Compilation':
        return getattr(node, S.fields(sc)[i - 1])
    return node[i - 1]


def project(node, sc):
    """What can be seen of a data node and everything below it."""
    try:
        if type(node).__name__ != sc['t']:
            return {'k': 'x', 'e': False, 'c': False, 'w': type(node).__name__}
        e, c = node.empty, node.complete
        if type(e) is not bool or type(c) is not bool:
            return {'k': 'x', 'e': False, 'c': False, 'w': 'flags'}
        if sc['t'] == 'Compilation':
            names = S.fields(sc)
            extra = sorted(set(dir(node)) - base_dir(node) - set(names)) + sorted(set(names) - set(dir(node)))
            return {'k': 'c', 'e': e, 'c': c, 'n': extra,
                    'x': [project(getattr(node, n), sc['subs'][n]) for n in names]}
        if sc['t'] == 'List':
            return {'k': 'l', 'e': e, 'c': c,
                    'x': [project(node[i], sc['sub']) for i in range(len(node))]}
        try:
            v = [enc(node.value)]
        except exceptions.NodeEmptyError:
            v = []
        return {'k': 'i', 'e': e, 'c': c, 'v': v}
    except Exception as err:
        return {'k': 'x', 'e': False, 'c': False, 'w': type(err).__name__}


def flags(tree):
    yield from (tree['e'], tree['c'])
    for x in tree.get('x', ()):
        yield from flags(x)


def json_text(node):
    try:
        return node.to_json()
    except Exception as err:
        return '?' + type(err).__name__


HASH = re.compile('[0-9a-f]{64}')
TYPE_TAGS = ((bool, 'bool'), (np.generic, 'num'), (np.ndarray, 'arr'), (str, 'str'), (bytes, 'bytes'),
             (datetime.datetime, 'datetime'), (datetime.date, 'date'), (datetime.time, 'time'),
             ((int, float, complex), 'py'))


def enc_detail(x):
    """What a validation error expected or got."""
    out = {'t': 'other', 'w': '', 'd': '', 'k': '', 'i': [], 'r': [], 'c': []}
    if isinstance(x, (str, np.dtype)) or (isinstance(x, type) and issubclass(x, np.generic)):
        try:
            out['d'] = np.dtype(x).name + ('' if np.dtype(x).isnative else '>')
        except TypeError:
            pass
    if isinstance(x, str):
        out.update(t='str', w=x)
    elif isinstance(x, np.dtype):
        out.update(t='dtype')
    elif isinstance(x, type):
        out.update(t='type', k=next((k for t, k in TYPE_TAGS if issubclass(x, t)), 'other'))
    elif isinstance(x, (tuple, list)):
        out.update(t='tuple', c=[-1 if n is None else int(n) for n in x])
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'biuf':
        out.update(t='arr', r=enc(x)['c'])
    elif isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating)):
        v = x.item() if isinstance(x, np.generic) else x
        out.update(t='num', r=[Num(int(v) if isinstance(v, bool) else v)])
        if isinstance(v, int) and abs(v) < 2**31:
            out['i'] = [int(v)]
    return out


def describe(err, words=(), path=None, hashes=()):
    """Outcome of an operation that raised an exception.

    words: what the message must mention.
    hashes: texts that were given as hashes."""
    out = {'o': type(err).__name__, 'p': '', 'cause': ''}
    if not isinstance(err, exceptions.DschError) and out['o'] not in DSCH_ERRORS:
        return out
    x = out['x'] = {'dsch': isinstance(err, exceptions.DschError), 'hs': [], 'msg': False}
    if isinstance(err, exceptions.AutodetectBackendError) and path:
        words = (*words, path)
    try:
        text = str(err)
        x['hs'] = re.findall('|'.join([re.escape(h) for h in hashes if len(h) > 64] + [HASH.pattern]
                                      + [re.escape(h) for h in hashes if len(h) < 64]), text)
        x['msg'] = all(w in text for w in words)
    except Exception:
        text = ''
    cause = err
    if isinstance(err, exceptions.SubnodeValidationError):
        try:
            out['p'] = err.node_path()
        except Exception:
            out['p'] = '?'
        try:
            cause = err.original_cause()
            out['cause'] = type(cause).__name__
        except Exception:
            out['cause'] = '?'
    if isinstance(cause, exceptions.ValidationError):
        try:
            x['exp'], x['got'] = enc_detail(cause.expected), enc_detail(cause.got)
            x['msg'] = (isinstance(cause.message, str) and cause.message != '' and
                        all(w in text for w in (cause.message, str(cause.expected), str(cause.got), out['p'])))
        except Exception:
            x['msg'] = False
    return out


DSCH_ERRORS = ('DschError', 'AutodetectBackendError', 'IncompatibleNodesError', 'InvalidSchemaError',
               'NodeEmptyError', 'ResetSubnodeError', 'SubnodeValidationError', 'ValidationError')


def enc_ptree(tree):
    """Printed tree: [label, subtrees]."""
    return [{'l': S.plain(k), 'x': enc_ptree(v)} for k, v in tree.items()]


def value_text(node, sc):
    """The ways to write every value below a node."""
    if sc['t'] == 'Compilation':
        return {'x': [value_text(getattr(node, n), sc['subs'][n]) for n in S.fields(sc)]}
    if sc['t'] == 'List':
        return {'x': [value_text(n, sc['sub']) for n in node]}
    try:
        v = node.value
        return {'x': [], 't': sorted({S.plain(str(v)), S.plain('{}'.format(v))})}
    except exceptions.NodeEmptyError:
        return {'x': [], 't': []}


def preorder(tree, depth=0):
    for x in tree:
        yield depth, x['l']
        yield from preorder(x['x'], depth + 1)


def links(node, sc, parent):
    """Whether nodes know their place: the containing node and their schema."""
    out = {'p': node.parent is parent, 'j': json_text(node.schema_node), 'x': []}
    if sc['t'] == 'Compilation':
        out['x'] = [links(getattr(node, n), sc['subs'][n], node) for n in S.fields(sc)]
    elif sc['t'] == 'List':
        out['x'] = [links(n, sc['sub'], node) for n in node]
    return out


def enc_dtree(tree, sc):
    if tree is None:
        return {'r': 'none'}
    if sc['t'] == 'Compilation':
        if type(tree) is not dict:
            return {'r': 'bad'}
        names = S.fields(sc)
        return {'r': 'map', 'm': [
            {'i': names.index(n) + 1 if n in names else 0,
             'v': enc_dtree(tree[n], sc['subs'].get(n, sc))}
            for n in sorted(tree)]}
    if sc['t'] == 'List':
        if type(tree) is not list:
            return {'r': 'bad'}
        return {'r': 'seq', 'x': [enc_dtree(x, sc['sub']) for x in tree]}
    return {'r': 'val', 'v': enc(tree)}


def enc_key(key):
    ks = [k['i'] if k['k'] == 'i' else slice(k.get('a'), k.get('b'), k.get('st')) for k in key]
    return ks[0] if len(ks) == 1 else tuple(ks)


def enc_sel(v):
    """Result of indexing an array."""
    if isinstance(v, np.ndarray):
        return enc(v)
    r = enc(v)
    if r['t'] == 'num':
        return {'t': 'arr', 'd': r['d'], 's': [], 'c': r['c']}
    return r


SIGNATURES = [(b'PK\x03\x04', 'npz'), (b'\x89HDF\r\n\x1a\n', 'hdf5'),
              (b'MATLAB 5.0', 'mat')]


def signature(path):
    if not os.path.exists(path):
        return 'none'
    with open(path, 'rb') as f:
        head = f.read(16)
    for sig, be in SIGNATURES:
        if head.startswith(sig):
            return be
    return 'unknown'


def step_words(step):
    """What the message of a dsch error of a step must mention."""
    if step['op'] == 'setattr':
        return (step['n'], 'value')
    if step['op'] == 'setitem':
        return (str(index_of(step['i'])), 'value')
    return ()


EXC = {c.__name__: c for c in (
    ValueError, RuntimeError, ZeroDivisionError, FileNotFoundError, KeyboardInterrupt, SystemExit,
    GeneratorExit, StopIteration, AssertionError, exceptions.ValidationError, exceptions.NodeEmptyError)}
EXC['ValidationError'] = lambda x: exceptions.ValidationError(x, 1, 2)
EXC['NodeEmptyError'] = lambda x: exceptions.NodeEmptyError()


def index_of(i):
    return slice(i['a'], i['b'], i.get('st', 1)) if isinstance(i, dict) else i


class Runner:
    """Runs one script (a list of steps) in a scratch directory."""

    def __init__(self, id_, schemas, tags=()):
        self.id = id_
        self.schemas = schemas
        self.tags = list(tags)
        self.steps = []
        self.events = []
        self.hs = {}          # name -> storage
        self.hinfo = {}       # name -> (backend, path, schema)
        self.ps = {}          # id -> dict
        self.last = {}        # name -> last projection
        self.lastout = {}     # name -> last outcome
        self.files = {}       # path -> (backend, schema)
        self.digest = {}
        self.probes = 0
        self.shared = {}
        self.objs = {}
        self.held = {}        # name -> {position: node object seen first}
        self.hung = False     # an operation did not end; nothing more is run

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix='dschv')
        self.dir = os.path.join(self.root, 'd')
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.root, 'l'))    # symbolic links
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        gc.collect()
        gc.freeze()
        return self

    def __exit__(self, *_):
        self.hs.clear()
        self.ps.clear()
        gc.collect()
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    # -- helpers ------------------------------------------------------------
    def node(self, h, p):
        node, sc = self.hs[h].data, self.hinfo[h][2]
        for i in p:
            node = child(node, sc, i)
            sc = S.at(sc, [i])
        return node

    def hold(self, h, node, sc, p=()):
        """Keep the objects that stand for the nodes of a storage."""
        held = self.held.setdefault(h, {})
        held.setdefault(p, node)
        n = (len(sc['subs']) if sc['t'] == 'Compilation' else len(node) if sc['t'] == 'List' else 0)
        for i in range(1, n + 1):
            self.hold(h, child(node, sc, i), S.at(sc, [i]), p + (i,))

    def release(self, step):
        """Forget the objects that a step may replace: items of lists below
        the node it changes, and all nodes of a storage that it closes."""
        if step['op'] in CLOSING or step['op'] in ('popen', 'penter', 'pnew'):
            self.held.pop(step.get('h'), None)
            self.held.pop('ps.{}'.format(step.get('id')), None)
        elif step['op'] in ('rep', 'clr', 'lfrom', 'repunk', 'set') and step['h'] in self.held:
            held, q = self.held[step['h']], tuple(step['p'])
            for p in [p for p in held if p[:len(q)] == q]:
                if any(self.schema_at(step['h'], p[:k])['t'] == 'List' for k in range(len(q), len(p))):
                    del held[p]

    def schema_at(self, h, p):
        return S.at(self.hinfo[h][2], p)

    def hpath_open(self, path):
        """Handles of open HDF5 storages on a path."""
        return [h for h, (be, p, _) in self.hinfo.items()
                if h in self.hs and p == path and be == 'hdf5']

    def tree(self, h):
        return self.last[h]

    def sc(self, i):
        return self.schemas[i]

    def build(self, i, share=False):
        """Schema node; share: the same object for several storages."""
        if not share:
            return S.build(self.schemas[i], dsch_schema)
        if i not in self.shared:
            self.shared[i] = S.build(self.schemas[i], dsch_schema)
        return self.shared[i]

    def backend_of(self, step):
        """Backend that a path and a backend argument stand for."""
        if step.get('be'):
            return step['be']
        p = step['path']
        return ('inmem' if p == INMEM else 'npz' if p.endswith('.npz') else
                'hdf5' if p.endswith(('.h5', '.hdf5')) else
                'mat' if p.endswith('.mat') else '')

    def scan(self):
        """Files of the scratch directory; names of those that changed."""
        names, changed = [], []
        for base, dirs, files in os.walk('.'):
            for f in files + dirs:
                path = os.path.normpath(os.path.join(base, f))
                names.append(path)
                if f in dirs:
                    dg = b'dir'
                else:
                    with open(path, 'rb') as fh:
                        dg = hashlib.sha256(fh.read()).digest()
                if self.digest.get(path) != dg:
                    if path in self.digest:
                        changed.append(path)
                    self.digest[path] = dg
        for path in set(self.digest) - set(names):
            del self.digest[path]
        names.extend('link ' + f.name for f in os.scandir('../l') if not f.is_symlink())
        return sorted(names), sorted(changed)

    # -- running ------------------------------------------------------------
    def do(self, step):
        """Run one step.  Returns the event, or None if it is not possible."""
        if self.hung:
            return None
        ev = {'op': step['op']}
        fn = getattr(self, 'op_' + step['op'])
        try:
            run = fn(step, ev)
        except LookupError:
            return None
        except Exception as err:
            if step['op'] in ('foreign', 'raw'):
                raise
            # constructing the schema or evaluating a node failed
            self.steps.append(step)
            ev = {'op': 'prep', 'out': describe(err), 't0': now(), 't1': now()}
            self.observe(ev)
            self.events.append(ev)
            return ev
        if run is None:
            return None
        self.steps.append(step)
        self.release(step)
        out = {'o': 'ok', 'p': '', 'cause': ''}
        ev['t0'] = now()
        try:
            with time_limit(OP_TIMEOUT):
                run()
        except Timeout:
            out['o'] = 'Timeout'
            self.hung = True
        except Exception as err:
            out = describe(err, step_words(step), self._path_given(step), ev.get('rh', ()))
            err.__traceback__ = None
            err = None
        if step['op'] in CLOSING or (out['o'] != 'ok' and step['op'] in OPENING):
            gc.collect()
        ev['t1'] = now()
        ev['out'] = out
        run = None
        self.observe(ev)
        if 'h' in step:
            # which fault of several is found first depends on the order of the
            # fields, which loading changes
            self.lastout[step['h']] = ('invalid' if step['op'] == 'val' and out['o'] != 'ok'
                                       else out['o'])
        self.events.append(ev)
        return ev

    def observe(self, ev):
        try:
            with time_limit(3 * OP_TIMEOUT):
                self._observe(ev)
        except Timeout:
            self.hung = True
            ev['out'] = {'o': 'Timeout', 'p': '', 'cause': ''}
            ev.update(obs=[], open=sorted(self.hs), pso=[])
            ev['ls'], ev['dch'] = self.scan()

    def _observe(self, ev):
        for i, p in self.ps.items():
            h = 'ps.' + i
            st = p['obj'].storage
            if st is None:
                if self.hs.pop(h, None) is not None:
                    gc.collect()
            else:
                if self.hs.get(h) is not st:
                    self.hs[h] = st
                    path = p['tgt']['path']
                    be = self.backend_of({'path': path})
                    known = self.files.get(path)
                    sc = known[1] if known else self.sc(p['s'])
                    self.hinfo[h] = (be, path, sc)
                    if be != 'inmem' and os.path.exists(path):
                        self.files[path] = (be, sc)
        for h in list(self.last):
            if h not in self.hs:
                del self.last[h]
                self.held.pop(h, None)
        obs = []
        for h, st in self.hs.items():
            try:
                pr = project(st.data, self.hinfo[h][2])
            except Exception as err:
                pr = {'k': 'x', 'e': False, 'c': False, 'w': type(err).__name__}
            if self.last.get(h) != pr:
                self.last[h] = pr
                obs.append({'h': h, 'o': pr})
                try:
                    self.hold(h, st.data, self.hinfo[h][2])
                except Exception:
                    pass
        ev['obs'] = obs
        ev['open'] = sorted(self.hs)
        ev['ls'], ev['dch'] = self.scan()
        ev['pso'] = []
        for i, p in sorted(self.ps.items()):
            o = p['obj']
            rec = {'id': i, 'd': o.data is not None, 'st': o.storage is not None,
                   'sn': '' if o.schema_node is None else json_text(o.schema_node)}
            if p['tgt']['k'] == 'node':
                rec['same'] = o.data is None or o.data is p['node']
            else:
                rec['same'] = o.storage is None or o.data is o.storage.data
            ev['pso'].append(rec)

    def finish(self):
        return {'id': self.id, 'tags': self.tags, 'ev': self.events}

    # -- storages -----------------------------------------------------------
    def _path_args(self, step, ev):
        path = step['path']
        ev['path'] = path
        ev['pc'] = [ord(c) for c in path]
        ev['be'] = step.get('be', '')
        ev['nod'] = no_directory(path)

    def _path_given(self, step):
        """The storage path a step hands to dsch."""
        tgt = step.get('tgt')
        if tgt is None and step['op'] in ('popen', 'penter') and step['id'] in self.ps:
            tgt = self.ps[step['id']]['tgt']
        if tgt is not None:
            return self.spelled(tgt['path'], tgt.get('as', '')) if tgt['k'] == 'path' else None
        return self._arg_path(step) if 'path' in step else None

    def _arg_path(self, step):
        return self.spelled(step['path'], step.get('as', 'abs' if step.get('abs') else ''))

    def spelled(self, path, how):
        """Another way to name a file: absolute, via the current directory or
        by a symbolic link."""
        if path == INMEM or not how:
            return path
        if how == 'dot':
            return os.path.join('.', path)
        if how == 'link' and os.path.isfile(path) and not os.path.dirname(path):
            link = os.path.join(self.root, 'l', path)
            if not os.path.islink(link):
                os.symlink(os.path.join('..', 'd', path), link)
            return link
        return os.path.join(self.dir, path)

    def _opened(self, h, step, sc, storage):
        self.hs[h] = storage
        be = self.backend_of(step)
        self.hinfo[h] = (be, step['path'], sc)
        if be != 'inmem' and os.path.exists(step['path']):
            self.files.setdefault(step['path'], (be, sc))

    def op_create(self, step, ev):
        self._path_args(step, ev)
        ev['h'] = step['h']
        ev['s'] = SchemaRef(self.sc(step['s']))
        node = self.build(step['s'], step.get('share'))

        def run():
            st = frontend.create(self._arg_path(step), node,
                                 **({'backend': step['be']} if step.get('be') else {}))
            self._opened(step['h'], step, self.sc(step['s']), st)
        return run

    def op_cfrom(self, step, ev):
        self._path_args(step, ev)
        ev.update(h=step['h'], src=step['src'], via=step.get('via', 'create_from'))
        src = self.hs[step['src']]
        kw = {'backend': step['be']} if step.get('be') else {}

        def run():
            if step.get('via') == 'save_as':
                st = src.save_as(self._arg_path(step), **kw)
            else:
                st = frontend.create_from(self._arg_path(step), src, **kw)
            self._opened(step['h'], step, self.hinfo[step['src']][2], st)
        return run

    def op_load(self, step, ev):
        if self.hpath_open(step['path']):
            return None
        self._path_args(step, ev)
        ev.update(h=step['h'], force=bool(step.get('force')), rs=[], rh=[])
        kw = {'backend': step['be']} if step.get('be') else {}
        if step.get('force'):
            kw['force'] = True
        if 'rs' in step:
            kw['required_schema'] = self.build(step['rs'])
            ev['rs'] = [SchemaRef(self.sc(step['rs']))]
        if 'rh' in step:
            kw['required_schema_hash'] = S.nearly(S.hash_(self.sc(step['rh'])), step.get('rhw'))
            ev['rh'] = [kw['required_schema_hash']]

        def run():
            st = frontend.load(self._arg_path(step), **kw)
            self._opened(step['h'], step, self.files[step['path']][1], st)
        return run

    def op_save(self, step, ev):
        st = self.hs[step['h']]
        ev.update(h=step['h'], force=bool(step.get('force')), nod=no_directory(self.hinfo[step['h']][1]))

        def run():
            st.save(**({'force': True} if step.get('force') else {}))
            be, path, sc = self.hinfo[step['h']]
            self.files[path] = (be, sc)
        if not hasattr(st, 'save'):
            return None
        return run

    def op_drop(self, step, ev):
        ev['h'] = step['h']
        if step['h'] not in self.hs or step['h'].startswith('ps.'):
            return None
        if any(p['tgt']['k'] == 'node' and p['tgt']['h'] == step['h']
               for p in self.ps.values()):
            return None

        def run():
            del self.hs[step['h']]
        return run

    # -- data nodes ---------------------------------------------------------
    def _node_args(self, step, ev):
        ev['h'], ev['p'] = step['h'], step['p']
        node = self.node(step['h'], step['p'])
        if step.get('held'):    # the object that stood for the node before
            node = self.held.get(step['h'], {}).get(tuple(step['p']), node)
        return node, self.schema_at(step['h'], step['p'])

    def literal(self, step):
        """Value of a step; with 'obj', the very object of an earlier step."""
        if 'obj' not in step:
            return to_python(step['v'])
        if step['obj'] not in self.objs:
            self.objs[step['obj']] = to_python(step['v'])
        return self.objs[step['obj']]

    def op_set(self, step, ev):
        node, sc = self._node_args(step, ev)
        if 'from' in step:
            # the very object another node returns
            value = self.node(step['from']['h'], step['from']['p']).value
            ev['v'] = enc(value)
        else:
            ev['v'] = enc_arg(step['v'], sc)
            value = self.literal(step)

        def run():
            node.value = value
        return run if S.is_leaf(sc) else None

    def op_rep(self, step, ev):
        node, sc = self._node_args(step, ev)
        ev['via'] = step.get('via', '')
        if 'from' in step:
            # the exported tree of another node with the same schema
            src = step['from']
            value = self.node(src['h'], src['p']).data_tree()
            ev['v'] = enc_export(value, sc)
            if ev['v'] is None:
                return None
        else:
            ev['v'] = enc_arg(step['v'], sc)
            value = self.literal(step)

        def run():
            node.replace(value)
        return run

    def op_clr(self, step, ev):
        node, _ = self._node_args(step, ev)
        return node.clear

    def op_app(self, step, ev):
        node, sc = self._node_args(step, ev)
        if 'v' in step:
            ev['v'] = [enc_arg(step['v'], sc['sub'])]
            value = to_python(step['v'])
            return lambda: node.append(value)
        ev['v'] = []
        return node.append

    def op_lfrom(self, step, ev):
        node, _ = self._node_args(step, ev)
        ev['src'], ev['sp'] = step['src'], step['sp']
        src = self.node(step['src'], step['sp'])
        return lambda: node.load_from(src)

    def op_repunk(self, step, ev):
        node, sc = self._node_args(step, ev)
        value = {n: to_python(v) for n, v in step['m']}
        ev['unk'] = sorted(set(value) - set(S.fields(sc)))
        if not ev['unk']:
            return None
        return lambda: node.replace(value)

    def op_setattr(self, step, ev):
        node, sc = self._node_args(step, ev)
        value = (self.node(step['h'], step['vp']) if 'vp' in step
                 else to_python(step['v']))
        name = step['n']
        ev['name'] = name
        return lambda: setattr(node, name, value)

    def op_setitem(self, step, ev):
        node, sc = self._node_args(step, ev)
        value = to_python(step['v'])
        i = index_of(step['i'])

        def run():
            node[i] = value
        return run

    # -- arrays -------------------------------------------------------------
    def op_idx(self, step, ev):
        node, sc = self._node_args(step, ev)
        ev['key'] = step['key']
        ev['res'] = {'t': 'none'}
        key = enc_key(step['key'])

        def run():
            ev['res'] = enc_sel(node[key])
        return run

    def op_idxset(self, step, ev):
        node, sc = self._node_args(step, ev)
        ev['key'] = step['key']
        key = enc_key(step['key'])
        value = to_python(step['v'])
        ev['v'] = enc_sel(value) if not isinstance(value, (bool, int, float)) else {
            't': 'arr', 'd': '', 's': [], 'c': [Num(value)]}

        def run():
            node[key] = value
        return run

    def op_rsz(self, step, ev):
        node, sc = self._node_args(step, ev)
        ev['size'] = step['size']
        ev['zero'] = Num(0)
        size = tuple(step['size'])
        if step.get('int'):
            size = size[0]
        return lambda: node.resize(size)

    # -- observers ----------------------------------------------------------
    def op_val(self, step, ev):
        node, _ = self._node_args(step, ev)
        if not step['p'] and step.get('via') != 'node':
            return self.hs[step['h']].validate
        return node.validate

    def op_chk(self, step, ev):
        st = self.hs[step['h']]
        ev['h'] = step['h']
        ev['res'] = {'c': False, 'h': '', 'j': ''}

        def run():
            ev['res'] = {'c': st.complete, 'h': st.schema_hash(),
                         'j': st.schema_node.to_json()}
        return run

    def op_dtree(self, step, ev):
        node, sc = self._node_args(step, ev)
        inc = bool(step.get('inc'))
        ev['inc'] = inc
        ev['res'] = {'r': 'none'}

        def run():
            ev['res'] = enc_dtree(node.data_tree(include_empty=True) if inc
                                  else node.data_tree(), sc)
        return run

    def op_ptree(self, step, ev):
        node, sc = self._node_args(step, ev)
        ev['tx'] = value_text(node, sc)
        ev['res'] = {'tree': [], 'rep': [], 'lab': [], 'ind': [], 'dep': []}

        def run():
            tree = enc_ptree(node.node_tree())
            text = repr(node)
            ev['res']['tree'] = tree
            pre = list(preorder(tree))
            # labels with line breaks need several lines
            if all(BREAKS.isdisjoint(lab) and len(lab.split()) for _, lab in pre):
                lines = [(len(x) - len(x.lstrip(INDENT)), x.strip(INDENT)) for x in text.split('\n')]
                ev['res'].update(rep=[S.plain(x) for _, x in lines], lab=[x.strip(INDENT) for _, x in pre],
                                 ind=[n for n, _ in lines], dep=[n for n, _ in pre])
        return run

    def op_links(self, step, ev):
        node, sc = self._node_args(step, ev)
        parent = self.node(step['h'], step['p'][:-1]) if step['p'] else None
        ev['res'] = {'p': False, 'j': '', 'x': []}

        def run():
            ev['res'] = links(node, sc, parent)
        return run

    def op_len(self, step, ev):
        node, sc = self._node_args(step, ev)
        ev['res'] = {'n': -1, 'it': [], 'sel': []}
        ev['keys'] = step.get('keys', [])

        def run():
            items = list(iter(node))
            n = len(node)
            if len(items) == n and n > 0 and (
                    node[-1] is not items[-1] or
                    [id(x) for x in items] != [id(node[i]) for i in range(n)]):
                n = -1
            try:
                node[len(node)]
                n = -1
            except IndexError:
                pass
            ids = [id(x) for x in items]
            sel = []
            for k in ev['keys']:
                try:
                    got = node[enc_key([k])]
                    got = got if k['k'] == 's' else [got]
                    sel.append([ids.index(id(x)) + 1 if id(x) in ids else 0 for x in got])
                except IndexError:
                    sel.append([-1])
            ev['res'] = {'n': n, 'it': [project(x, sc['sub']) for x in items], 'sel': sel}
        return run

    def op_svalid(self, step, ev):
        sc = self.sc(step['s'])
        ev['s'] = SchemaRef(sc)
        node = self.build(step['s'])
        via = step.get('via', '')
        if via == 'json':
            node = dsch_schema.node_from_json(node.to_json())
        elif via == 'dict':
            node = type(node).from_dict(node.to_dict())
        if sc['t'] == 'List':
            ev['v'] = {'n': step['n']}
            value = list(range(step['n']))
        else:
            ev['v'] = enc(to_python(step['v']))
            value = to_python(step['v'])
        ev['ind'] = []
        if sc['t'] == 'Array':
            ind = step.get('ind', [])
            ev['ind'] = [[] if x is None else [enc(to_python(x))] for x in ind]
            args = [None if x is None else to_python(x) for x in ind]
            return lambda: node.validate(value, args)
        return lambda: node.validate(value)

    def op_sch(self, step, ev):
        ev['s'] = SchemaRef(self.sc(step['s']))
        node = self.build(step['s'])
        ev['res'] = {}

        def run():
            j = node.to_json()
            r = (dsch_schema.node_from_dict(node.to_dict())
                 if step.get('via') == 'dict' else dsch_schema.node_from_json(j))
            ev['res'] = {'j': j, 'h': node.hash(), 'rj': r.to_json(), 'rh': r.hash(),
                         'req': (r == node) is True and (node == r) is True,
                         'rqe': (r != node) is False and type(r) is type(node),
                         'oth': any(node == x for x in
                                    (None, 5, 'x', j, object(), {}, [node]))}
        return run

    def op_scheq(self, step, ev):
        ev['s'] = SchemaRef(self.sc(step['s']))
        ev['s2'] = SchemaRef(self.sc(step['s2']))
        a, b = self.build(step['s']), self.build(step['s2'])
        if step.get('via') == 'json':
            b = dsch_schema.node_from_json(b.to_json())
        ev['res'] = {}

        def run():
            ev['res'] = {'eq': a == b, 'ne': a != b, 'heq': a.hash() == b.hash()}
        return run

    def op_sctor(self, step, ev):
        ev['sr'] = S.to_spec(step['sc'])
        return lambda: S.build(step['sc'], dsch_schema)

    def op_probe(self, step, ev):
        path = step['path']
        be, sc = self.files[path]
        if not os.path.isfile(path) or (step.get('closed') and self.hpath_open(path)):
            return None
        ev.update(path=path, why=step.get('why', []), res={})
        self.probes += 1
        copy = os.path.join(self.root, 'probe{}{}'.format(
            self.probes, os.path.splitext(path)[1]))
        shutil.copyfile(path, copy)

        def run():
            st = frontend.load(copy, backend=be, force=True)
            ev['res'] = {'j': st.schema_node.to_json(), 'o': project(st.data, sc)}
        return run

    def op_raw(self, step, ev):
        path = step['path']
        be, sc = self.files[path]
        if not os.path.isfile(path) or (step.get('closed') and self.hpath_open(path)):
            return None
        ev.update(path=path, res={})
        copy = os.path.join(self.root, 'raw')
        shutil.copyfile(path, copy)

        def run():
            j, kv = rawio.read(be, copy, sc)
            ev['res'] = {'j': j, 'kv': [{'k': k, 'v': v} for k, v in kv]}
        return run

    def op_stored(self, step, ev):
        """Look at the content of a file."""
        path = step['path']
        if not os.path.isfile(path) or self.hpath_open(path):
            return None
        ev.update(path=path, res={})
        copy = os.path.join(self.root, 'raw')
        shutil.copyfile(path, copy)

        def run():
            ev['res'] = {'d': rawio.content(copy)}
        return run

    def op_sig(self, step, ev):
        ev['path'] = step['path']
        ev['res'] = {}

        def run():
            ev['res'] = {'g': signature(step['path'])}
        return run

    def op_sync(self, step, ev):
        hs = [h for h in step['hs'] if h in self.hs]
        ev['hs'] = hs
        ev['outs'] = [] if step.get('data') else [self.lastout.get(h, '') for h in hs]
        ev['fl'] = []
        if len(hs) != len(step['hs']):
            return None

        def run():
            ev['fl'] = [list(flags(project(self.hs[h].data, self.hinfo[h][2]))) for h in hs]
        return run

    def op_rm(self, step, ev):
        """Somebody else removes a file."""
        path = step['path']
        ev['path'] = path
        if not os.path.exists(path) or self.hpath_open(path) or (os.path.isdir(path) and os.listdir(path)):
            return None
        self.files.pop(path, None)
        return lambda: os.rmdir(path) if os.path.isdir(path) else os.remove(path)

    # -- files made by others -----------------------------------------------
    def op_foreign(self, step, ev):
        path = step['path']
        if os.path.exists(path) or no_directory(path):
            return None
        ev.update(path=path, be='dir' if step.get('dir') else step['be'], org=step['org'])
        if step['org'] == 'garbage':
            self.files.pop(path, None)
            ev['s'] = SchemaRef({'t': 'Bool'})
            ev['t'] = {'k': 'i', 'v': []}
            if step.get('dir'):
                os.mkdir(path)
            else:
                with open(path, 'wb') as f:
                    f.write(bytes(step['data']))
        else:
            sc = self.sc(step['s'])
            ev['s'] = SchemaRef(sc)
            ev['t'] = lit_tree(step['t'], sc)
            self.files[path] = (step['be'], sc)
            if step['org'] == 'golden':
                shutil.copyfile(os.path.join(os.path.dirname(os.path.dirname(
                    os.path.abspath(__file__))), 'fixtures', step['file']), path)
            else:
                rawio.write(step['be'], path, sc, step['t'], step.get('style', ''))
        return lambda: None

    # -- PseudoStorage ------------------------------------------------------
    def op_pnew(self, step, ev):
        i = step['id']
        tgt = step['tgt']
        acc = [S.nearly(S.hash_(self.sc(a['s'] if 's' in a else a['h'])), a.get('w'))
               for a in step.get('alts', [])]
        alts = [self.build(a['s']) if 's' in a else h for a, h in zip(step.get('alts', []), acc)]
        ev.update(id=i, s=SchemaRef(self.sc(step['s'])), acc=acc,
                  defer=bool(step.get('defer')), hh='ps.' + i)
        if tgt['k'] == 'path':
            if self.hpath_open(tgt['path']) and not step.get('defer'):
                return None
            ev['path'] = tgt['path']
            ev['nod'] = no_directory(tgt['path'])
            ev['tgt'] = {'k': 'path', 'path': tgt['path'],
                         'pc': [ord(c) for c in tgt['path']]}
            target = self.spelled(tgt['path'], tgt.get('as', ''))
            node = None
        else:
            ev['tgt'] = {'k': 'node', 'h': tgt['h'], 'p': tgt['p']}
            target = node = self.node(tgt['h'], tgt['p'])
        sn = self.build(step['s'])

        def run():
            kw = {}
            if step.get('defer'):
                kw['defer_open'] = True
            if 'alts' in step:
                kw['schema_alternatives'] = alts
            obj = frontend.PseudoStorage(target, sn, **kw)
            self.ps[i] = {'obj': obj, 'tgt': tgt, 's': step['s'], 'node': node}
        return run

    def _ps(self, step, ev, opens):
        p = self.ps[step['id']]
        ev['id'] = step['id']
        if p['tgt']['k'] == 'path':
            ev['path'] = p['tgt']['path']
            ev['nod'] = no_directory(p['tgt']['path'])
            if opens and self.hpath_open(p['tgt']['path']) and p['obj'].data is None:
                raise LookupError
        return p['obj']

    def op_popen(self, step, ev):
        return self._ps(step, ev, True).open

    def op_penter(self, step, ev):
        obj = self._ps(step, ev, True)

        def run():
            if obj.__enter__() is not obj:
                raise AssertionError('__enter__')
        return run

    def _closed(self, i):
        info = self.hinfo.get('ps.' + i)
        if 'ps.' + i in self.hs and info[0] != 'inmem':
            self.files[info[1]] = (info[0], info[2])

    def op_pclose(self, step, ev):
        obj = self._ps(step, ev, False)

        def run():
            obj.close()
            self._closed(step['id'])
        return run

    def op_pexit(self, step, ev):
        obj = self._ps(step, ev, False)
        if step.get('exc'):
            err = EXC.get(step['exc'], KeyError)('x')
            args = (type(err), err, None)
        else:
            args = (None, None, None)

        def run():
            if obj.__exit__(*args):
                raise AssertionError('__exit__')
            self._closed(step['id'])
        return run


def no_directory(path):
    return not os.path.isdir(os.path.dirname(path) or '.')


def enc_export(tree, sc):
    """Exported data tree -> argument of replace."""
    if tree is None:
        return None
    if sc['t'] == 'Compilation':
        names = S.fields(sc)
        if not isinstance(tree, dict) or set(tree) - set(names):
            return None
        m = [{'i': names.index(n) + 1, 'v': enc_export(tree[n], sc['subs'][n])}
             for n in tree]
        return None if any(x['v'] is None for x in m) else {'t': 'map', 'm': m}
    if sc['t'] == 'List':
        x = [enc_export(i, sc['sub']) for i in tree]
        return None if any(i is None for i in x) else {'t': 'seq', 'x': x}
    out = enc(tree)
    if sc['t'] == 'Scalar' and out['t'] == 'num':
        out['x'] = True
    return out


def lit_tree(t, sc):
    """Tree with script literals -> tree of the specification."""
    if t['k'] == 'i':
        return {'k': 'i', 'v': [enc(to_python(v)) for v in t['v']]}
    return {'k': t['k'], 'x': [lit_tree(x, S.at(sc, [i + 1]))
                               for i, x in enumerate(t['x'])]}


def run_script(script):
    """Run a recorded script and return its trace."""
    with Runner(script['id'], script['schemas'], script.get('tags', ())) as r:
        for step in script['steps']:
            r.do(step)
        return r.finish()
