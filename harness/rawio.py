"""Reading and writing the documented file layouts without dsch."""
import datetime
import json

import numpy as np

import schemas as S
from values import enc, to_python


class Bad(Exception):
    pass


def _ints(a, n):
    a = np.asarray(a).reshape(-1)
    if a.size != n or a.dtype.kind not in 'iu':
        raise Bad('ints')
    return [int(x) for x in a]


def _leaf(sc, raw):
    """Value of a leaf from what the plain reader returns (not for mat)."""
    t = sc['t']
    if t == 'Date':
        return datetime.date(*_ints(raw, 3))
    if t == 'DateTime':
        return datetime.datetime(*_ints(raw, 7))
    if t == 'Time':
        return datetime.time(*_ints(raw, 4))
    if t == 'Bool':
        a = np.asarray(raw)
        if a.size != 1 or a.dtype.kind != 'b':
            raise Bad('bool')
        return bool(a.reshape(-1)[0])
    if t == 'Scalar':
        a = np.asarray(raw)
        if a.ndim:
            raise Bad('scalar')
        return a[()]
    if t == 'Array':
        return np.asarray(raw)
    raise Bad(t)


def _safe(kv, key, fn):
    try:
        kv.append((key, enc(fn())))
    except Exception as err:
        kv.append((key, {'t': 'other', 'w': type(err).__name__}))


def _sub(sc, part):
    """Sub-schema for one component of a key."""
    if sc['t'] == 'Compilation' and part in sc['subs']:
        return sc['subs'][part]
    if sc['t'] == 'List' and part.startswith('item_'):
        return sc['sub']
    raise Bad('key')


# -- npz ----------------------------------------------------------------------
def _read_npz(path, sc):
    kv = []
    with np.load(path, allow_pickle=False) as f:
        j = str(f['_schema'][()])
        for key in f.keys():
            if key == '_schema':
                continue
            parts = key.split('.')
            raw = f[key]
            if raw.dtype.kind == 'V' and raw.size == 0:
                continue

            def get():
                s = sc
                if sc['t'] != 'Compilation':
                    if parts[0] != 'data':
                        raise Bad('top')
                    del parts[0]
                for p in parts:
                    s = _sub(s, p)
                if s['t'] == 'String':
                    if raw.dtype.kind != 'U' or raw.ndim:
                        raise Bad('str')
                    return str(raw[()])
                if s['t'] == 'Bytes':
                    if raw.dtype.kind != 'S':
                        raise Bad('bytes')
                    return raw.tobytes()
                return _leaf(s, raw)
            _safe(kv, key, get)
    return j, kv


# -- hdf5 ---------------------------------------------------------------------
def _read_hdf5(path, sc):
    import h5py
    kv = []
    with h5py.File(path, 'r') as f:
        j = f.attrs['dsch_schema']

        def visit(name, ds):
            if not isinstance(ds, h5py.Dataset):
                return

            def get():
                parts = name.split('/')
                s = sc
                if sc['t'] != 'Compilation':
                    if parts[0] != 'dsch_data':
                        raise Bad('top')
                    del parts[0]
                for p in parts:
                    s = _sub(s, p)
                if s['t'] == 'String':
                    return ds.asstr()[()]
                if s['t'] == 'Bytes':
                    return b'' if ds.shape is None else ds[()].tobytes()
                return _leaf(s, ds[()])
            _safe(kv, name, get)
        f.visititems(visit)
    return j, kv


# -- mat ----------------------------------------------------------------------
def _read_mat(path, sc):
    import scipy.io as sio
    kv = []
    f = sio.loadmat(path)
    j = str(f['schema'][0])
    if set(k for k in f if not k.startswith('__')) - {'schema', 'data'}:
        kv.append(('?', {'t': 'other', 'w': 'variables'}))

    def row(a):
        """One-dimensional data is stored as a row."""
        if a.size and a.shape != (1, a.size):
            raise Bad('row')
        return a.reshape(-1)

    def walk(s, raw, key):
        t = s['t']
        if t == 'Compilation':
            if raw.dtype.names is None:
                if raw.size == 1 and raw.dtype == object and raw.item() is None:
                    return                          # struct without fields
                raise Bad('struct')
            if raw.size != 1:
                raise Bad('struct')
            for n in raw.dtype.names:
                walk(_sub(s, n), raw.reshape(-1)[0][n], key + '.' + n)
        elif t == 'List':
            if raw.dtype == object and raw.size == 1 and raw.item() is None:
                return
            if raw.size and raw.dtype != object:
                raise Bad('cell')
            for i, x in enumerate(row(raw)):
                if x.dtype == object and x.size == 1 and x.item() is None:
                    continue
                walk(s['sub'], x, '{}.item_{}'.format(key, i))
        else:
            def get():
                if t == 'String':
                    if raw.size == 0:
                        return ''
                    if raw.dtype.kind != 'U' or raw.size != 1:
                        raise Bad('str')
                    return str(raw.reshape(-1)[0])
                if t == 'Bytes':
                    if raw.size and raw.dtype != 'uint8':
                        raise Bad('bytes')
                    return raw.tobytes()
                if t == 'Bool':
                    if raw.size != 1:
                        raise Bad('bool')
                    return bool(raw.reshape(-1)[0])
                if t == 'Scalar':
                    return np.squeeze(raw)[()]
                if t == 'Array':
                    a = raw
                    if S.ndim(s) == 1:
                        a = row(a)
                    if a.dtype == 'uint8' and S.dtype_of(s) == 'bool':
                        a = a.astype('bool')
                    return a
                return _leaf(s, row(raw))
            _safe(kv, key, get)
    if 'data' in f:
        walk(sc, f['data'], 'data')
    return j, kv


def content(path):
    """Digest of what is stored in a file: for HDF5 files the attributes and
    datasets (how the file arranges them is none of its content), otherwise
    every byte."""
    import hashlib
    import h5py
    out = []
    if not h5py.is_hdf5(path):
        with open(path, 'rb') as f:
            out.append(f.read())
    else:
        def visit(name, x):
            for key in sorted(x.attrs):
                if key != 'length':
                    a = x.attrs[key]
                    out.append((name, 'attr', key, a if isinstance(a, str) else np.asarray(a).tolist()))
            if isinstance(x, h5py.Dataset):
                v = x[()] if x.shape is not None else None
                if isinstance(v, np.ndarray) and v.dtype != object:
                    v = v.tobytes()
                out.append((name, str(x.dtype), x.shape, v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v))
        with h5py.File(path, 'r') as f:
            visit('', f)
            names = []
            f.visit(names.append)
            for name in sorted(names):
                visit(name, f[name])
    return hashlib.sha256(repr(out).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def read(be, path, sc):
    return {'npz': _read_npz, 'hdf5': _read_hdf5, 'mat': _read_mat}[be](path, sc)


# -----------------------------------------------------------------------------
def _ival(v, dtype='int64'):
    if isinstance(v, datetime.datetime):
        q = [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
    elif isinstance(v, datetime.date):
        q = [v.year, v.month, v.day]
    else:
        q = [v.hour, v.minute, v.second, v.microsecond]
    return np.array(q, dtype=dtype)


def _leaves(sc, t, pre):
    if t['k'] == 'i':
        if t['v']:
            yield pre, sc, to_python(t['v'][0])
    else:
        for i, x in enumerate(t['x']):
            name = (S.fields(sc)[i] if t['k'] == 'c' else 'item_{}'.format(i))
            yield from _leaves(S.at(sc, [i + 1]), x, pre + (name,))


def _text(sc, style):
    """The text of the schema, with 'js' not as dsch writes it."""
    text = S.text(sc)
    if 'js' in style:
        text = json.dumps(json.loads(text), indent=2)
    return text


def _write_npz(path, sc, t, style):
    out = {'_schema': _text(sc, style)}
    idt = 'int32' if 'i32' in style else 'int64'
    for key, s, v in _leaves(sc, t, () if sc['t'] == 'Compilation' else ('data',)):
        if s['t'] in ('Date', 'DateTime', 'Time'):
            v = _ival(v, idt)
        elif s['t'] == 'Bytes':
            v = np.array(v, dtype='bytes') if v else np.array([], dtype='bytes')
        elif s['t'] == 'String':
            v = np.array(v, dtype='U')
        elif s['t'] == 'Bool':
            v = np.array(v) if 'b0' in style else np.array([v])
        out['.'.join(key)] = v
    import zipfile
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED if 'z' in style
                         else zipfile.ZIP_STORED) as z:
        for key, v in out.items():
            with z.open(key + '.npy', 'w') as f:
                np.lib.format.write_array(f, np.asanyarray(v), allow_pickle=False)


def _write_hdf5(path, sc, t, style):
    import h5py
    idt = 'int32' if 'i32' in style else 'int64'

    def put(group, name, s, n):
        if n['k'] == 'i':
            if not n['v']:
                return
            v = to_python(n['v'][0])
            if s['t'] in ('Date', 'DateTime', 'Time'):
                v = _ival(v, idt)
            elif s['t'] == 'Bytes':
                v = np.void(v) if v else h5py.Empty('V1')
            kw = {}
            if 'z' in style and s['t'] == 'Array' and np.asarray(v).size:
                kw = {'chunks': True, 'compression': 'gzip'}
            if s['t'] == 'Array' and 'z' in style:
                kw['maxshape'] = (None,) * np.asarray(v).ndim
            group.create_dataset(name, data=v, **kw)
            return
        g = group.create_group(name) if name else group
        for i, x in enumerate(n['x']):
            put(g, S.fields(s)[i] if n['k'] == 'c' else 'item_{}'.format(i),
                S.at(s, [i + 1]), x)
    with h5py.File(path, 'w') as f:
        f.attrs['dsch_schema'] = _text(sc, style)
        put(f, '' if sc['t'] == 'Compilation' else 'dsch_data', sc, t)


def _write_mat(path, sc, t, style):
    import scipy.io as sio

    def conv(s, n):
        if n['k'] == 'i':
            if not n['v']:
                return None
            v = to_python(n['v'][0])
            if s['t'] in ('Date', 'DateTime', 'Time'):
                return _ival(v, 'int32' if 'i32' in style else 'int64')
            if s['t'] == 'Bytes':
                if 'txt' in style and v and all(32 < c < 127 for c in v):
                    return v.decode()
                return np.frombuffer(v, dtype='uint8')
            if s['t'] == 'Bool':
                return np.array([v])
            if s['t'] == 'Array' and v.ndim == 1 and 'col' in style:
                return v.reshape(-1, 1)
            return v
        if n['k'] == 'c':
            out = {}
            for i, x in enumerate(n['x']):
                v = conv(S.at(s, [i + 1]), x)
                if v is not None and not (isinstance(v, dict) and not v):
                    out[S.fields(s)[i]] = v
            return out
        out = np.zeros((len(n['x']),), dtype=object)
        for i, x in enumerate(n['x']):
            out[i] = conv(s['sub'], x)
        return out
    out = {'schema': _text(sc, style)}
    v = conv(sc, t)
    if v is not None:
        out['data'] = v
    with open(path, 'wb') as f:
        sio.savemat(f, out, long_field_names=True, do_compression='z' in style)


def write(be, path, sc, t, style=''):
    {'npz': _write_npz, 'hdf5': _write_hdf5, 'mat': _write_mat}[be](path, sc, t, style)
