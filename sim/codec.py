"""Canonical, exact, JSON-able encoding of every value that crosses the simulator boundary.

Floats are encoded with float.hex(), which does not depend on the floating-point rounding mode.
enc() is total: an object it does not know is encoded by its type name only.
"""
import hashlib
import json

import numpy as np
import pandas as pd

NAN = ['f', 'nan']


def _f(x):
    return 'nan' if x != x else float.hex(x)


def enc(x, ip, depth=0):
    if depth > 8:
        return ['deep']
    t = type(x)
    if x is None or t is bool or t is str:
        return x
    if t is int:
        return ['i', str(x)]
    if t is float:
        return ['f', _f(x)]
    if isinstance(x, ip.ClassicalArithmetic):
        return ['C', enc(x.a, ip), enc(x.b, ip)]
    if isinstance(x, ip.KaucherArithmetic):
        return ['K', enc(x.a, ip), enc(x.b, ip)]
    if isinstance(x, ip.ArrayInterval):
        d = x.data
        return ['AI', list(d.shape), [list(x.shape), x.ndim, [[r.start, r.stop] for r in x.ranges]],
                [enc(e, ip, depth + 1) for e in d.ravel().tolist()]]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ['ndo', list(x.shape), [enc(e, ip, depth + 1) for e in x.ravel().tolist()]]
        return ['nd', x.dtype.str, list(x.shape), [enc(e, ip, depth + 1) for e in x.ravel().tolist()]]
    if isinstance(x, np.generic):
        return ['np', x.dtype.str, enc(x.item(), ip, depth + 1)]
    if t is complex:
        return ['c', _f(x.real), _f(x.imag)]
    if isinstance(x, (list, tuple)):
        return [t.__name__, [enc(e, ip, depth + 1) for e in x]]
    if isinstance(x, dict):
        return ['dict', [[enc(k, ip, depth + 1), enc(v, ip, depth + 1)] for k, v in x.items()]]
    if isinstance(x, range):
        return ['range', str(x)]
    if isinstance(x, pd.DataFrame):
        return ['DF', [str(c) for c in x.columns], [str(i) for i in x.index],
                [[enc(e, ip, depth + 1) for e in x.iloc[:, k].tolist()] for k in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ['SER', str(x.name), [str(i) for i in x.index], [enc(e, ip, depth + 1) for e in x.tolist()]]
    if isinstance(x, pd.Index):
        return ['IDX', [str(i) for i in x]]
    if isinstance(x, float):          # float subclasses used as seams
        return ['f', _f(float(x))]
    if isinstance(x, int):
        return ['i', str(int(x))]
    if isinstance(x, BaseException):
        return ['exc', t.__name__]
    if t.__module__.startswith(('matplotlib', 'mpl_toolkits')):
        return ['?', t.__name__]
    if callable(x):
        return ['fn']
    if hasattr(x, '__dict__'):
        return ['obj', t.__name__, [[k, enc(v, ip, depth + 1)] for k, v in sorted(vars(x).items())]]
    return ['?', t.__name__]


def dec_num(e):
    if e[0] == 'i':
        return int(e[1])
    if e[0] == 'f':
        return float.fromhex(e[1]) if e[1] != 'nan' else float('nan')
    raise ValueError(e)


def dec(e, ip):
    """inverse of enc for the operand kinds that may be mutated between operations"""
    if not isinstance(e, list):
        return e
    k = e[0]
    if k in 'if':
        return dec_num(e)
    if k == 'C':
        return ip.ClassicalArithmetic(dec_num(e[1]), dec_num(e[2]))
    if k == 'K':
        return ip.KaucherArithmetic(dec_num(e[1]), dec_num(e[2]))
    if k == 'AI':
        a = np.empty(e[1], dtype=object)
        flat = a.reshape(-1)
        for i, v in enumerate(e[3]):
            flat[i] = dec(v, ip)
        return ip.ArrayInterval(a)
    if k == 'np':
        return np.dtype(e[1]).type(dec(e[2], ip))
    if k == 'nd':
        return np.array([dec(v, ip) if isinstance(v, list) else v for v in e[3]], dtype=e[1]).reshape(e[2])
    if k in ('list', 'tuple'):
        r = [dec(v, ip) for v in e[1]]
        return r if k == 'list' else tuple(r)
    raise ValueError('cannot decode %r' % (e[:2],))


def diff(a, b, path=''):
    """first difference of two encodings, as text"""
    if type(a) is not type(b):
        return '%s: %s != %s' % (path, str(a)[:120], str(b)[:120])
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: length %d != %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + '/%d' % i)
            if d:
                return d
        return None
    return None if a == b else '%s: %s != %s' % (path, a, b)


def show(e, n=400):
    """short readable rendering of an encoding"""
    def r(e):
        if not isinstance(e, list) or not e:
            return repr(e)
        k = e[0]
        if k == 'i':
            return e[1]
        if k == 'f':
            return 'nan' if e[1] == 'nan' else repr(float.fromhex(e[1]))
        if k in ('C', 'K'):
            return '[%s, %s]%s' % (r(e[1]), r(e[2]), '' if k == 'C' else 'k')
        if k == 'AI':
            return 'AI%s{%s}' % (tuple(e[1]), ', '.join(map(r, e[3])))
        if k == 'nd':
            return 'nd%s{%s}' % (tuple(e[2]), ', '.join(map(r, e[3])))
        if k in ('list', 'tuple'):
            return k + '(' + ', '.join(map(r, e[1])) + ')'
        return str(e)
    s = r(e)
    return s if len(s) <= n else s[:n] + '...'


def digest(x):
    """a short name for an encoded value"""
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:12]
