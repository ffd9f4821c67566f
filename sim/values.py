"""Operands: a small JSON language describing every value a simulated client can hold, the code that
builds the real objects from it, and seeded generators for it.

   1.5, 3, true, null, "text"     literals            ["i", n]        python int (kept exact)
   ["I", a, b]                    scalar interval      ["If", a, b]    scalar interval, float endpoints
   ["K", a, b]                    Kaucher interval     ["A", shape, [[a,b],...]]  interval array
   ["nd", shape, [..]]            float64 array        ["ndi", ...]    int64 array, ["np", x] np.float64
   ["$", k]                       pool object k        ["list",[..]] ["tuple",[..]]
   ["yf", x] / ["yi", n]          number operand that calls back into the simulator when used
   ["cb", name, params...]        user callback        ["LC", C, lb, ub, mu]
   ["WILS", alpha, beta]          model                ["ISPAE", alpha, beta, basis]
   ["DF", cols, [[..],..]]        DataFrame of intervals/floats
   ["sl", a, b, c]                slice                ["mask", shape, bits]
"""
import math, operator
from numbers import Number

import numpy as np
import pandas as pd

SIM = None      # the running simulator
STORE = {}      # arrays a simulated client holds between operations
IP = None       # intvalpy


class YInt(int):
    """an int whose arithmetic is user code"""
    def _hook(name):
        f = getattr(int, name)

        def g(self, *a):
            s = SIM
            if s is not None:
                s.seam('num:' + name)
            r = f(self, *a)
            if r is NotImplemented:
                if a and isinstance(a[0], float) and hasattr(float, name):
                    return getattr(float, name)(int.__float__(self), a[0])
            return r
        g.__name__ = name
        return g
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
               '__lt__', '__le__', '__gt__', '__ge__', '__pow__', '__neg__', '__float__', '__abs__', '__mod__'):
        locals()[_n] = _hook(_n)
    __hash__ = int.__hash__


class YFloat(float):
    """a float whose arithmetic is user code"""
    def _hook(name):
        f = getattr(float, name)

        def g(self, *a):
            s = SIM
            if s is not None:
                s.seam('num:' + name)
            return f(self, *a)
        g.__name__ = name
        return g
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
               '__lt__', '__le__', '__gt__', '__ge__', '__pow__', '__neg__', '__float__', '__abs__', '__mod__'):
        locals()[_n] = _hook(_n)
    __hash__ = float.__hash__


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def build(v, pool=None):
    ip = IP
    if v is None or isinstance(v, (bool, str, int, float)):
        return v
    if isinstance(v, dict):
        return {k: build(x, pool) for k, x in v.items()}
    k = v[0]
    if k == '$':
        return pool[v[1]]
    if k == 'i':
        return int(v[1])
    if k == 'np':
        return np.float64(v[1])
    if k == 'yf':
        return YFloat(v[1])
    if k == 'yi':
        return YInt(v[1])
    if k == 'I':
        return ip.ClassicalArithmetic(build(v[1]), build(v[2]))
    if k == 'If':
        return ip.ClassicalArithmetic(float(v[1]), float(v[2]))
    if k == 'K':
        return ip.KaucherArithmetic(build(v[1]), build(v[2]))
    if k == 'A':
        a = np.empty(int(np.prod(v[1])), dtype=object)
        for i, (x, y) in enumerate(v[2]):
            x, y = build(x), build(y)
            a[i] = ip.ClassicalArithmetic(x, y) if x <= y else ip.KaucherArithmetic(x, y)
        return ip.ArrayInterval(a.reshape(v[1]))
    if k == 'nd':
        return np.array(v[2], dtype=np.float64).reshape(v[1])
    if k == 'ndi':
        return np.array(v[2], dtype=np.int64).reshape(v[1])
    if k == 'mask':
        return np.array(v[2], dtype=bool).reshape(v[1])
    if k == 'list':
        return [build(x, pool) for x in v[1]]
    if k == 'tuple':
        return tuple(build(x, pool) for x in v[1])
    if k == 'sl':
        return slice(v[1], v[2], v[3])
    if k == 'LC':
        return ip.LinearConstraint(build(v[1], pool), lb=build(v[2], pool), ub=build(v[3], pool), mu=v[4])
    if k == 'WILS':
        return ip.WILS(alpha=v[1], beta=v[2])
    if k == 'IPlot':
        p = ip.IPlot(figsize=tuple(v[1]))
        p.subplots(nrows=v[2], ncols=v[3])
        return p
    if k == 'ISPAE':
        return ip.ISPAE(alpha=v[1], beta=v[2], basis=v[3])
    if k == 'DF':
        d = pd.DataFrame()
        for j, c in enumerate(v[1]):
            d[c] = [build(row[j]) for row in v[2]]
        return d
    if k == 'cb':
        return CALLBACKS[v[1]](*v[2:])
    raise ValueError('unknown value %r' % (v,))


def opaque(v):
    """values whose identity and internal state are the library's own (rebuilt, never decoded)"""
    return isinstance(v, list) and v and v[0] in ('LC', 'IPlot', 'WILS', 'ISPAE', 'cb', 'DF', 'sl', 'mask', 'yf', 'yi')


# ---------------------------------------------------------------------------------------------
# user callbacks; every call goes through the seam 'cb:<kind>'
CALLBACKS = {}


def callback(name):
    def deco(f):
        CALLBACKS[name] = f
        return f
    return deco


def hostile(v, how):
    """what a user function may answer when it misbehaves"""
    if isinstance(v, tuple):                      # (value, subgradient)
        w = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf'), 'big': 1e300, 'zero': 0.0, 'wide': -1e300}[how]
        return (w, v[1]) if how != 'zero' else (v[0], v[1] * 0)
    if how == 'wide':
        return v + IP.ClassicalArithmetic(-1e6, 1e6)
    return v * {'nan': float('nan'), 'inf': 1e308, '-inf': -1e308, 'big': 1e200, 'zero': 0}[how]


def _wrap(kind, fn):
    def cb(x):
        s = SIM
        r = s.seam('cb:' + kind) if s is not None else None
        if s is not None and s.cblog is not None and s.cur is not None:
            return s.cblog(kind, fn, x, r)
        if r is not None and r['act'] == 'value':
            return hostile(fn(x), r['value'])
        return fn(x)
    cb.plain = fn
    return cb


# convex functions for ralgb5: (value, subgradient)
@callback('cvx_maxlin')
def cvx_maxlin(rows, offs):
    R, o = np.array(rows, float), np.array(offs, float)

    def f(x):
        v = R @ x + o
        k = int(np.argmax(v))
        return v[k], R[k].copy()
    return _wrap('f', f)


@callback('cvx_abs')
def cvx_abs(w, c):
    w, c = np.array(w, float), np.array(c, float)

    def f(x):
        d = x - c
        return float(np.sum(w * np.abs(d))), w * np.sign(d)
    return _wrap('f', f)


@callback('cvx_quad')
def cvx_quad(w, c):
    w, c = np.array(w, float), np.array(c, float)

    def f(x):
        d = x - c
        return float(np.sum(w * d * d)), 2 * w * d
    return _wrap('f', f)


@callback('steps')
def steps(vals, n):
    """an arbitrary scripted function: the k-th call returns the k-th value (not convex on purpose)"""
    state = {'k': 0}

    def f(x):
        k = state['k']
        state['k'] += 1
        v, g = vals[k % len(vals)]
        return v, np.array([g * ((-1) ** j) + 0.01 * j for j in range(n)])
    return _wrap('f', f)


# nonlinear systems with known roots
@callback('sys_f')
def sys_f(kind, c):
    ip = IP

    def f(x):
        if kind == 'sq1':                        # x^2 = c
            return x * x - c[0]
        if kind == 'lin1':                       # c0 x = c1
            return c[0] * x - c[1]
        if kind == 'exp1':                       # exp(x) = c
            return ip.exp(x) - c[0]
        if kind == 'cub1':
            return x * x * x - c[0]
        if kind == 'log1':
            return ip.log(x) - c[0]
        if kind == 'sin1':
            return ip.sin(x) - c[0]
        if kind == 'rose2':                      # x^2+y^2 = c0, x*y = c1
            return ip.asinterval([x[0] * x[0] + x[1] * x[1] - c[0], x[0] * x[1] - c[1]])
        if kind == 'lin2':                       # A x = b
            return ip.asinterval([c[0] * x[0] + c[1] * x[1] - c[4], c[2] * x[0] + c[3] * x[1] - c[5]])
        if kind == 'circ2':                      # x^2+y^2 = c0, x = y + c1
            return ip.asinterval([x[0] * x[0] + x[1] * x[1] - c[0], x[0] - x[1] - c[1]])
        if kind == 'hyp2':                       # x*y = c0, x - c2*y = c1
            return ip.asinterval([x[0] * x[1] - c[0], x[0] - c[2] * x[1] - c[1]])
        if kind == 'chain3':
            return ip.asinterval([x[0] * x[0] - c[0], x[0] * x[1] - c[1], x[1] + x[2] - c[2]])
        raise ValueError(kind)
    return _wrap('f', f)


@callback('sys_J')
def sys_J(kind, c):
    ip = IP
    I = ip.ClassicalArithmetic

    def J(x):
        if kind == 'sq1':
            return 2 * x
        if kind == 'lin1':
            return I(float(c[0]), float(c[0]))
        if kind == 'exp1':
            return ip.exp(x)
        if kind == 'cub1':
            return 3 * (x * x)
        if kind == 'log1':
            return 1 / x
        if kind == 'sin1':
            return ip.cos(x)
        if kind == 'rose2':
            return ip.asinterval([[2 * x[0], 2 * x[1]], [x[1], x[0]]])
        if kind == 'lin2':
            return ip.asinterval([[float(c[0]), float(c[1])], [float(c[2]), float(c[3])]])
        if kind == 'circ2':
            return ip.asinterval([[2 * x[0], 2 * x[1]], [1.0, -1.0]])
        if kind == 'hyp2':
            return ip.asinterval([[x[1], x[0]], [1.0, -float(c[2])]])
        if kind == 'chain3':
            return ip.asinterval([[2 * x[0], 0.0, 0.0], [x[1], x[0], 0.0], [0.0, 1.0, 1.0]])
        raise ValueError(kind)
    return _wrap('J', J)


@callback('glob')
def glob(kind, c):
    def f(x):
        if kind == 'quad':                        # sum (x_i - c_i)^2, minimum 0
            d = x - np.array(c, float)
            r = d[0] ** 2
            for k in range(1, len(c)):
                r = r + d[k] ** 2
            return r
        if kind == 'prod':                        # x0^2 + x1^2 + x0*x1 (natural extension)
            return x[0] ** 2 + x[1] ** 2 + x[0] * x[1] * c[0]
        if kind == 'quart':
            r = (x[0] - c[0]) ** 4
            for k in range(1, len(c)):
                r = r + (x[k] - c[k]) ** 2
            return r
        if kind == 'lin':
            r = x[0] * c[0]
            for k in range(1, len(c)):
                r = r + x[k] * c[k]
            return r
        if kind == 'dep':                         # c.x, with much dependency: long work lists
            return (x[0] - x[1]) * (x[0] + x[1]) - x[0] * x[0] + x[1] * x[1] + x[0] * c[0] + x[1] * c[1]
        if kind == 'wells':                       # sum (x_k^2 - 1)^2, minimum 0 at every (+-1, ..)
            r = 0
            for k in range(len(c)):
                r = r + (x[k] * x[k] - 1) * (x[k] * x[k] - 1)
            return r
        raise ValueError(kind)
    return _wrap('f', f)


# ---------------------------------------------------------------------------------------------
# seeded generators
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.1, 3.0, 1e-300, 5e-324, 1e300, 2.0 ** 53 + 2, 1 / 3, -2.5, 7.0, 1e16, 1e-17]


def g_float(r, big=False):
    k = r.random()
    if k < 0.45:
        return r.randint(-40, 40) / 8
    if k < 0.8:
        return r.uniform(-10, 10)
    if k < 0.9 or not big:
        return r.uniform(-1, 1) * 10 ** r.randint(-3, 3)
    return r.choice(SPECIAL) * r.choice([1, -1])


def g_scalar(r, big=False, pos=False, nz=False):
    """an endpoint pair of a scalar interval"""
    a, b = g_float(r, big), g_float(r, big)
    if r.random() < 0.2:
        b = a
    if pos:
        a, b = abs(a) + 0.05, abs(b) + 0.05
    a, b = min(a, b), max(a, b)
    if nz and a <= 0 <= b:
        s = r.choice([1, -1])
        a, b = sorted((s * (abs(a) + 0.25), s * (abs(b) + 0.25)))
    if r.random() < 0.25:
        a, b = math.floor(a) if abs(a) < 1e6 else a, math.ceil(b) if abs(b) < 1e6 else b
        if nz and a <= 0 <= b:
            a, b = 1, 2
        if pos:
            a = max(a, 1)
            b = max(b, a)
    return a, b


def g_I(r, **kw):
    a, b = g_scalar(r, **kw)
    return ['I', a, b]


def g_arr(r, shape, **kw):
    n = 1
    for s in shape:
        n *= s
    return ['A', list(shape), [list(g_scalar(r, **kw)) for _ in range(n)]]


def g_shape(r):
    return r.choice([[2], [3], [2, 2], [2, 3], [3, 2], [1, 3], [4], [3, 3]])


def g_nd(r, shape):
    n = 1
    for s in shape:
        n *= s
    return ['nd', list(shape), [float(g_float(r)) for _ in range(n)]]


def g_system(r, n=None, m=None, kind=None, rad=None):
    """interval linear system, diagonally dominant unless asked otherwise; floats with short mantissas"""
    n = n or r.choice([2, 2, 2, 3])
    m = m or n
    kind = kind or r.choice(['dd', 'dd', 'dd', 'tri', 'mat', 'wide'])
    A, b = [], []
    rads = [0.0, 0.0625, 0.125, 0.25, 0.5] if rad is None else rad
    x0 = [r.randint(-3, 3) for _ in range(m)]
    for i in range(n):
        rowm = []
        for j in range(m):
            c = r.randint(-4, 4) / r.choice([1, 2, 4])
            if i == j or (i >= m and j == i % m):
                c = (abs(c) + (5 if kind != 'mat' else 2)) * r.choice([1, -1] if kind != 'mat' else [1])
            elif kind == 'tri' and j > i:
                c = 0.0
            elif kind == 'mat':
                c = -abs(c) / 2
            h = r.choice(rads) * (3 if kind == 'wide' else 1)
            rowm.append(c)
            A.append([c - h, c + h])
        h = r.choice([0.0, 0.25, 0.5, 1.0, 2.0])
        c = sum(x * y for x, y in zip(rowm, x0)) if n > m else r.randint(-20, 20) / 4
        b.append([c - h, c + h])
    if n == m and r.random() < .06:           # the pivots are not on the diagonal
        A, b = A[n:] + A[:n], b[1:] + b[:1]
    return ['A', [n, m], A], ['A', [n], b]


def g_rect(r):
    m = 2
    n = r.choice([3, 4])
    return g_system(r, n=n, m=m, kind='dd', rad=[0.0, 0.0625, 0.125])


def g_LC(r, m):
    n = r.choice([1, 2])
    C = ['nd', [n, m], [float(r.choice([-2, -1, 1, 1, 2, 0.5])) for _ in range(n * m)]]
    ub = ['nd', [n], [r.randint(0, 24) / 8 for _ in range(n)]]
    lb = None if r.random() < 0.6 else ['nd', [n], [-r.randint(0, 24) / 8 for _ in range(n)]]
    return ['LC', C, lb, ub, None if r.random() < 0.75 else float(r.choice([1, 5, 20]))]
