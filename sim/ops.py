"""The operations a simulated client can perform: every public entry point of intvalpy.

An operation is {"f": name, "a": {arg: value spec}}.  For each name there is an executor (what the
client does) and a seeded generator of arguments.  `mut` names the arguments the operation exists to
change; every other argument belongs to the caller and must not change.
"""
import copy, math, operator, random

import numpy as np

from . import values as V
from .values import g_I, g_arr, g_float, g_LC, g_nd, g_rect, g_scalar, g_shape, g_system

OPS = {}


class Op:
    def __init__(self, name, gen, run, tags, mut, w):
        self.name, self.gen, self.run, self.tags, self.mut, self.w = name, gen, run, set(tags.split()), set(mut), w


def op(name, tags, gen, mut=(), w=1.0):
    def deco(run):
        OPS[name] = Op(name, gen, run, tags, mut, w)
        return run
    return deco


def execute(o, args):
    return OPS[o['f']].run(V.IP, **args)


# ---- arithmetic ---------------------------------------------------------------------------
BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv,
       'matmul': operator.matmul, 'pow': operator.pow,
       'lt': operator.lt, 'le': operator.le, 'eq': operator.eq, 'ne': operator.ne, 'gt': operator.gt, 'ge': operator.ge}
IBIN = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv}


def g_num(r, big=False):
    k = r.random()
    if k < 0.35:
        return r.randint(-9, 9) or 2
    if k < 0.5:
        return ['np', g_float(r, big) or 1.5]
    return g_float(r, big) or 0.5


def g_operand(r, shape=None, big=False, nz=False, kau=0.1):
    k = r.random()
    if shape is not None and k < 0.45:
        return g_arr(r, shape, big=big, nz=nz)
    if shape is not None and k < 0.6:
        return g_nd(r, shape)
    if k < 0.78:
        a, b = g_scalar(r, big=big, nz=nz)
        if r.random() < kau and a < b:
            return ['K', b, a]
        return ['I', a, b]
    return g_num(r, big)


def listed(r, a, p=.08):
    """the same call with a plain nested list where the partner of an interval array was a numpy array"""
    for u, v in (('x', 'y'), ('y', 'x')):
        if isinstance(a[u], list) and a[u][0] == 'nd' and isinstance(a[v], list) and a[v][0] == 'A' and r.random() < p:
            sh, flat = a[u][1], [int(e) if e == int(e) and abs(e) < 1e9 and r.random() < .3 else e for e in a[u][2]]
            rows = ['list', flat] if len(sh) == 1 else ['list', [['list', flat[i * sh[1]:(i + 1) * sh[1]]] for i in range(sh[0])]]
            return dict(a, **{u: rows})
    return a


def gen_arith(r):
    o = r.choice(['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul', 'div', 'matmul', 'pow'])
    if o == 'matmul':
        n, m = r.choice([(2, 2), (2, 3), (3, 2), (3, 3)])
        x = g_arr(r, [n, m]) if r.random() < 0.7 else g_nd(r, [n, m])
        sh = [m] if r.random() < 0.5 else [m, r.choice([2, 3])]
        y = g_arr(r, sh) if x[0] == 'nd' or r.random() < 0.5 else g_nd(r, sh)
        return listed(r, {'o': o, 'x': x, 'y': y})
    shape = g_shape(r) if r.random() < 0.5 else None
    if o == 'pow':
        return {'o': o, 'x': g_arr(r, shape, pos=r.random() < .6) if shape else g_I(r, pos=r.random() < .6),
                'y': r.choice([0, 1, 2, 3, 4, 0.5, 2.5])}
    x = g_operand(r, shape)
    y = g_operand(r, shape, nz=(o == 'div' and r.random() < 0.9))
    if not (isinstance(x, list) and x[0] in 'IKA') and not (isinstance(y, list) and y[0] in 'IKA'):
        x = g_I(r)
    return listed(r, {'o': o, 'x': x, 'y': y})


@op('arith', 'arith cheap', gen_arith, w=2)
def _(ip, o, x, y):
    return BIN[o](x, y)


def gen_iarith(r):
    shape = g_shape(r)
    o = r.choice(sorted(IBIN))
    return listed(r, {'o': o, 'x': g_arr(r, shape), 'y': g_operand(r, shape, nz=(o == 'div' and r.random() < .8), kau=0)})


@op('iarith', 'arith container mut cheap', gen_iarith, mut='x')
def _(ip, o, x, y):
    x0 = x
    x = IBIN[o](x, y)
    return [x, x is x0]


def gen_cmp(r):
    shape = g_shape(r) if r.random() < .5 else None
    x = g_arr(r, shape) if shape else g_I(r)
    return {'o': r.choice(['lt', 'le', 'eq', 'ne', 'gt', 'ge']), 'x': x, 'y': copy.deepcopy(x) if r.random() < .3 else
            ((g_arr(r, shape) if r.random() < .75 else g_num(r)) if shape else (g_I(r) if r.random() < .6 else g_num(r)))}


@op('cmp', 'arith cheap', gen_cmp)
def _(ip, o, x, y):
    return BIN[o](x, y)


UN = ('neg', 'abs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'sign', 'npsqrt', 'npexp', 'nplog', 'npsin', 'npcos')


def gen_unary(r):
    o = r.choice(UN)
    pos = o in ('sqrt', 'log', 'npsqrt', 'nplog') and r.random() < .9
    return {'o': o, 'x': g_arr(r, g_shape(r), pos=pos) if r.random() < .5 else g_I(r, pos=pos)}


@op('unary', 'arith elem cheap', gen_unary)
def _(ip, o, x):
    if o == 'neg':
        return -x
    if o == 'abs':
        return abs(x)
    if o.startswith('np'):
        return getattr(np, o[2:])(x)
    return getattr(ip, o)(x)


@op('ufunc', 'arith cheap', lambda r: {'o': r.choice(['add', 'subtract', 'multiply', 'divide']),
                                       'x': g_nd(r, [3]) if r.random() < .6 else g_float(r),
                                       'y': g_arr(r, [3], nz=True) if r.random() < .7 else g_I(r, nz=True)})
def _(ip, o, x, y):
    return getattr(np, o)(x, y)


PROPS = ('a', 'b', 'inf', 'sup', 'rad', 'mid', 'wid', 'mig', 'mag', 'dual', 'pro', 'opp', 'inv', 'khi', 'vertex',
         'T', 'shape', 'ndim', 'ranges', 'data', 'copy', 'deepcopy', 'len', 'iter', 'repr', 'to_float', 'array')


@op('prop', 'container cheap', lambda r: {'o': r.choice(PROPS),
                                          'x': g_arr(r, r.choice([[2], [3], [2, 2], [2, 3]]), nz=r.random() < .5) if r.random() < .75 else g_I(r, nz=True)},
    w=1.5)
def _(ip, o, x):
    if o == 'len':
        return len(x)
    if o == 'iter':
        return list(x)
    if o == 'repr':
        return repr(x)
    if o == 'copy':
        return x.copy()
    if o == 'deepcopy':
        return copy.deepcopy(x)
    if o == 'to_float':
        return x.to_float()
    if o == 'array':
        return np.array(x.__array__())
    v = getattr(x, o)
    return np.array(v) if o == 'data' else v


def g_key(r, shape):
    def one(n):
        k = r.random()
        if k < .45:
            return r.randrange(-n, n)
        if k < .8:
            a = r.randrange(0, n)
            return ['sl', a, r.randint(a, n), r.choice([None, 1, 2])]
        if k < .9:
            return ['sl', None, None, None]
        return ['list', [r.randrange(n) for _ in range(r.randint(1, n))]]
    if r.random() < .08:
        return shape[0] + r.randrange(3)         # out of range
    if len(shape) == 1 or r.random() < .3:
        if r.random() < .15:
            n = 1
            for s in shape:
                n *= s
            return ['mask', list(shape), [r.random() < .5 for _ in range(n)]]
        return one(shape[0])
    a, b = one(shape[0]), one(shape[1])
    if isinstance(a, list) and a[0] == 'list' and isinstance(b, list) and b[0] == 'list':
        b = 0
    return ['tuple', [a, b]]


def gen_getitem(r):
    s = g_shape(r)
    return {'x': g_arr(r, s), 'k': g_key(r, s)}


@op('getitem', 'container cheap', gen_getitem)
def _(ip, x, k):
    return x[k]


def gen_setitem(r):
    s = g_shape(r)
    k = r.random()
    v = g_I(r) if k < .5 else g_float(r) if k < .7 else r.randint(-5, 5) if k < .8 else g_arr(r, [r.choice([1, 2, 3])]) if k < .95 else 'bad'
    return {'x': g_arr(r, s), 'k': g_key(r, s), 'v': v}


@op('setitem', 'container mut cheap', gen_setitem, mut='x')
def _(ip, x, k, v):
    x[k] = v
    return x


def gen_delitem(r):
    s = g_shape(r)
    if len(s) == 1 or r.random() < .5:
        return {'x': g_arr(r, s), 'k': r.randrange(s[0] + (r.random() < .1))}
    return {'x': g_arr(r, s), 'k': ['tuple', [['sl', None, None, None], r.randrange(s[1])]]}


@op('delitem', 'container mut cheap', gen_delitem, mut='x')
def _(ip, x, k):
    del x[k]
    return x


@op('reshape', 'container cheap', lambda r: {'x': g_arr(r, [2, 3]), 's': ['tuple', r.choice([[3, 2], [6], [1, 6], [4, 2]])]})
def _(ip, x, s):
    return x.reshape(s)


def gen_contains(r):
    if r.random() < .25:                      # an array in an array of the same shape
        s = g_shape(r)
        x = g_arr(r, s)
        y = g_arr(r, s)
        for i, e in enumerate(x[2]):
            if r.random() < .25:
                y[2][i] = [e[0] + r.choice([0, .25]) * (e[1] - e[0]), e[1]]
        return {'x': x, 'y': y}
    return {'x': g_arr(r, g_shape(r)) if r.random() < .5 else g_I(r), 'y': g_num(r) if r.random() < .5 else g_I(r)}


@op('contains', 'container cheap', gen_contains)
def _(ip, x, y):
    return y in x


# ---- utilities ------------------------------------------------------------------------------
def gen_util(r):
    o = r.choice(['dist', 'diag', 'compmat', 'isnan', 'wid', 'mid', 'rad', 'inf', 'sup', 'mag', 'khi', 'asinterval'])
    if o == 'dist':
        s = g_shape(r)
        return {'o': o, 'x': g_arr(r, s), 'y': g_arr(r, s), 'k': None if r.random() < .6 else r.choice([1, 2])}
    if o == 'diag' and r.random() < .5:       # another diagonal, or a matrix out of one
        n, k = r.choice([1, 2, 3]), r.choice([0, 0, 1, -1, 2])
        return {'o': o, 'x': g_arr(r, [n]) if r.random() < .5 else g_arr(r, [n, r.choice([2, 3])]), 'k': k}
    if o in ('diag', 'compmat'):
        n = r.choice([2, 3])
        return {'o': o, 'x': g_arr(r, [n, n])}
    k = r.random()
    x = g_arr(r, g_shape(r)) if k < .6 else g_I(r) if k < .75 else g_nd(r, [3]) if k < .9 else ['list', r.choice([[g_I(r), g_float(r)], [g_num(r), g_I(r)], [g_I(r), g_num(r), g_I(r)]])]
    return {'o': o, 'x': x}


@op('util', 'util cheap', gen_util)
def _(ip, o, x, y=None, k=None):
    if o == 'dist':
        return ip.dist(x, y) if k is None else ip.dist(x, y, order=k)
    if k is not None:
        return ip.diag(x, k)
    return getattr(ip, o)(x)


def gen_rel(r):
    s = g_shape(r)
    return {'o': r.choice(['subset', 'superset', 'proper_subset', 'proper_superset', 'contain', 'supercontain', 'intersection']),
            'x': g_arr(r, s), 'y': g_arr(r, s)}


def single(r, a):
    """the same relation with one interval, or a number, on one side or on both"""
    a, k = dict(a), r.random()
    one = lambda v: ['I'] + r.choice(v[2])
    num = lambda v: r.choice([v[0], v[1], v[0] if v[0] == v[1] else (v[0] + v[1]) / 2])
    if k < .4:
        a['x'] = one(a['x'])
    elif k < .8:
        a['y'] = one(a['y'])
    else:
        a['x'], a['y'] = one(a['x']), one(a['y'])
    if a['o'] == 'intersection' and r.random() < .3:
        for u, v in (('x', 'y'), ('y', 'x')):
            if a[u][0] == 'A':
                a[u] = r.choice([['nd', a[u][1], [float(num(e)) for e in a[u][2]]], a[u]])
            elif isinstance(a[v], list) and a[v][0] in 'IA' or r.random() < .3:
                a[u] = num(a[u][1:])
                break
    return a


@op('rel', 'util cheap', gen_rel)
def _(ip, o, x, y):
    return getattr(ip, o)(x, y)


def gen_prep(r):
    o = r.choice(['unique', 'non_repeat', 'clear_zero_rows', 'get_shape'])
    n = r.choice([2, 3, 4])
    rows = [[float(r.randint(-1, 1)) for _ in range(2)] for _ in range(n)]
    x = ['nd', [n, 2], sum(rows, [])]
    if o == 'unique':
        return {'o': o, 'x': x}
    if o == 'get_shape':
        return {'o': o, 'x': ['list', [['list', row] for row in rows]]}
    return {'o': o, 'x': x, 'y': ['nd', [n], [float(r.randint(-1, 1)) for _ in range(n)]]}


@op('prep', 'util cheap', gen_prep)
def _(ip, o, x, y=None):
    return getattr(ip, o)(x) if y is None or o in ('unique', 'get_shape') else getattr(ip, o)(x, y)


def gen_ctor(r):
    o = r.choice(['lr', 'pairs', 'two', 'seq', 'again', 'nest', 'lr2', 'one', 'midrad', 'mid1', 'mids', 'zeros', 'full', 'eye', 'Neumaier_system', 'Shary_system', 'Toft_system', 'same'])
    n = r.choice([2, 3])
    if o == 'lr':
        return {'o': o, 'x': g_nd(r, [n]), 'y': g_nd(r, [n]), 's': r.random() < .7}
    if o == 'pairs':
        return {'o': o, 'x': ['list', [['list', [g_float(r), g_float(r)]] for _ in range(n)]], 's': r.random() < .7}
    if o == 'two':
        return {'o': o, 'x': g_num(r), 'y': g_num(r), 's': r.random() < .7}
    if o == 'one':
        return {'o': o, 'x': g_num(r)}
    if o == 'seq':                            # an interval out of two numbers in a sequence
        u, v = g_num(r), g_num(r)
        return {'o': o, 'x': ['nd', [2], [g_float(r), g_float(r)]] if r.random() < .3 else [r.choice(['list', 'tuple']), [u, v]], 's': r.random() < .7}
    if o == 'again':                          # what already is an interval, or an array of them
        u, v = g_scalar(r)
        return {'o': o, 'x': g_arr(r, g_shape(r)) if r.random() < .5 else ['K', v, u] if u < v and r.random() < .4 else ['I', u, v], 's': r.random() < .7}
    if o == 'nest':                           # a matrix of pairs
        m = r.choice([1, 2, 3])
        return {'o': o, 'x': ['list', [['list', [[r.choice(['list', 'tuple']), [g_float(r), g_float(r)]] for _ in range(m)]] for _ in range(n)]], 's': r.random() < .7}
    if o == 'lr2':                            # two matrices, or two lists, of ends
        m = r.choice([1, 2, 3])
        if r.random() < .6:
            return {'o': o, 'x': g_nd(r, [n, m]), 'y': g_nd(r, [n, m]), 's': r.random() < .7}
        return {'o': o, 'x': ['list', [g_float(r) for _ in range(n)]], 'y': ['list', [g_float(r) for _ in range(n)]], 's': r.random() < .7}
    if o == 'mid1':
        return {'o': o, 'x': g_num(r), 'y': abs(g_float(r))}
    if o == 'mids':
        return {'o': o, 'x': ['list', [['list', [g_float(r), abs(g_float(r))]] for _ in range(n)]]}
    if o == 'midrad':
        return {'o': o, 'x': g_nd(r, [n]), 'y': ['nd', [n], [abs(g_float(r)) for _ in range(n)]]}
    if o == 'same':
        return {'o': o, 'x': g_arr(r, [n])}
    vary = r.random() < .5
    n = r.choice([n, n, 5]) if vary else n
    num = lambda lo, hi: r.choice([float(r.randint(lo, hi)), r.uniform(lo, hi)])
    p = {'zeros': lambda: r.choice([None, 0, 1]), 'full': lambda: ['list', [num(-4, 4), num(-4, 4)]],
         'eye': lambda: ['list', [r.choice([None, 1, 2, 4]), r.choice([-2, -1, 0, 1, 2])]],
         'Neumaier_system': lambda: ['list', [num(0, 6), r.choice([None, num(-5, -1)]), r.choice([None, num(-1, 5)])]],
         'Shary_system': lambda: ['list', [r.choice([None, num(n, 9)]), r.choice([.1, .25]), r.choice([.3, .5, 1.0])]],
         'Toft_system': lambda: ['list', [num(0, 3), num(0, 4)]]}[o]
    std = {'Neumaier_system': 3.5, 'Shary_system': n + 2, 'Toft_system': 1.5, 'full': ['list', [-1, 2]], 'eye': ['list', [None, 0]]}
    return {'o': o, 'x': n, 'y': p() if vary else std.get(o)}


@op('ctor', 'ctor cheap', gen_ctor)
def _(ip, o, x, y=None, s=True):
    if o in ('lr', 'two', 'lr2'):
        return ip.Interval(x, y, sortQ=s)
    if o in ('pairs', 'one', 'seq', 'again', 'nest'):
        return ip.Interval(x, sortQ=s)
    if o in ('midrad', 'mid1'):
        return ip.Interval(x, y, midRadQ=True)
    if o == 'mids':
        return ip.Interval(x, midRadQ=True)
    if o == 'same':
        return ip.asinterval(x)
    if o == 'zeros':
        return ip.zeros((x, 2) if y is None else (2, x) if y else x)
    if o == 'full':
        return ip.full(x, *y)
    if o == 'eye':
        return ip.eye(x, *y)
    if isinstance(y, list):
        return list(getattr(ip, o)(x, *y))
    if o == 'Toft_system':
        return list(ip.Toft_system(x, r=y, R=2 * y))
    return list(getattr(ip, o)(x, y))


def gen_lc(r):
    m = r.choice([2, 3])
    lc = g_LC(r, m)
    for k, s in ((2, -1), (3, 1)):            # rows, or a whole side, without a limit
        if lc[k] is not None and r.random() < .3:
            lc[k] = None if r.random() < .3 else [lc[k][0], lc[k][1], [s * float('inf') if r.random() < .6 else v for v in lc[k][2]]]
    return {'C': lc[1], 'lb': lc[2], 'ub': lc[3], 'x': g_nd(r, [m])}


@op('constraint', 'func cheap', gen_lc)
def _(ip, C, lb, ub, x):
    c = ip.LinearConstraint(C, lb=lb, ub=ub)
    mu = c.find_mu(3.0)
    p, dp = ip.BaseRecFun.linear_penalty(x, c)
    return [c.C, c.b, mu, p, dp]


# ---- linear systems -------------------------------------------------------------------------
def gsys(r, **kw):
    A, b = g_system(r, **kw)
    return {'A': A, 'b': b}


@op('Gauss', 'solver mid', gsys)
def _(ip, A, b):
    return ip.Gauss(A, b)


@op('HBR', 'solver mid', gsys)
def _(ip, A, b):
    return ip.HBR(A, b)


def g_tol(r, d, p=.2):
    if r.random() < p:
        d['kw'] = {'tol': r.choice([0, 0, 1e-6, .01, .5])}
    return d


def gen_gs(r):
    d = gsys(r)
    n = d['A'][1][0]
    d['maxiter'] = r.choice([0, 1, 2, 5, 40])
    if r.random() < .4:
        w = r.choice([20, 100])
        d['x0'] = ['A', [n], [[-w, w + r.randint(0, 3)] for _ in range(n)]]
    if r.random() < .3:
        d['C'] = ['nd', [n, n], [float(i == j) for i in range(n) for j in range(n)]]
    return g_tol(r, d)


@op('Gauss_Seidel', 'solver mid', gen_gs)
def _(ip, A, b, maxiter, x0=None, C=None, kw=None):
    return ip.Gauss_Seidel(A, b, x0=x0, C=C, maxiter=maxiter, **(kw or {}))


def gen_rohn(r):
    A, b = g_rect(r) if r.random() < .6 else g_system(r, n=2)
    d = {'A': A, 'b': b, 'consistency': r.choice(['uni', 'uni', 'tol'])}
    return g_tol(r, d)


@op('Rohn', 'solver mid lp', gen_rohn)
def _(ip, A, b, consistency, kw=None):
    return ip.Rohn(A, b, consistency=consistency, **dict({'maxiter': 300}, **(kw or {})))


def gen_pps(r):
    d = gsys(r, kind='dd', n=r.choice([2, 2, 3]))
    d['maxiter'] = r.choice([0, 1, 2, 3, 6, 30])
    d['nu'] = r.choice([None, 0, 1])
    return g_tol(r, d)


@op('PPS', 'solver heavy', gen_pps)
def _(ip, A, b, maxiter, nu=None, kw=None):
    return ip.PPS(A, b, maxiter=maxiter, nu=nu, **(kw or {}))


def gen_pss(r):
    A, b = g_system(r, n=2, kind=r.choice(['dd', 'tri', 'wide'])) if r.random() < .75 else g_rect(r)
    d = {'A': A, 'b': b, 'maxiter': r.choice([0, 1, 2, 3, 6, 25]), 'nu': r.choice([None, 0, 1])}
    if r.random() < .35:
        m = A[1][1]
        d['x0'] = ['A', [m], [[-40.0 - r.randint(0, 9), 40.0 + r.randint(0, 9)] for _ in range(m)]]
    return g_tol(r, d)


@op('PSS', 'solver lp heavy', gen_pss)
def _(ip, A, b, maxiter, nu=None, x0=None, kw=None):
    return ip.PSS(A, b, maxiter=maxiter, nu=nu, x0=x0, **(kw or {}))


def gen_sub(r):
    d = g_tol(r, dict(gsys(r, kind='dd', n=2), maxiter=r.choice([0, 1, 3, 20])))
    if r.random() < .2:
        d['kw'] = dict(d.get('kw') or {}, tau=r.choice([.5, .9]))
    return d


@op('Subdiff', 'solver mid', gen_sub)
def _(ip, A, b, maxiter, kw=None):
    return ip.Subdiff(A, b, maxiter=maxiter, **(kw or {}))


def gen_neumaier(r):
    d = gsys(r)
    m = d['A'][1][1]
    d['y'] = g_nd(r, [m])
    d['w'] = None if r.random() < .5 else ['nd', [m], [float(r.choice([1, 2, 0.5])) for _ in range(m)]]
    return d


@op('Neumaier', 'solver cheap', gen_neumaier)
def _(ip, A, b, y, w=None):
    return ip.Neumaier(A, b, y, w)


# ---- recognizing functionals ----------------------------------------------------------------
def gen_fval(r):
    A, b = g_system(r) if r.random() < .5 else g_rect(r)
    n, m = A[1]
    return {'o': r.choice(['value', 'constituent']), 'which': r.choice(['Tol', 'Uni', 'Uss', 'ChebNorm']), 'A': A, 'b': b,
            'x': g_nd(r, [m]), 'weight': None if r.random() < .5 else ['nd', [n], [r.choice([1.0, 2.0, 0.5]) for _ in range(n)]]}


@op('recfun', 'func cheap lp', gen_fval)
def _(ip, o, which, A, b, x, weight=None):
    return getattr(getattr(ip, which), o)(A, b, x, weight=weight)


def gen_fmax(r):
    A, b = g_system(r) if r.random() < .5 else g_rect(r)
    n, m = A[1]
    if r.random() < .15:                      # the middle of the matrix is singular
        j = r.randrange(m)
        for i in range(n):
            h = A[2][i * m + j][1] - A[2][i * m + j][0]
            A[2][i * m + j] = [-h / 2, h / 2]
    d = {'which': r.choice(['Tol', 'Tol', 'Uni', 'Uss']), 'A': A, 'b': b, 'maxiter': r.choice([0, 1, 2, 5, 20, 60]),
         'x0': None if r.random() < .5 else g_nd(r, [m]),
         'weight': None if r.random() < .5 else ['nd', [n], [r.choice([1.0, 2.0, 0.5]) for _ in range(n)]],
         'lc': None if r.random() < .5 else g_LC(r, m)}
    return d


@op('maximize', 'func opt mid', gen_fmax, w=2)
def _(ip, which, A, b, maxiter, x0=None, weight=None, lc=None):
    return list(getattr(ip, which).maximize(A, b, x0=x0, weight=weight, linear_constraint=lc, maxiter=maxiter))


def gen_cheb(r):
    A, b = g_system(r, n=2)
    return {'A': A, 'b': b, 'maxiter': r.choice([0, 1, 3]), 'lc': None if r.random() < .6 else g_LC(r, 2)}


@op('cheb', 'func opt lp heavy', gen_cheb, w=.6)
def _(ip, A, b, maxiter, lc=None):
    return list(ip.ChebNorm.minimize(A, b, maxiter=maxiter, linear_constraint=lc))


def gen_ive(r):
    A, b = g_system(r, n=2) if r.random() < .5 else g_rect(r)
    return {'A': A, 'b': b, 'N': r.choice([1, 3, 8]), 'seed': r.randrange(1 << 30)}


@op('ive', 'func rng mid', gen_ive, w=.7)
def _(ip, A, b, N, seed):
    np.random.seed(seed)          # the caller's own stream: ive documents that it samples
    return ip.ive(A, b, N=N)


def gen_ralg(r):
    n = r.choice([1, 2, 3])
    k = r.choice(['cvx_maxlin', 'cvx_abs', 'cvx_quad'])
    if k == 'cvx_maxlin':
        rows = [[float(r.randint(-3, 3)) for _ in range(n)] for _ in range(n + 2)]
        rows += [[float(s if i == j else 0) for i in range(n)] for j in range(n) for s in (-1, 1)]
        cb = ['cb', k, rows, [r.randint(-8, 8) / 4 for _ in rows]]
    else:
        cb = ['cb', k, [r.choice([0.5, 1.0, 3.0, 20.0]) for _ in range(n)], [r.randint(-12, 12) / 4 for _ in range(n)]]
    return {'f': cb, 'x0': ['nd', [n], [r.randint(-20, 20) / 4 for _ in range(n)]],
            'maxiter': r.choice([0, 1, 2, 5, 20, 100]), 'kw': {}}


@op('ralgb5', 'opt callback mid', gen_ralg)
def _(ip, f, x0, maxiter, kw=None):
    return list(ip.ralgb5(f, x0, maxiter=maxiter, **(kw or {})))


# ---- nonlinear ------------------------------------------------------------------------------
def g_nl(r):
    """(kind, params, exact roots inside the box, box)"""
    k = r.choice(['sq1', 'lin1', 'exp1', 'cub1', 'log1', 'sin1', 'lin2', 'circ2', 'circ2', 'hyp2', 'hyp2', 'rose2', 'chain3'])
    w = lambda: r.choice([0.125, 0.25, 0.5]) * r.choice([1, 1, .3, 1.5])
    if k == 'log1':
        x = r.choice([1.0, 2.0, 3.0, 0.5])
        return k, [math.log(x)], [x], [[x - w() / 2, x + w()]]
    if k == 'sin1':
        x = r.choice([0.5, -0.5, 0.25, 3.0, -3.0])
        return k, [math.sin(x)], [x], [[x - w(), x + w()]]
    if k == 'rose2':
        x, y = r.choice([(3.0, 1.0), (1.0, 2.5), (-2.0, 0.5), (4.0, -3.0)])
        return k, [x * x + y * y, x * y], [x, y], [[v - w() / 4, v + w() / 4] for v in (x, y)]
    if k == 'sq1':
        x = r.choice([1.0, 1.5, 2.0, 3.0])
        if r.random() < .2:                   # the derivative has a zero in the box
            return k, [x * x], [x], [[-x * r.choice([.25, .5, .9]), x + w()]]
        return k, [x * x], [x], [[x - w(), x + w()]]
    if k == 'lin1':
        x, c = r.randint(-8, 8) / 4, r.choice([1.0, 2.0, -4.0, 0.5])
        return k, [c, c * x], [x], [[x - w(), x + w()]]
    if k == 'exp1':
        c = r.choice([1.0, 2.0, 3.0, 0.5])
        x = math.log(c)
        return k, [c], [x], [[x - w(), x + w()]]
    if k == 'cub1':
        x = r.choice([1.0, 1.5, 2.0])
        return k, [x ** 3], [x], [[x - w() / 2, x + w() / 2]]
    if k == 'lin2':
        M = [r.choice([4.0, -5.0, 6.0]), r.choice([1.0, -1.0, 0.0]), r.choice([1.0, 2.0, 0.0]), r.choice([4.0, 5.0, -6.0])]
        x = [r.randint(-4, 4) / 2, r.randint(-4, 4) / 2]
        return k, M + [M[0] * x[0] + M[1] * x[1], M[2] * x[0] + M[3] * x[1]], x, [[v - w(), v + w()] for v in x]
    if k == 'circ2':
        x, y = r.choice([(3.0, 4.0), (4.0, 3.0), (1.5, 2.0), (2.0, 1.0), (5.0, 12.0)])
        return k, [x * x + y * y, x - y], [x, y], [[v - w() / 2, v + w() / 2] for v in (x, y)]
    if k == 'hyp2':
        x, y, c = r.choice([(2.0, 1.0, 1.0), (3.0, 2.0, 2.0), (1.0, 4.0, -1.0), (2.0, -1.0, -3.0)])
        return k, [x * y, x - c * y, c], [x, y], [[v - w() / 4, v + w() / 4] for v in (x, y)]
    x = [2.0, 1.5, r.randint(-4, 4) / 2]
    return k, [4.0, 3.0, x[1] + x[2]], x, [[v - w() / 4, v + w() / 4] for v in x]


def gen_nl(r):
    k, c, root, box = g_nl(r)
    x0 = ['If', box[0][0], box[0][1]] if k.endswith('1') else ['A', [len(box)], box]
    return g_nltol(r, {'o': r.choice(['Krawczyk', 'HansenSengupta']), 'f': ['cb', 'sys_f', k, c], 'J': ['cb', 'sys_J', k, c], 'x0': x0,
                       'maxiter': r.choice([0, 1, 2, 4, 20]), 'root': ['list', root]})


def g_nltol(r, d):
    g_tol(r, d)
    if d['o'] == 'HansenSengupta' and d.get('kw') == {'tol': 0}:   # its inner iteration has a budget of its own: 2000
        d['kw'] = {'tol': 1e-15}
    return d


@op('nonlin', 'nonlin callback mid', gen_nl)
def _(ip, o, f, J, x0, maxiter, root=None, kw=None):
    return getattr(ip, o)(f, J, x0, maxiter=maxiter, **(kw or {}))


def gen_glob(r):
    n = r.choice([1, 2, 2])
    k = r.choice(['quad', 'quad', 'lin', 'quart', 'wells']) if n == 1 else r.choice(['quad', 'quad', 'prod', 'lin', 'quart', 'dep', 'dep', 'wells'])
    c = [r.randint(-8, 8) / 4 for _ in range(n)]
    if k == 'prod':
        c = [r.choice([1.0, -1.0, 0.5])]
    box = [[-3.0 + r.randint(0, 4) / 4, 2.0 + r.randint(0, 4) / 4] for _ in range(n)]
    return {'f': ['cb', 'glob', k, c], 'x0': ['A', [n], box], 'maxiter': r.choice([0, 1, 2, 5, 15, 30]), 'tol': r.choice([1e-12, 0.1])}


@op('globopt', 'nonlin callback mid', gen_glob)
def _(ip, f, x0, maxiter, tol):
    return list(ip.globopt(f, x0, tol=tol, maxiter=maxiter))


# ---- models ---------------------------------------------------------------------------------
def state(m):
    """what a user can observe of a model's training state"""
    d = {}
    for k, v in sorted(vars(m).items()):
        if callable(v) or (isinstance(v, dict) and any(callable(x) for x in v.values())):
            continue
        d[k] = list(v) if type(v).__name__ in ('Index', 'RangeIndex') else v
    return d


def g_wils_data(r, n=None, m=None):
    n, m = n or r.choice([3, 4]), m or r.choice([1, 2, 2])
    X = ['A', [n, m], []]
    y = ['A', [n], []]
    beta = [r.randint(-3, 3) for _ in range(m)]
    for _ in range(n):
        row = [r.randint(-8, 8) / 2 for _ in range(m)]
        h = r.choice([0, .125, .25])
        X[2] += [[v - h, v + h] for v in row]
        c = sum(a * b for a, b in zip(row, beta)) + r.randint(-2, 2) / 8
        w = r.choice([.25, .5, 1])
        y[2].append([c - w, c + w])
    return X, y


def gen_wfit(r):
    X, y = g_wils_data(r)
    n, m = X[1]
    return {'model': ['WILS', r.choice([0, .25, .5]), r.choice([1, 1, .5])], 'X': X, 'y': y,
            'x0': None if r.random() < .6 else g_nd(r, [m]),
            'weight': None if r.random() < .4 else ['nd', [n], [r.choice([1.0, 2.0, 0.5]) for _ in range(n)]],
            'objective': r.choice(['Tol', 'Tol', 'Uni', 'Uss', 'Bad']), 'norm': r.choice(['inf', 'inf', 'l1']),
            'lc': None if r.random() < .7 else g_LC(r, m)[:4] + [float(r.choice([1, 5]))],
            'maxiter': r.choice([0, 1, 3, 20]), 'Xt': g_arr(r, [2, m]) if r.random() < .6 else g_nd(r, [2, m])}


@op('wils_fit', 'model opt mid', gen_wfit, mut=['model'], w=1.2)
def _(ip, model, X, y, maxiter, x0=None, weight=None, objective='Tol', norm='inf', lc=None, Xt=None):
    model.fit(X, y, x0=x0, weight=weight, objective=objective, norm=norm, constraint=lc, maxiter=maxiter)
    return [state(model), None if Xt is None else model.predict(Xt)]


@op('wils_predict', 'model cheap', lambda r: {'model': ['WILS', 0, 1], 'Xt': g_arr(r, [2, 2])})
def _(ip, model, Xt):
    return [state(model), model.predict(Xt)]


BASES = ['monom', 'chebyshev', 'hermite', 'laguerre', 'legendre']


def gen_ifit(r):
    n, m = r.choice([4, 5]), r.choice([1, 2])
    kind = r.random()
    narrow = r.random() < .6
    rows, ys = [], []
    for i in range(n):
        rows.append([['If', v, v + r.choice([0, .125, .25] if narrow else [0, .25, 1, 2])] for v in [i / 2 + r.randint(-2, 2) / 8 + j for j in range(m)]])
        c = i + r.randint(-4, 4) / 4
        w = r.choice([.5, 1])
        ys.append([c - w, c + w])
    cols = ['u', 'v'][:m]
    X = ['DF', cols, rows] if kind < .6 else ['A', [n, m], [[e[1], e[2]] for row in rows for e in row]]
    if X[0] == 'A':
        X = ['DF', [0, 1][:m], rows]
    order = r.choice([1, 2, ['list', [r.choice([1, 2]) for _ in range(m)]]])
    tot = (order * m if isinstance(order, int) else sum(order[1]))
    bias = r.random() < .7
    return {'model': ['ISPAE', r.choice([0, .25]), 1, r.choice(BASES)], 'X': X, 'y': ['A', [n], ys], 'order': order,
            'x0': None if r.random() < .6 else g_nd(r, [tot + bias]) if r.random() < .5 else ['nd', [tot + bias], [r.choice([-2.0, -1.0, -.5, .5, 1.0, 2.0]) for _ in range(tot + bias)]],
            'weight': None if r.random() < .4 else ['nd', [n], [r.choice([1.0, 2.0, 0.5]) for _ in range(n)]],
            'objective': r.choice(['Tol', 'Tol', 'Uni', 'Bad']), 'norm': r.choice(['inf', 'inf', 'l1']), 'bias': bias,
            'maxiter': r.choice([0, 1, 3]), 'Xt': ['DF', X[1], rows[:2]]}


@op('ispae_fit', 'model opt heavy', gen_ifit, mut=['model'])
def _(ip, model, X, y, maxiter, order=2, x0=None, weight=None, objective='Tol', norm='inf', bias=True, Xt=None):
    model.fit(X, y, order=order, x0=x0, weight=weight, objective=objective, norm=norm, bias=bias, maxiter=maxiter)
    return [state(model), None if Xt is None else model.predict(Xt)]


@op('ispae_predict', 'model cheap', lambda r: {'model': ['ISPAE', 0, 1, 'monom'], 'Xt': ['DF', ['u'], [[['If', 0, 1]], [['If', 1, 1.5]]]]})
def _(ip, model, Xt):
    return [state(model), model.predict(Xt)]


# ---- solution-set rendering -----------------------------------------------------------------
def figs():
    import matplotlib.pyplot as plt
    out = []
    for k in plt.get_fignums():
        fig = plt.figure(k)
        out.append([k, [sum(len(getattr(ax, w)) for w in ('patches', 'lines', 'collections')) for ax in fig.axes]])
    return out


def fine(r, A, b):
    """the same half-planes, or others near them, as numbers that do not end after twelve decimals"""
    k = r.random()
    if k < .2:
        d = r.choice([3., 7., 1.1])
        A, b = [[v / d for v in row] for row in A], [v / d for v in b]
    elif k < .4:
        b = [v - r.random() / 8 for v in b]
    return A, b


def gen_lineqs(r):
    n = r.choice([3, 4, 5])
    if r.random() < .6:                       # box and a few cuts: bounded
        A = [[1., 0.], [-1., 0.], [0., 1.], [0., -1.]]
        b = [-float(r.randint(1, 4)) for _ in range(4)]
        for _ in range(r.randint(0, 2)):
            A.append([float(r.randint(-2, 2)) or 1.0, float(r.randint(-2, 2))])
            b.append(-float(r.randint(1, 6)))
    else:
        A = [[float(r.randint(-2, 2)), float(r.randint(-2, 2))] for _ in range(n)]
        b = [float(r.randint(-4, 1)) for _ in range(n)]
    bounds = None if r.random() < .6 else ['list', [['list', [-6.0, -5.0]], ['list', [6.0, 7.0]]]]
    A, b = fine(r, A, b)
    return {'A': ['nd', [len(A), 2], sum(A, [])], 'b': ['nd', [len(A)], b], 'bounds': bounds, 'show': False}


@op('lineqs', 'plot cheap', gen_lineqs)
def _(ip, A, b, bounds=None, show=False, save=False, title='fig'):
    return ip.lineqs(A, b, show=show, bounds=bounds, save=save, title=title)


def gen_inc2(r):
    n = r.choice([2, 2, 3])
    if r.random() < .7:
        A, b = g_system(r, n=n, m=2, kind='dd')
    else:                                     # possibly unbounded
        A = ['A', [n, 2], [sorted([r.randint(-3, 3) / 1.0, r.randint(-3, 3) / 1.0]) for _ in range(2 * n)]]
        b = ['A', [n], [sorted([r.randint(-4, 4) / 1.0, r.randint(-4, 4) / 1.0]) for _ in range(n)]]
    bounds = None if r.random() < .7 else ['list', [['list', [-6.0, -5.0]], ['list', [6.0, 7.0]]]]
    if r.random() < .08:                      # a system of inequalities is passed on
        a = gen_lineqs(r)
        A, b = a['A'], a['b']
    return {'A': A, 'b': b, 'consistency': r.choice(['uni', 'tol']), 'bounds': bounds, 'show': False}


@op('IntLinIncR2', 'plot mid', gen_inc2, w=1.3)
def _(ip, A, b, consistency, bounds=None, show=False, save=False, title='fig'):
    return ip.IntLinIncR2(A, b, show=show, consistency=consistency, bounds=bounds, save=save, title=title)


def gen_l3(r):
    A = [[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]]
    b = [-float(r.randint(1, 4)) for _ in range(6)]
    for _ in range(r.randint(0, 2)):
        A.append([float(r.randint(-2, 2)) or 1.0, float(r.randint(-2, 2)), float(r.randint(-1, 1))])
        b.append(-float(r.randint(1, 6)))
    if r.random() < .2:
        del A[0], b[0]
    bounds = None if r.random() < .6 else ['list', [['list', [-6.0, -5.0, -6.0]], ['list', [6.0, 7.0, 6.0]]]]
    A, b = fine(r, A, b)
    return {'A': ['nd', [len(A), 3], sum(A, [])], 'b': ['nd', [len(A)], b], 'bounds': bounds}


@op('lineqs3D', 'plot mid', gen_l3, w=.5)
def _(ip, A, b, bounds=None):
    return ip.lineqs3D(A, b, show=False, bounds=bounds)


def gen_inc3(r):
    A, b = g_system(r, n=3, m=3, kind='dd', rad=[0., .25])
    if r.random() < .15:
        a = gen_l3(r)
        A, b = a['A'], a['b']
    return {'A': A, 'b': b, 'consistency': r.choice(['uni', 'tol']), 'bounds': None if r.random() < .6 else ['list', [['list', [-6.0, -5.0, -7.0]], ['list', [6.0, 7.0, 8.0]]]]}


@op('IntLinIncR3', 'plot heavy', gen_inc3, w=.25)
def _(ip, A, b, consistency, bounds=None):
    return ip.IntLinIncR3(A, b, show=False, consistency=consistency, bounds=bounds)


def gen_iplot(r):
    n = r.choice([2, 3, 4])
    k = r.choice(['scatter', 'lineqs', 'IntLinIncR2'])
    d = {'o': k, 'x': g_arr(r, [n]), 'y': g_arr(r, [n]), 'grid': ['list', r.choice([[1, 1], [1, 2], [2, 2]])],
         'color': r.choice(['gray', 'red'])}
    return d


@op('iplot', 'plot draws heavy', gen_iplot, w=.3)
def _(ip, o, x, y, grid, color):
    import matplotlib.pyplot as plt
    p = ip.IPlot(figsize=(2, 2))
    try:
        p.subplots(nrows=grid[0], ncols=grid[1])
        if o == 'scatter':
            p.scatter(x, y, color=color)
        else:
            v = np.column_stack([x.mid, y.mid]).astype(float)
            if o == 'lineqs':
                p.lineqs(v, color=color)
            else:
                p.IntLinIncR2([v, v + 1, []], color=color)
        return [list(p.figsize), [[len(a.patches), len(a.collections), len(a.lines)] for a in p.fig.axes]]
    finally:
        plt.close(getattr(p, 'fig', None)) if getattr(p, 'fig', None) is not None else None


def gen_render(r):
    o = r.choice(['lineqs', 'lineqs', 'IntLinIncR2', 'IntLinIncR2', 'lineqs3D', 'IntLinIncR3'])
    d = {'lineqs': gen_lineqs, 'IntLinIncR2': gen_inc2, 'lineqs3D': gen_l3, 'IntLinIncR3': gen_inc3}[o](r)
    d['o'] = o
    d['show'] = r.random() < .85
    d['kw'] = {'color': r.choice(['gray', 'red', 'blue']), 'alpha': r.choice([0.5, 0.25, 1.0]), 's': r.choice([10, 3]), 'size': ['tuple', r.choice([[1, 1], [2, 1], [1.5, 1.5]])]}
    if not o.endswith(('3D', 'R3')):
        d['kw'].update(save=r.random() < .5, title='t%d' % r.randrange(10 ** 6))
        if r.random() < .1:
            d['kw']['title'] = 'missing/' + d['kw']['title']
    return d


@op('render', 'render draws heavy', gen_render, w=0)
def _(ip, o, A, b, kw, show, bounds=None, consistency=None):
    if consistency is not None:
        kw = dict(kw, consistency=consistency)
    return getattr(ip, o)(A, b, show=show, bounds=bounds, **kw)


@op('userfig', 'draws user', lambda r: {'k': r.randrange(10 ** 6)}, w=0)
def _(ip, k):
    """the client draws something of its own"""
    import matplotlib.pyplot as plt
    plt.figure(figsize=(1, 1))
    plt.plot([0, 1, k % 7], [0, 1, k])
    plt.title('user%d' % k)


def gen_draw(r):
    n = r.choice([2, 3, 4])
    grid = r.choice([[None, None], [1, 2], [2, 1], [2, 2]])
    x, y = g_arr(r, [n]), g_arr(r, [n])
    for v in (x, y):
        for e in v[2]:
            if r.random() < .4:
                e[1] = e[0]
    ax = None if r.random() < .4 else (None if grid[0] is None else r.randrange(2) if grid != [2, 2] else ['tuple', [r.randrange(2), r.randrange(2)]])
    return {'p': ['IPlot', [2, 2], grid[0], grid[1]], 'o': r.choice(['scatter', 'scatter', 'lineqs', 'IntLinIncR2']), 'x': x, 'y': y,
            'kw': {'color': r.choice(['gray', 'red']), 'alpha': r.choice([.5, 1.0]), 's': r.choice([10, 4]), 'axindex': ax}}


@op('iplot_draw', 'draws', gen_draw, mut='p', w=0)
def _(ip, p, o, x, y, kw):
    if o == 'scatter':
        p.scatter(x, y, **kw)
    else:
        v = np.column_stack([x.mid, y.mid]).astype(float)
        if o == 'lineqs':
            p.lineqs(v, **kw)
        else:
            p.IntLinIncR2([v, v + 1, []], **kw)
    return [p.fig.number, [ax.get_subplotspec().num1 for ax in p.fig.axes], list(p.figsize)]


NUMVIEWS = ('a', 'b', 'inf', 'sup', 'rad', 'mid', 'wid', 'mig', 'mag')
IVIEWS = ('dual', 'pro', 'opp', 'neg', 'abs', 'iter', 'reversed', 'float')


def view(x, what):
    """something derived from the contents of an array: nested lists of numbers, or an array / list of intervals"""
    if what in NUMVIEWS:
        return np.asarray(getattr(x, what))
    if what == 'iter':
        return list(x)
    if what == 'reversed':
        return list(reversed(x))
    if what == 'neg':
        return -x
    if what == 'abs':
        return abs(x)
    if what == 'float':
        return x.to_float()
    return getattr(x, what)


@op('cs', 'store', None, w=0)
def _(ip, o, h, d=None, k=None, y=None, op=None, yh=None):
    """one step of a client that keeps interval arrays: h is the array, y the operand, d a new name"""
    S = V.STORE
    if yh is not None:
        y = S[yh]
    if o == 'new':
        S[h] = y
        return None
    x = S[h]
    if o == 'alias':
        S[d] = x
    elif o == 'set':
        x[k] = y
    elif o == 'setfrom':                      # x[k] = y[k2]
        x[k] = y[op]
    elif o == 'del':
        del x[k]
    elif o == 'ib':
        z = IBIN[op](x, y)
        S[h] = z
        return z is x
    elif o == 'view':
        return view(x, op)
    else:
        if o == 'get':
            z = x[k]
        elif o == 'bin':
            z = BIN[op](x, y)
        elif o == 'rbin':
            z = BIN[op](y, x)
        elif o == 'copy':
            z = x.copy()
        elif o == 'deepcopy':
            z = copy.deepcopy(x)
        elif o == 'T':
            z = x.T
        elif o == 'reshape':
            z = x.reshape(k)
        elif o == 'neg':
            z = -x
        if isinstance(z, ip.ArrayInterval):
            S[d] = z
        return z


# ---------------------------------------------------------------------------------------------
def choose(r, tags=None, exclude=(), names=None):
    c = [o for n, o in sorted(OPS.items()) if (names is None or n in names) and (tags is None or o.tags & set(tags)) and not (o.tags & set(exclude))]
    return r.choices(c, [o.w if names is None else o.w or .5 for o in c])[0]


def g_op(r, tags=None, exclude=(), names=None):
    o = choose(r, tags, exclude, names)
    return {'f': o.name, 'a': o.gen(r)}


MOVABLE = ('I', 'If', 'K', 'A', 'nd', 'LC')


def g_program(r, n, tags=None, exclude=(), names=None, share=.6, correlate=.45, models=False):
    """n operations over a shared pool of operands; later operations tend to look like earlier ones"""
    pool, ops = [], []
    model_at = {}
    for _ in range(n):
        if ops and r.random() < correlate:
            base = r.choice(ops)
            o = OPS[base['f']]
            a = copy.deepcopy(base['a'])
            if r.random() < .65:
                alt = o.gen(r)
                for k in list(a):
                    if k in alt and r.random() < .4 and k not in ('f', 'J', 'root'):
                        a[k] = alt[k]
            new = {'f': o.name, 'a': a}
            m = a.get('model')
            if isinstance(m, list) and m[0] == '$' and r.random() < .5:      # the same task for a model made differently
                m = copy.deepcopy(pool[m[1]])
                k = r.choice([1, 2, 3, 3, 3, 3] if m[0] == 'ISPAE' else [1, 2])
                m[k] = {'WILS': lambda: r.choice([0, .25, .5, 1, 2]), 'ISPAE': lambda: r.choice([0, .25, 1]) if k < 3 else r.choice(BASES)}[m[0]]()
                if r.random() < .7:
                    new['a'] = copy.deepcopy(base['a'])
                pool.append(m)
                new['a']['model'] = ['$', len(pool) - 1]
        else:
            new = g_op(r, tags, exclude, names)
        for k in sorted(new['a']):
            v = new['a'][k]
            if not isinstance(v, list):
                continue
            if v[0] in ('WILS', 'ISPAE') and models:
                if v[0] in model_at and r.random() < .75:
                    new['a'][k] = ['$', model_at[v[0]]]
                else:
                    pool.append(v)
                    model_at[v[0]] = len(pool) - 1
                    new['a'][k] = ['$', len(pool) - 1]
            elif v[0] in MOVABLE and r.random() < share:
                same = [i for i, p in enumerate(pool) if p[0] == v[0] and (len(p) < 2 or p[1] == v[1] or v[0] in ('I', 'If', 'K'))]
                if same and r.random() < .3:
                    new['a'][k] = ['$', r.choice(same)]
                else:
                    pool.append(v)
                    new['a'][k] = ['$', len(pool) - 1]
        ops.append(new)
    return pool, ops
