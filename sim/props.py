"""Properties: for each, how a simulated run is drawn from its seed and how its history is judged."""
import copy, math, random

from . import codec, values, ops
from .codec import diff, show

PROPS = {}
HOOKS = {}
CANCEL = ['KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'CancelledError', 'SimCancel']
ERRORS = ['SimFault', 'MemoryError', 'ValueError', 'RuntimeError', 'ZeroDivisionError', 'OSError', 'KeyError']
MODES = ['near', 'down', 'up', 'zero']


class Prop:
    runs = {'quick': 400, 'thorough': 20000}
    components = 'intvalpy (all Python modules and the compiled interval kernel), numpy, cvxopt/GLPK, pandas'

    def make(self, ctx, r):
        raise NotImplementedError

    def judge(self, ctx, spec, res):
        raise NotImplementedError

    def nontrivial(self, spec, res):
        return True


def prop(cls):
    PROPS[cls.id] = cls()
    return cls


class Inconclusive(Exception):
    pass


def execute(ctx, task):
    P = PROPS[task['prop']]
    spec = task.get('spec')
    if spec is None:
        r = random.Random('%s/%s/%s' % (task['prop'], task['seed'], task['i']))
        spec = P.make(ctx, r)
        spec['prop'] = task['prop']
        spec['id'] = [task['seed'], task['i']]
    given = copy.deepcopy(spec)
    if task.get('trace'):
        spec['trace'] = True
    res = ctx.run(spec)
    out = {'viol': [], 'children': 0}
    bad = [k for k in ('timeout', 'crash', 'harness') if k in res] + (['err'] if res.get('err') else [])
    if bad:
        out['inconclusive'] = bad[0] + ': ' + str(res.get(bad[0]))[-600:]
        out['spec'] = given
        return out
    out.update(h=res['h'], steps=res['steps'], switches=res['switches'], stats=res['stats'],
               fired=res['fired'])
    try:
        out['viol'] = P.judge(ctx, given, res) or []
    except Inconclusive as e:
        out['inconclusive'] = str(e)[-600:]
    out['nontrivial'] = bool(P.nontrivial(given, res))
    out['children'], out['nref'] = ctx.children, ctx.nref
    if out['viol'] or task.get('want'):
        out['spec'] = given
        out['outs'] = [[short(x) for x in t] for t in res['ops']]
        out['events'] = res.get('events')
    return out


def short(rec):
    d = {'op': rec['i'], 'out': rec['out'][0] + ' ' + (show(rec['out'][1], 160) if rec['out'][0] == 'ok' else str(rec['out'][1])),
         'points': rec['n']}
    if rec.get('msg'):
        d['msg'] = rec['msg']
    return d


def note(res, key, n=1):
    res['stats'][key] = res['stats'].get(key, 0) + n


# ---- helpers --------------------------------------------------------------------------------
def chk(res):
    for k in ('timeout', 'crash', 'harness'):
        if k in res:
            raise Inconclusive('%s: %s' % (k, str(res[k])[-500:]))
    if res.get('err'):
        raise Inconclusive(str(res['err']))
    return res


def probe(ctx, spec):
    """fault-free execution: how many points does each operation pass, and which seams"""
    p = copy.deepcopy(spec)
    p['faults'], p['sched'] = [], []
    p.pop('observe', None)
    return chk(ctx.run(p))['ops']


def resolved(spec, v):
    return spec['pool'][v[1]] if isinstance(v, list) and v and v[0] == '$' else v


def ref_item(spec, op, pre, lastfit):
    """the same call, alone, in a fresh process: operands re-created from what the caller held"""
    a = {}
    for k, v in op['a'].items():
        ref = isinstance(v, list) and v and v[0] == '$'
        rv = resolved(spec, v)
        if isinstance(rv, list) and rv and rv[0] in ('WILS', 'ISPAE'):
            a[k] = ['M', rv, lastfit.get(v[1]) if ref else None]
        elif values.opaque(rv) or not ref or pre is None:
            a[k] = rv
        else:
            a[k] = ['enc', pre[k]]
    o = {'f': op['f'], 'a': a}
    if 'round' in op:
        o['round'] = op['round']
    return o


def ref_spec(spec, o):
    s = {'pool': [], 'threads': [[o]], 'faults': [], 'sched': []}
    for k in ('ambient', 'cap'):
        if k in spec:
            s[k] = spec[k]
    return s


def ref_out(ctx, spec, o, cache={}):
    return chk(ctx.ref(ref_spec(spec, o)))['ops'][0][0]


def hit(op_rec):
    """was this operation disturbed by a fault that may legitimately change its outcome?"""
    return 'injected' in op_rec or op_rec.get('limit')


def fits(spec, recs):
    """per operation: the fits the models may hold before it, as far as the caller can tell: the last one that
    completed, or one that failed since (the operation predicts after it fits, and either part may have failed)"""
    last, out = {}, []
    for op, rec in zip(spec['threads'][0], recs):
        out.append([{k: v[min(n, len(v) - 1)] for k, v in last.items()}
                    for n in range(max([len(v) for v in last.values()], default=1))])
        m = op['a'].get('model')
        if op['f'].endswith('_fit') and isinstance(m, list) and m[0] == '$':
            it = ref_item(spec, op, rec.get('pre'), {})
            new = {'f': it['f'], 'a': {k: v for k, v in it['a'].items() if k not in ('model', 'Xt')}}
            last[m[1]] = [new] if rec['out'][0] == 'ok' else last.get(m[1], [None]) + [new]
    return out


def same(a, b):
    if a[0] != b[0]:
        return 'outcome %s, expected %s' % (describe(a), describe(b))
    if a[0] == 'exc':
        return None if a[1] == b[1] else 'raised %s, expected %s' % (a[1], b[1])
    return diff(a[1], b[1])


def describe(o):
    return 'an exception (%s)' % o[1] if o[0] == 'exc' else 'a result'


def op_text(spec, op):
    return '%s(%s)' % (op['f'], ', '.join('%s=%s' % (k, str(v)[:60]) for k, v in op['a'].items() if not isinstance(v, list) or v[0] == '$'))


def rnd_point(r, n):
    k = r.random()
    if k < .15:
        return r.randint(1, min(n, 5))
    if k < .25:
        return max(1, n - r.randint(0, 5))
    return r.randint(1, n)


def rnd_seam(r, seams, only=None, notin=()):
    c = [s for s in sorted(seams) if s != '*' and (only is None or s.startswith(only)) and not s.startswith(tuple(notin) or '\0')]
    if not c:
        return None
    s = r.choice(c)
    return s, r.randint(1, seams[s])


def rnd_fault(r, t, i, rec, classes=('line', 'seam'), excs=None):
    """one fault inside operation (t, i), placed with knowledge of the points it passes"""
    excs = excs or (CANCEL + ERRORS)
    kind = r.choice(classes)
    if kind == 'seam':
        s = rnd_seam(r, rec['seams'], notin=('num:',) if r.random() < .3 else ())
        if s:
            if s[0] == 'lp' and r.random() < .6:
                return {'t': t, 'op': i, 'seam': s[0], 'k': s[1], 'act': 'status', 'status': r.choice(['unknown', 'dual infeasible'])}
            if s[0].startswith('la:') and r.random() < .7:
                return {'t': t, 'op': i, 'seam': s[0], 'k': s[1], 'act': 'raise', 'exc': r.choice(['LinAlgError', 'MemoryError'])}
            return {'t': t, 'op': i, 'seam': s[0], 'k': s[1], 'act': 'raise', 'exc': r.choice(excs)}
    if rec['n'] < 1:
        return None
    return {'t': t, 'op': i, 'n': rnd_point(r, rec['n']), 'act': 'raise', 'exc': r.choice(excs)}


def rnd_ambient(r):
    a = {'npseed': r.randrange(1 << 20), 'pyseed': r.randrange(1 << 20)}
    if r.random() < .2:
        a['err'] = {'all': r.choice(['ignore', 'warn'])}
    if r.random() < .1:
        a['dps'] = r.choice([15, 50])
    return a


SLOWISH = {'PPS', 'PSS', 'IntLinIncR3', 'ispae_fit', 'cheb', 'iplot'}


def mutator(r, pool):
    """an operation that changes a pooled array in place (the caller updating its own data)"""
    ks = [k for k, p in enumerate(pool) if p[0] == 'A']
    if not ks:
        return None
    k = r.choice(ks)
    sh = pool[k][1]
    if r.random() < .55:
        key = r.randrange(sh[0]) if len(sh) == 1 else ['tuple', [r.randrange(sh[0]), r.randrange(sh[1])]]
        return {'f': 'setitem', 'a': {'x': ['$', k], 'k': key, 'v': values.g_I(r)}}
    return {'f': 'iarith', 'a': {'o': r.choice(['add', 'sub', 'mul']), 'x': ['$', k], 'y': values.g_I(r) if r.random() < .5 else r.choice([2, 0.5, 3.0, -1])}}


# =============================================================================================
@prop
class C01(Prop):
    """history independence"""
    id = 'C01'
    runs = {'quick': 1000, 'thorough': 40000}

    def make(self, ctx, r):
        n = r.randint(2, 6)
        focus = r.random()
        kw = dict(exclude=('draws',))
        if focus < .35:                       # one entry point, again and again
            kw['names'] = {ops.choose(r, exclude=('draws', 'heavy') if r.random() < .7 else ('draws',)).name}
        elif focus < .55:
            kw['tags'] = r.choice([('solver',), ('func', 'opt'), ('nonlin',), ('model',), ('plot',), ('arith', 'container', 'util')])
        elif focus < .65:                     # models made differently, fed with the same data
            kw.update(names=r.choice([{'ispae_fit'}, {'ispae_fit'}, {'wils_fit'}]), correlate=.85)
            n = r.randint(2, 4)
        elif focus < .9:
            kw['exclude'] = ('draws', 'heavy')
        pool, prog = ops.g_program(r, n, models=True, **kw)
        if r.random() < .5:
            for _ in range(r.randint(1, 2)):
                m = mutator(r, pool)
                if m:
                    prog.insert(r.randint(0, len(prog)), m)
        if r.random() < .5:                   # the last call repeats the first one
            prog.append(copy.deepcopy(prog[0] if r.random() < .5 else r.choice(prog)))
        if r.random() < .6:                   # the client reuses the arrays it got back and passed in
            for op in prog[:-1]:
                if r.random() < .6 and 'mut' not in ops.OPS[op['f']].tags and op['a'].get('o') not in ('ranges', 'data'):   # live parts of an array
                    op['spoil'] = r.choice(['r', 'r', 'r', 'ra', 'a'])
        spec = {'pool': pool, 'threads': [prog], 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        if r.random() < .5:
            p = probe(ctx, spec)[0]
            for _ in range(r.randint(1, 2)):
                i = r.randrange(max(1, len(prog) - 1))
                if 'container' in ops.OPS[prog[i]['f']].tags and 'mut' in ops.OPS[prog[i]['f']].tags:
                    continue                  # a cancelled in-place update may leave its own target half done
                f = rnd_fault(r, 0, i, p[i])
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        recs = res['ops'][0]
        ft = fits(spec, recs)
        out = []
        touched = set()
        for i, (op, rec) in enumerate(zip(spec['threads'][0], recs)):
            if hit(rec) or any(f['op'] == i and fired for f, fired in zip(spec['faults'], res['fired'])):
                continue
            for held in ft[i]:
                ref = ref_out(ctx, spec, ref_item(spec, op, rec['pre'], held))
                d = None if ref.get('limit') or rec.get('limit') else same(rec['out'], ref['out'])
                if not d:
                    break
            if d:
                out.append({'class': 'history:' + op['f'], 'op': i,
                            'what': 'call %d, %s, differs from the same call alone in a fresh process: %s' % (i, op_text(spec, op), d)})
        return out

    def nontrivial(self, spec, res):
        return len(spec['threads'][0]) >= 2


# =============================================================================================
def shared_program(r, nthreads, per, **kw):
    """operations for several threads over one pool; in-place updates only touch thread-private data"""
    pool, prog = ops.g_program(r, nthreads * per, models=False, correlate=.65, **kw)
    for o in prog:
        for k in ops.OPS[o['f']].mut:
            v = o['a'].get(k)
            if isinstance(v, list) and v[0] == '$':
                o['a'][k] = copy.deepcopy(pool[v[1]])
    return pool, [prog[i::nthreads] for i in range(nthreads)]


HEAVYLP = {'PSS', 'PPS', 'Rohn', 'cheb', 'recfun', 'maximize', 'wils_fit'}


def kw_focus(r, heavy=.12):
    f = r.random()
    base = ('draws', 'rng') if r.random() < heavy else ('draws', 'rng', 'heavy')
    kw = dict(exclude=base)
    if f < .5:
        kw['names'] = {ops.choose(r, exclude=base).name}
    elif f < .75:
        kw['tags'] = r.choice([('solver',), ('func', 'opt'), ('nonlin',), ('model',), ('plot',), ('arith', 'container', 'util')])
    return kw


def yieldify(r, spec):
    """turn some numbers the client passes into numbers whose arithmetic is user code"""
    def num(v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return ['yi', v]
        if isinstance(v, float):
            return ['yf', v]
        return v
    for t in spec['threads']:
        for o in t:
            if o['f'] not in ('arith', 'iarith', 'setitem') or r.random() < .3:
                continue
            for k in ('x', 'y', 'v'):
                v = o['a'].get(k)
                if values.is_num(v):
                    o['a'][k] = num(v)
                elif isinstance(v, list) and v[0] == 'I' and all(isinstance(e, int) for e in v[1:3]) and abs(v[1]) < 2**20 and abs(v[2]) < 2**20:
                    o['a'][k] = ['I', num(v[1]), num(v[2])]


def rnd_sched(r, spec, recs, n):
    """context switches at points the operations really pass"""
    out = []
    T = len(spec['threads'])
    cells = [(t, i) for t in range(T) for i in range(len(spec['threads'][t]))]
    mode = r.random()
    if mode > .92:
        out = dense_sched(r, recs)
        mode = 1
    elif mode < .45:                          # a few preemptions
        for _ in range(r.randint(1, 6)):
            t, i = r.choice(cells)
            rec = recs[t][i]
            s = rnd_seam(r, rec['seams']) if r.random() < .35 else None
            if s:
                out.append([t, i, [s[0], s[1]], r.randrange(T)])
            elif rec['n']:
                out.append([t, i, rnd_point(r, rec['n']), r.randrange(T)])
    elif mode < .8:                           # fine-grained ping-pong over a window
        for t, i in cells:
            if recs[t][i]['n'] and r.random() < .8:
                w = r.choice([3, 10, 40, 120])
                a = r.randint(1, recs[t][i]['n'])
                step = r.choice([1, 1, 2, 3])
                for p in range(a, min(a + w, recs[t][i]['n'] + 1), step):
                    out.append([t, i, p, (t + 1) % T])
    else:                                     # uniformly random over whole operations
        for t, i in cells:
            if recs[t][i]['n']:
                for _ in range(r.choice([2, 8, 30])):
                    out.append([t, i, r.randint(1, recs[t][i]['n']), r.randrange(T)])
    for t, i in cells:
        if r.random() < .5:
            out.append([t, i, 0, r.randrange(T)])
    return out


def signature(v):
    """kinds, shapes and options of an operand tree, without the numbers"""
    if isinstance(v, list):
        if v and v[0] in ('A', 'nd', 'ndi', 'mask'):
            return (v[0], tuple(v[1]))
        if v and v[0] in ('I', 'If', 'K'):
            return v[0]
        return tuple(map(signature, v))
    if isinstance(v, dict):
        return tuple((k, signature(v[k])) for k in sorted(v))
    return '#' if isinstance(v, float) else v


def twin(r, op, tries=40):
    """another call of the same operation with different numbers in operands of the same shapes"""
    if r.random() < .2:
        return nudge(r, op, ('near', 'near', 'turn', 'whole'))
    o = ops.OPS[op['f']]
    sig = {k: signature(v) for k, v in op['a'].items()}
    best = None
    for _ in range(tries):
        a = o.gen(r)
        if sorted(a) != sorted(op['a']):
            continue
        bad = [k for k in a if signature(a[k]) != sig[k]]
        if not bad:
            return {'f': op['f'], 'a': a}
        if all(not isinstance(op['a'][k], list) for k in bad):     # other options, same shapes
            best = {'f': op['f'], 'a': dict(a, **{k: op['a'][k] for k in bad})}
    if best:
        return best
    b = copy.deepcopy(op)                     # same matrix, another right-hand side
    for k in sorted(b['a']):
        v = b['a'][k]
        if isinstance(v, list) and v and v[0] == 'A' and len(v[1]) == 1 and k != 'x0':
            f = r.choice([0.5, 2, 4])
            v[2] = [[x * f, y * f] for x, y in v[2]]
    return b


def nudge(r, op, kinds=('near', 'near', 'near', 'whole', 'turn', 'kind')):
    """a call that is nearly an earlier one: other ends a few digits or one rounding away, negated, swapped, of another type"""
    b = copy.deepcopy(op)
    how = r.choice(kinds)
    if how == 'near' and op['f'] == 'prep':    # these take twelve decimals of what they are given
        how = 'turn'
    by = 1 + r.choice([1, -1]) * 2.0 ** -r.choice([3, 8, 14, 20, 27, 32, 40, 48, 51])
    one = r.random() < .4                     # one end only

    def end(v, last):
        if not isinstance(v, (int, float)) or isinstance(v, bool):
            return v
        if how == 'near' and not (one and not last):
            w = v * by
            return w if abs(w) > 1e-290 or v == 0 else v
        if how == 'whole' and abs(v) < 2.0 ** 26 and int(v) != 0:
            return float(int(v))
        if how == 'kind' and v == int(v) and abs(v) < 2.0 ** 26:
            return int(v) if isinstance(v, float) else float(v)
        return v
    raw = lambda v: v[1] if isinstance(v, list) else v

    def pair(e):
        if how == 'turn':
            return [-v for v in e[::-1]] if all(isinstance(v, (int, float)) for v in e) else e
        if how == 'dual':
            return e[::-1]
        n = [end(e[0], raw(e[0]) > raw(e[1])), end(e[1], raw(e[1]) >= raw(e[0]))]
        same = lambda p: (raw(p[0]) > raw(p[1])) - (raw(p[0]) < raw(p[1]))
        return n if same(n) == same(e) or how == 'near' and same(e) == 0 and same(n) < 0 else e
    for k, v in b['a'].items():
        if not isinstance(v, list) or not v:
            continue
        if v[0] in ('I', 'K') and len(v) == 3:
            p = pair(v[1:])
            t = v[0]
            if how == 'dual':
                t = 'K'
            b['a'][k] = [t] + p
        elif v[0] == 'A':
            v[2] = [pair(e) for e in v[2]]
        elif v[0] == 'nd' and how == 'near' and r.random() < .5:
            v[2] = [end(e, True) for e in v[2]]
    return b


def own_operand(r, spec, p=.06):
    """now and then both operands of a call are one and the same object"""
    for t in spec['threads']:
        for op in t:
            a = op['a']
            if op['f'] == 'arith' and a.get('o') in ('add', 'sub', 'mul', 'div') and isinstance(a.get('x'), list) and a['x'][0] in ('I', 'K', 'A') and r.random() < p:
                spec['pool'].append(a['x'])
                a['x'] = a['y'] = ['$', len(spec['pool']) - 1]


def dense_sched(r, recs):
    """rapid alternation over long stretches of both operations"""
    out = []
    T = len(recs)
    whole = r.random() < .5
    for t in range(T):
        for i, rec in enumerate(recs[t]):
            n = rec['n']
            if not n:
                continue
            step = r.choice([1, 1, 2, 3, 7, 20])
            if whole and n < 30000:
                a, b = 1, n + 1
            else:
                a = r.randint(1, n)
                b = min(n + 1, a + r.choice([200, 1000, 5000]))
            out.append([t, i, ['span', a, b, step], (t + 1) % T])
    return out


def judge_all(ctx, spec, res, label, explain, skip=lambda t, i, rec: False):
    out = []
    faulty = {(f['t'], f['op']) for f, fired in zip(spec['faults'], res['fired']) if fired and f['act'] != 'nest'}
    for t, recs in enumerate(res['ops']):
        if len(recs) != len(spec['threads'][t]):
            raise Inconclusive('thread %d stopped early' % t)
        for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
            if (t, i) in faulty or skip(t, i, rec):
                continue
            ref = ref_out(ctx, spec, ref_item(spec, op, rec.get('pre'), {}))
            if ref.get('limit') or rec.get('limit') and rec['n'] <= ref['n'] * (16 if spec.get('gran') == 'ins' else 3) + 20000:
                continue       # the run, not this call, ran out of steps
            d = same(rec['out'], ref['out'])
            if d:
                out.append({'class': label + ':' + op['f'], 'op': [t, i], 'what': explain % (op_text(spec, op), d)})
    return out


@prop
class C02(Prop):
    """thread-interleaving independence"""
    id = 'C02'

    def make(self, ctx, r):
        T = r.choice([2, 2, 2, 3])
        twins = r.random() < .3
        if twins:                             # the same entry point on different data of the same shapes
            T = 2
            first = ops.g_op(r, exclude=('draws', 'rng'), names=r.choice([None, None, HEAVYLP]))
            pool, threads = [], [[first], [twin(r, first)]]
        else:
            pool, threads = shared_program(r, T, r.choice([1, 1, 2]), **kw_focus(r))
        spec = {'pool': pool, 'threads': threads, 'faults': [], 'sched': [], 'gran': r.choice(['line', 'line', 'line', 'ins']), 'observe': ['args'],
                'ambient': rnd_ambient(r)}
        if twins:
            spec['gran'] = 'line'
        yieldify(r, spec)
        recs = probe(ctx, spec)
        spec['sched'] = dense_sched(r, recs) if twins and r.random() < .7 else rnd_sched(r, spec, recs, 0)
        if r.random() < .15:
            t = r.randrange(T)
            i = r.randrange(len(threads[t]))
            f = rnd_fault(r, t, i, recs[t][i]) if spec['gran'] == 'line' else None
            if f:
                spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out = judge_all(ctx, spec, res, 'threads', '%s run concurrently with other threads differs from running alone: %s')
        for t, recs in enumerate(res['ops']):
            for i, rec in enumerate(recs):
                out += unmodified(spec, spec['threads'][t][i], rec, 'threads-args')
        return out

    def nontrivial(self, spec, res):
        return res['switches'] > len(spec['threads']) - 1


def unmodified(spec, op, rec, label):
    out = []
    for k in rec.get('pre', {}):
        if k in ops.OPS[op['f']].mut:
            continue
        shared = [m for m in ops.OPS[op['f']].mut if op['a'].get(m) == op['a'][k] and isinstance(op['a'][k], list) and op['a'][k][0] == '$']
        if shared:
            continue
        if k in ('f', 'J'):
            continue
        d = diff(rec['post'][k], rec['pre'][k])
        if d:
            out.append({'class': label + ':' + op['f'], 'what': '%s changed its argument %s (%s): %s' % (
                op_text(spec, op), k, 'on return' if rec['out'][0] == 'ok' else 'while failing with ' + str(rec['out'][1]), d)})
    return out


# =============================================================================================
@prop
class C03(Prop):
    """re-entrancy"""
    id = 'C03'

    def make(self, ctx, r):
        pool, prog = ops.g_program(r, r.choice([2, 3]), correlate=.7, **kw_focus(r))
        outer, inner = [prog[0]], prog[1:]
        for o in prog:
            for k in ops.OPS[o['f']].mut:
                v = o['a'].get(k)
                if isinstance(v, list) and v[0] == '$':
                    o['a'][k] = copy.deepcopy(pool[v[1]])
        spec = {'pool': pool, 'threads': [outer], 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        if r.random() < .3:
            outer[0]['round'] = r.choice(MODES) if outer[0]['f'] in ('arith', 'cmp', 'unary', 'ufunc') else 'near'
        yieldify(r, spec)
        p = probe(ctx, spec)[0][0]
        for o in inner * r.choice([1, 1, 2]):
            s = rnd_seam(r, p['seams']) if r.random() < .55 else None
            f = {'t': 0, 'op': 0, 'act': 'nest', 'call': copy.deepcopy(o)}
            if s:
                f.update(seam=s[0], k=s[1])
            elif p['n']:
                f.update(n=rnd_point(r, p['n']))
            else:
                continue
            spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out = judge_all(ctx, spec, res, 'reentrant-outer', '%s, interrupted by nested calls into the library, differs from an uninterrupted run: %s')
        rec = res['ops'][0][0]
        for nst in rec.get('nested', ()):
            if nst['out'][0] == 'exc' and nst['out'][1] in ('StepLimit',):
                continue
            ref = ref_out(ctx, spec, ref_item(spec, dict(nst['op'], round=nst['mode'][0]), None, {}))
            if ref.get('limit'):
                continue
            d = same(nst['out'], ref['out'])
            if d:
                out.append({'class': 'reentrant-inner:' + nst['op']['f'],
                            'what': '%s, called from inside %s, differs from the same call on its own: %s' % (op_text(spec, nst['op']), spec['threads'][0][0]['f'], d)})
        out += unmodified(spec, spec['threads'][0][0], rec, 'reentrant-args')
        return out

    def nontrivial(self, spec, res):
        return any(res['fired'])


# =============================================================================================
@prop
class C04(Prop):
    """arguments are never modified"""
    id = 'C04'

    def make(self, ctx, r):
        pool, prog = ops.g_program(r, r.choice([1, 2, 2, 3]), models=True, **({'exclude': ('draws',) + (() if r.random() < .3 else ('heavy',))}))
        spec = {'pool': pool, 'threads': [prog], 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        if r.random() < .65:
            p = probe(ctx, spec)[0]
            for _ in range(r.randint(1, 2)):
                i = r.randrange(len(prog))
                f = rnd_fault(r, 0, i, p[i])
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out = []
        for op, rec in zip(spec['threads'][0], res['ops'][0]):
            out += unmodified(spec, op, rec, 'args')
        return out


# =============================================================================================
@prop
class C05(Prop):
    """cancellation is never swallowed"""
    id = 'C05'

    def make(self, ctx, r):
        names = None
        pool, prog = ops.g_program(r, 1, share=0, exclude=('draws', 'plot') if r.random() < .8 else ('draws',))
        spec = {'pool': pool, 'threads': [prog], 'faults': [], 'sched': [], 'gran': 'line', 'watch_handled': True, 'ambient': rnd_ambient(r)}
        yieldify(r, spec)
        p = probe(ctx, spec)[0][0]
        f = rnd_fault(r, 0, 0, p, excs=CANCEL, classes=('line', 'line', 'seam'))
        if f:
            if f['act'] == 'status' or f.get('exc') not in CANCEL:
                f['act'], f['exc'] = 'raise', r.choice(CANCEL)
                f.pop('status', None)
            spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        rec = res['ops'][0][0]
        if 'injected' not in rec or rec.get('same'):
            return []
        f = spec['faults'][0]
        inlib = any(h[0] for h in rec['swallow'])
        if not inlib and 'n' in f:
            return []                          # discarded inside a C extension of a dependency, not by the library
        what = 'swallowed it and returned normally' if rec['out'][0] == 'ok' else 'turned it into %s' % rec['out'][1]
        return [{'class': 'cancel:' + spec['threads'][0][0]['f'],
                 'what': '%s was cancelled with %s at %s and %s' % (op_text(spec, spec['threads'][0][0]), rec['injected'],
                                                                    'point %d' % f['n'] if 'n' in f else 'seam %s #%d' % (f['seam'], f['k']), what)}]

    def nontrivial(self, spec, res):
        return any(res['fired'])


# =============================================================================================
ARITH_OPS = {'arith', 'iarith', 'cmp', 'unary', 'ufunc', 'prop', 'getitem', 'util', 'rel', 'contains', 'setitem'}
LIGHT = {'Gauss', 'HBR', 'Gauss_Seidel', 'Neumaier', 'recfun', 'ralgb5', 'nonlin', 'globopt', 'Subdiff', 'maximize', 'wils_fit', 'Rohn'}


@prop
class C06(Prop):
    """the caller's rounding mode survives every call"""
    id = 'C06'

    def make(self, ctx, r):
        if r.random() < .12:
            return self.make_callback(ctx, r)
        n = r.randint(1, 3)
        light = r.random() < .3
        pool, prog = ops.g_program(r, n, names=LIGHT if light else {'arith', 'iarith', 'unary', 'prop', 'ufunc'} if r.random() < .75 else ARITH_OPS)
        threads = [prog]
        if r.random() < .25:
            threads.append([copy.deepcopy(o) for o in prog])
            for o in threads[1]:
                for k in ops.OPS[o['f']].mut:
                    v = o['a'].get(k)
                    if isinstance(v, list) and v[0] == '$':
                        o['a'][k] = copy.deepcopy(pool[v[1]])
        spec = {'pool': pool, 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'hook': 'modes', 'ambient': rnd_ambient(r)}
        for t in threads:
            for o in t:
                o['round'] = r.choice(MODES)
        yieldify(r, spec)
        recs = probe(ctx, spec)
        if len(threads) > 1:
            spec['sched'] = rnd_sched(r, spec, recs, 0)
        for t in range(len(threads)):
            for i in range(len(threads[t])):
                k = r.random()
                rec = recs[t][i]
                if k < .55:
                    f = rnd_fault(r, t, i, rec, classes=('seam', 'seam', 'line'))
                    if f:
                        spec['faults'].append(f)
                elif k < .7 and rec['seams']:
                    s = rnd_seam(r, rec['seams'])
                    spec['faults'].append({'t': t, 'op': i, 'seam': s[0], 'k': s[1], 'act': 'nest', 'round': r.choice(MODES + [None]),
                                           'call': ops.g_op(r, names={'arith', 'unary', 'cmp'})})
                elif k < .8 and len(threads) == 1 and threads[t][i]['f'] in ('arith', 'unary', 'prop', 'ufunc', 'iarith'):
                    a = r.randint(0, 60)
                    threads[t][i]['nomem'] = [a, a + 1]
        return spec

    def make_callback(self, ctx, r):
        """arithmetic on numbers whose own arithmetic calls back into the library, or fails, in the middle of an operation"""
        def iv(p=.8):
            a = r.randint(-9, 9)
            b = a + r.randint(0, 9)
            return ['I', ['yi', a] if r.random() < p else a, ['yi', b] if r.random() < p else b]
        o = r.choice(['add', 'sub', 'mul', 'div'])
        x, y = iv(), iv(.5)
        if o == 'div' and r.random() < .7:
            y = ['I'] + [[v[0], abs(v[1]) % 9 + 1 + k * 9] if isinstance(v, list) else abs(v) % 9 + 1 + k * 9 for k, v in enumerate(y[1:])]
        k = r.random()
        if k < .2:
            y = r.choice([ops.g_arr(r, [r.randint(1, 3)], nz=o == 'div'), ops.g_num(r)])
        if k < .1 or .2 < k < .35:
            x, y = y, x
        main = {'f': 'arith', 'a': {'o': o, 'x': x, 'y': y}}
        if k < .1 and isinstance(x, list) and x[0] == 'A' and r.random() < .5:
            main['f'] = 'iarith'
        spec = {'pool': [], 'threads': [[main]], 'faults': [], 'sched': [], 'gran': 'line', 'hook': 'modes', 'ambient': rnd_ambient(r)}
        main['round'] = r.choice(MODES)
        if r.random() < .3:
            spec['threads'].append([copy.deepcopy(main)])
            spec['threads'][1][0]['round'] = r.choice(MODES)
        recs = probe(ctx, spec)
        if len(spec['threads']) > 1:
            spec['sched'] = rnd_sched(r, spec, recs, 0)
        for _ in range(r.randint(1, 2)):
            t = r.randrange(len(spec['threads']))
            s = rnd_seam(r, recs[t][0]['seams'], only='num:')
            if not s:
                continue
            if r.random() < .8:
                inner = {'f': 'arith', 'a': {'o': o if r.random() < .7 else r.choice(['add', 'sub', 'mul', 'div']), 'x': iv(.1), 'y': iv(.1)}}
                if r.random() < .2:
                    inner['a']['x'] = ops.g_arr(r, [2])
                if r.random() < .3:
                    inner['a']['y'] = inner['a']['x']
                spec['faults'].append({'t': t, 'op': 0, 'seam': s[0], 'k': s[1], 'act': 'nest', 'round': r.choice(MODES + [None] * 3), 'call': inner})
            else:
                spec['faults'].append({'t': t, 'op': 0, 'seam': s[0], 'k': s[1], 'act': 'raise', 'exc': r.choice(CANCEL + ERRORS)})
        return spec

    def judge(self, ctx, spec, res):
        out = []
        for t, recs in enumerate(res['ops']):
            for i, rec in enumerate(recs):
                a, b = rec['round']
                if a != b:
                    out.append({'class': 'rounding:' + spec['threads'][t][i]['f'],
                                'what': '%s was entered with rounding mode %s and left it at %s (outcome: %s)' % (
                                    op_text(spec, spec['threads'][t][i]), a, b, rec['out'][0] + ' ' + str(rec['out'][1])[:40])})
                for nst in rec.get('nested', ()):
                    a, b = nst['mode']
                    if a != b:
                        out.append({'class': 'rounding-nested:' + nst['op']['f'], 'what': 'nested %s entered with rounding mode %s left %s' % (nst['op']['f'], a, b)})
        for name, want, got, f in res['extra'].get('modes', ()):
            out.append({'class': 'rounding-callout:' + f, 'what': '%s called user or backend code (%s) with rounding mode %s while its caller runs in %s' % (f, name, got, want)})
        return out

    def nontrivial(self, spec, res):
        return True


def hook_modes(sim, spec, extra):
    """user code and backends called by the library must see the caller's rounding mode"""
    from .core import RNAME, ROUND, _fget
    orig = sim.seam
    log = extra.setdefault('modes', [])

    def seam(name, detail=0):
        t = sim.cur
        if t is not None and not t.mute and name.startswith(('cb:', 'la:', 'lp', 'io:')):
            op = sim.spec['threads'][t.id][t.opi]
            got, want = RNAME.get(_fget(), '?'), op.get('round', 'near')
            if got != want and len(log) < 5:
                log.append([name, want, got, op['f']])
        return orig(name, detail)
    sim.seam = seam


HOOKS['modes'] = hook_modes


# =============================================================================================
class FI:
    """exact interval arithmetic over the rationals (the oracle for enclosure)"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __add__(self, o):
        return FI(self.lo + o.lo, self.hi + o.hi)

    def __sub__(self, o):
        return FI(self.lo - o.hi, self.hi - o.lo)

    def __mul__(self, o):
        p = (self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi)
        return FI(min(p), max(p))

    def __truediv__(self, o):
        if o.lo <= 0 <= o.hi:
            return None                       # not defined: the library refuses
        p = (self.lo / o.lo, self.lo / o.hi, self.hi / o.lo, self.hi / o.hi)
        return FI(min(p), max(p))

    def __neg__(self):
        return FI(-self.hi, -self.lo)

    def __abs__(self):
        p = (abs(self.lo), abs(self.hi))
        return FI(0 if self.lo <= 0 <= self.hi else min(p), max(p))


def exact(e):
    """an encoded operand as exact intervals; None if it is outside the property's domain"""
    import numpy as np
    from fractions import Fraction as Fr
    if isinstance(e, bool) or not isinstance(e, list):
        return None
    k = e[0]
    if k == 'i':
        v = int(e[1])
        return FI(Fr(v), Fr(v)) if abs(v) <= 2**26 else None
    if k == 'f':
        if e[1] in ('nan', 'inf', '-inf'):
            return None
        v = Fr(float.fromhex(e[1]))
        return FI(v, v)
    if k == 'np':
        return exact(e[2])
    if k == 'C':
        a, b = exact(e[1]), exact(e[2])
        return FI(a.lo, b.lo) if a and b and a.lo <= b.lo else None
    if k in ('AI', 'nd', 'ndo'):
        items = e[3] if k != 'ndo' else e[2]
        got = [exact(x if k != 'nd' or isinstance(x, list) else None) for x in items]
        if None in got:
            return None
        r = np.empty(len(got), dtype=object)
        r[:] = got
        return r.reshape(e[1] if k != 'nd' else e[2])
    if k == 'list':
        got = [exact(x) for x in e[1]]
        if any(g is None for g in got):
            return None
        if not all(isinstance(g, FI) for g in got):
            return np.array([list(g) for g in got], dtype=object)
        r = np.empty(len(got), dtype=object)
        r[:] = got
        return r
    return None


def bounds_of(e):
    """encoded result -> list of (lo, hi) or None"""
    if e[0] == 'C':
        return [] , [(e[1], e[2])]
    if e[0] == 'AI':
        return list(e[1]), [(x[1], x[2]) if x[0] in 'CK' else (x, x) for x in e[3]]
    if e[0] == 'ndo':
        return list(e[1]), [(x[1], x[2]) if x[0] in 'CK' else (x, x) for x in e[2]]
    return None


def encloses(lo, hi, want):
    from fractions import Fraction as Fr

    def num(e):
        if e[0] == 'np':
            e = e[2]
        return Fr(int(e[1])) if e[0] == 'i' else float.fromhex(e[1]) if e[1] != 'nan' else None
    a, b = num(lo), num(hi)
    if a is None or b is None:
        return False
    if want is None:
        return a == float('-inf') and b == float('inf')
    f = lambda v: Fr(v) if not isinstance(v, float) or abs(v) != float('inf') else v
    return f(a) <= want.lo and f(b) >= want.hi


def judge_enclosure(op, pre, out, mode):
    """None, or a description of the point the result loses"""
    import numpy as np
    f, o = op['f'], op['a'].get('o')
    x, y = exact(pre.get('x')), exact(pre.get('y'))
    if x is None or (f != 'unary' and y is None) or out[0] != 'ok':
        return None
    try:
        if f == 'unary':
            fn = {'neg': lambda v: -v, 'abs': abs}[o]
            want = fn(x) if isinstance(x, FI) else np.array([fn(v) for v in x.ravel()] + [None], dtype=object)[:-1].reshape(x.shape)
        elif o == 'matmul':
            if x.ndim == 1 or y.ndim == 1 or True:
                want = np.dot(x, y) if min(x.ndim, y.ndim) >= 1 else None
        else:
            want = {'add': lambda: x + y, 'sub': lambda: x - y, 'subtract': lambda: x - y, 'mul': lambda: x * y, 'multiply': lambda: x * y,
                    'div': lambda: x / y, 'divide': lambda: x / y}[o]()
    except (KeyError, ValueError, AttributeError, TypeError):
        return None
    res = out[1]
    if f == 'iarith':
        res = res[1][0]
    got = bounds_of(res)
    if got is None:
        return None
    shape, items = got
    ws = [want] if isinstance(want, FI) or want is None else list(np.ravel(want))
    if (list(np.shape(want)) if not isinstance(want, FI) and want is not None else []) != shape:
        return 'the result has shape %s, not %s' % (shape, list(np.shape(want)) if not isinstance(want, FI) else [])
    for k, ((lo, hi), w) in enumerate(zip(items, ws)):
        if not encloses(lo, hi, w):
            return 'element %d is [%s, %s], which does not contain the exact result %s' % (
                k, show(lo), show(hi), 'of dividing by an interval that contains zero' if w is None else '[%s, %s]' % (repr(float(w.lo)), repr(float(w.hi))))
    return None


def g_enc_op(r):
    o = r.choice(['add', 'sub', 'mul', 'div', 'mul', 'div', 'matmul', 'iadd', 'isub', 'imul', 'idiv', 'ufunc', 'neg', 'abs'])
    big = r.random() < .35
    if o in ('neg', 'abs'):
        return {'f': 'unary', 'a': {'o': o, 'x': ops.g_arr(r, ops.g_shape(r), big=big) if r.random() < .4 else values.g_I(r, big=big)}}
    if o == 'matmul':
        n, m = r.choice([(2, 2), (2, 3), (3, 2), (3, 3), (1, 3)])
        x = ops.g_arr(r, [n, m]) if r.random() < .7 else values.g_nd(r, [n, m])
        sh = [m] if r.random() < .5 else [m, r.choice([1, 2, 3])]
        y = ops.g_arr(r, sh) if x[0] == 'nd' or r.random() < .6 else values.g_nd(r, sh)
        if r.random() < .2:
            x = [x[0], [m], x[2][:m]]
        return {'f': 'arith', 'a': ops.listed(r, {'o': o, 'x': x, 'y': y})}
    if o == 'ufunc':
        return {'f': 'ufunc', 'a': {'o': r.choice(['add', 'subtract', 'multiply', 'divide']),
                                    'x': values.g_nd(r, [3]) if r.random() < .6 else values.g_float(r, big),
                                    'y': ops.g_arr(r, [3], nz=True, big=big) if r.random() < .7 else values.g_I(r, nz=True, big=big)}}
    shape = ops.g_shape(r) if r.random() < .5 else None
    if o[0] == 'i':
        shape = shape or [3]
        return {'f': 'iarith', 'a': ops.listed(r, {'o': o[1:], 'x': ops.g_arr(r, shape, big=big),
                                                 'y': ops.g_operand(r, shape, big=big, nz=o == 'idiv', kau=0)})}
    x = ops.g_operand(r, shape, big=big, kau=0)
    y = ops.g_operand(r, shape, big=big, nz=(o == 'div' and r.random() < .93), kau=0)
    if not (isinstance(x, list) and x[0] in 'IA') and not (isinstance(y, list) and y[0] in 'IA'):
        if r.random() < .5:
            x = values.g_I(r, big=big)
        else:
            y = values.g_I(r, big=big, nz=o == 'div')
    return {'f': 'arith', 'a': ops.listed(r, {'o': o, 'x': x, 'y': y})}


@prop
class C07(Prop):
    """arithmetic encloses under any ambient rounding mode, interleaving, re-entry and earlier failure"""
    id = 'C07'

    def make(self, ctx, r):
        T = r.choice([1, 1, 1, 2, 2, 3])
        threads = [[g_enc_op(r) for _ in range(r.randint(1, 3 if T > 1 else 5))] for _ in range(T)]
        if r.random() < .5:
            for t in threads:
                for i in range(1, len(t)):
                    k = r.random()
                    if k < .3:
                        t[i] = copy.deepcopy(t[0])
                    elif k < .55:
                        t[i] = nudge(r, t[i - 1])
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': r.choice(['line', 'line', 'ins']) if T > 1 else 'line', 'observe': ['args'],
                'ambient': rnd_ambient(r)}
        same_mode = r.choice(MODES + [None, None])
        for t in threads:
            for o in t:
                m = same_mode or r.choice(MODES)
                if m != 'near':
                    o['round'] = m
        yieldify(r, spec)
        recs = probe(ctx, spec)
        if T > 1:
            spec['sched'] = rnd_sched(r, spec, recs, 0)
        for t in range(T):
            for i, rec in enumerate(recs[t]):
                k = r.random()
                nums = {s: c for s, c in rec['seams'].items() if s.startswith('num:')}
                if nums and k < .6:
                    s = r.choice(sorted(nums))
                    if k < .4:
                        c = g_enc_op(r)
                        spec['faults'].append({'t': t, 'op': i, 'seam': s, 'k': r.randint(1, nums[s]), 'act': 'nest', 'call': c,
                                               'round': r.choice(MODES + [None, None])})
                    else:
                        spec['faults'].append({'t': t, 'op': i, 'seam': s, 'k': r.randint(1, nums[s]), 'act': 'raise', 'exc': r.choice(ERRORS + CANCEL)})
                elif k < .7 and rec['n'] and spec['gran'] == 'line':
                    spec['faults'].append({'t': t, 'op': i, 'n': rnd_point(r, rec['n']), 'act': r.choice(['raise', 'raise', 'nest']),
                                           'exc': r.choice(ERRORS + CANCEL), 'call': g_enc_op(r)})
                elif k < .76 and T == 1:
                    a = r.randint(0, 60)
                    threads[t][i]['nomem'] = [a, a + 1]
        for f in spec['faults']:
            if f['act'] == 'raise':
                f.pop('call', None)
            else:
                f.pop('exc', None)
        own_operand(r, spec)
        return spec

    def judge(self, ctx, spec, res):
        out = []
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                d = judge_enclosure(op, rec['pre'], rec['out'], op.get('round'))
                if d:
                    out.append({'class': 'enclosure:%s:%s' % (op['f'], op['a']['o']), 'op': [t, i],
                                'what': '%s %s under rounding mode %s: %s (operands x=%s y=%s)' % (
                                    op['f'], op['a']['o'], op.get('round', 'near'), d, show(rec['pre'].get('x'), 200), show(rec['pre'].get('y'), 200))})
                for nst in rec.get('nested', ()):
                    c = nst['op']
                    pre = {k: spec_enc(v) for k, v in c['a'].items()}
                    d = judge_enclosure(c, pre, nst['out'], None)
                    if d:
                        out.append({'class': 'enclosure-nested:%s:%s' % (c['f'], c['a']['o']), 'op': [t, i],
                                    'what': 'nested %s %s (rounding mode at entry %s): %s' % (c['f'], c['a']['o'], nst['mode'][0], d)})
        return out


def spec_enc(v):
    """encoding of a literal operand spec (numbers, intervals, arrays)"""
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', codec._f(v)]
    if v[0] in ('yi', 'yf', 'np'):
        return spec_enc(int(v[1]) if v[0] == 'yi' else float(v[1]))
    if v[0] == 'I':
        return ['C', spec_enc(v[1]), spec_enc(v[2])]
    if v[0] == 'K':
        return ['K', spec_enc(v[1]), spec_enc(v[2])]
    if v[0] == 'A':
        items = [(spec_enc(a), spec_enc(b)) for a, b in v[2]]
        return ['AI', v[1], None, [['C' if plain(a) <= plain(b) else 'K', a, b] for a, b in items]]
    if v[0] == 'nd':
        return ['nd', '<f8', v[1], [spec_enc(float(x)) for x in v[2]]]
    if v[0] in ('list', 'tuple'):
        return [v[0], [spec_enc(x) for x in v[1]]]
    return None


# =============================================================================================
ELEM = ('exp', 'log', 'sqrt', 'sin', 'cos')
POWERS = [0, 1, 2, 3, 4, 5, 6, 7, 10, 0.5, 2.5, 1.5, -1, -2, -0.5, -1.5]


def g_elem_op(r):
    """an elementary function, a sign or a power of intervals that reach every branch"""
    o = r.choice(['exp', 'log', 'sqrt', 'sin', 'cos', 'sin', 'cos', 'pow', 'pow', 'pow', 'sign'])
    p = r.choice(POWERS) if o == 'pow' else None
    pos = o in ('log', 'sqrt') or p is not None and (p < 0 or isinstance(p, float))

    def num():
        k = r.random()
        if o in ('sin', 'cos') and k < .45:   # at, or a few rounding errors beside, the turning points
            v = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 100, 1001]) * math.pi / 2 * r.choice([1, -1])
            return r.choice([v, v, math.nextafter(v, 9e9), math.nextafter(v, -9e9), v + r.choice([-1, 1]) * 2.0 ** -r.randint(10, 40)])
        if o == 'exp' and k < .3:
            return r.choice([709.0, 709.5, 709.782712893384, 710.0, 745.0, -745.0, -746.0, 1000.0, -1000.0, 700.0, 1e5]) * 1.0
        if o in ('log', 'sqrt') and k < .3:
            return r.choice([0.0, 0.0, 1.0, 5e-324, 1e-300, 1e300, math.nextafter(1, 2), math.nextafter(1, 0)])
        if k < .55:
            return float(r.randint(-12, 12))
        if k < .75:
            return r.uniform(-10, 10)
        if k < .9:
            return r.choice([-1, 1]) * r.uniform(1, 10) * 10.0 ** r.randint(-6, 5 if o in ('sin', 'cos') else 3)
        return r.choice([0.1, 0.5, 1 / 3, math.e, 1.0, 0.0])

    def pair():
        a = num()
        k = r.random()
        b = a if k < .25 else a + r.choice([.1, .5, 1, 1.5, 3, 6, 7, 20]) * r.random() if k < .6 else num()
        if pos and r.random() < .93:
            a, b = abs(a), abs(b)
        a, b = min(a, b), max(a, b)
        if r.random() < .25 and abs(a) < 2.0**26 and abs(b) < 2.0**26:
            a, b = math.floor(a), math.floor(b)
            if r.random() < .4:
                a, b = ['yi', a], ['yi', b]
        elif r.random() < .15:
            a, b = ['yf', a], ['yf', b]
        return [a, b]
    if r.random() < .35:
        sh = r.choice([[1], [2], [3], [2, 2]])
        x = ['A', sh, [pair() for _ in range(math.prod(sh))]]
        if o not in ('pow', 'sign') and r.random() < .15:
            x[2] = [e[::-1] for e in x[2]]
    else:
        x = ['I'] + pair()
        if o not in ('pow', 'sign') and r.random() < .2:
            x = ['K', x[2], x[1]]
    if o == 'pow':
        if x[0] == 'A' and r.random() < .4:   # an exponent of its own for every element
            like = [q for q in POWERS if isinstance(q, int) == isinstance(p, int) and (p < 0 or q >= 0)]
            row = [r.choice(like) for _ in range(x[1][-1])]
            p = ['list', [p] + row[1:] if len(x[1]) == 1 else row]
        return {'f': 'arith', 'a': {'o': 'pow', 'x': x, 'y': p}}
    return {'f': 'unary', 'a': {'o': ('np' if o != 'sign' and r.random() < .5 else '') + o, 'x': x}}


def mp_range(o, p, lo, hi):
    """the exact range of the function over [lo, hi] within its domain, in many digits; None outside it"""
    import mpmath as mp
    with mp.workprec(200):
        lo, hi = mp.mpf(lo), mp.mpf(hi)
        if o == 'exp':
            return mp.exp(lo), mp.exp(hi)
        if o in ('log', 'sqrt'):
            if hi < 0 or o == 'log' and hi == 0 or lo < 0:
                return None
            f = mp.log if o == 'log' else mp.sqrt
            return (mp.mpf('-inf') if o == 'log' and lo == 0 else f(lo)), f(hi)
        if o in ('sin', 'cos'):
            f, top = (mp.sin, mp.pi / 2) if o == 'sin' else (mp.cos, mp.mpf(0))
            u, v = f(lo), f(hi)
            has = lambda c: mp.ceil((lo - c) / (2 * mp.pi)) <= mp.floor((hi - c) / (2 * mp.pi))
            return (mp.mpf(-1) if has(top + mp.pi) else min(u, v)), (mp.mpf(1) if has(top) else max(u, v))
        if isinstance(p, int) and p >= 0:
            u, v = lo ** p, hi ** p
            return (mp.mpf(0) if p and p % 2 == 0 and lo <= 0 <= hi else min(u, v)), max(u, v)
        if lo < 0:
            return None
        if p < 0:
            return (None if hi == 0 else hi ** p), (mp.mpf('inf') if lo == 0 else lo ** p)
        return lo ** p, hi ** p


def plain(e):
    """an encoded number as a float or an int"""
    if e[0] == 'np':
        e = e[2]
    return int(e[1]) if e[0] == 'i' else float('nan') if e[1] == 'nan' else float(e[1]) if e[1] in ('inf', '-inf') else float.fromhex(e[1])


def elem_parts(e):
    """(shape, [(kind, a, b)]) of an encoded interval or array of intervals; None if it is something else"""
    if not isinstance(e, list):
        return None
    if e[0] in 'CK':
        return [], [(e[0], plain(e[1]), plain(e[2]))]
    if e[0] in ('AI', 'ndo'):
        it = e[3] if e[0] == 'AI' else e[2]
        if all(isinstance(x, list) and x and x[0] in 'CK' for x in it):
            return list(e[1]), [(x[0], plain(x[1]), plain(x[2])) for x in it]
    return None


def elem_miss(op, pre, out, clean):
    """None, or how the result fails to be the range of the function"""
    import mpmath as mp
    o, p = op['a']['o'], op['a'].get('y')
    o = o[2:] if o.startswith('np') else o
    X = elem_parts(pre.get('x'))
    if X is None or isinstance(p, list) and X[0][-1:] != [len(p[1])]:
        return None
    want = []
    P = p[1] if isinstance(p, list) else [p]  # an exponent for each element of the last axis
    for k, (kind, a, b) in enumerate(X[1]):
        lo, hi, p = min(a, b), max(a, b), P[k % len(P)]
        if o == 'sign':
            want.append((mp.mpf((lo > 0) - (lo < 0)), mp.mpf((hi > 0) - (hi < 0))))
        else:
            want.append(None if (kind == 'K' or a > b) and lo <= 0 and o in ('log', 'sqrt') else mp_range(o, p, lo, hi))
    if out[0] != 'ok':
        inside = all(w is not None and None not in w and all(v == 0 or 1e-290 < abs(v) < 1e300 or not mp.isfinite(v) for v in w) for w in want)
        return 'raised %s on operands within its domain' % out[1] if clean and inside else None
    G = elem_parts(out[1])
    if G is None or G[0] != X[0]:
        return 'returned %s' % show(out[1], 200)
    big = mp.mpf(1.7976931348623157e308)
    for k, (w, (_, ga, gb), (_, xa, xb)) in enumerate(zip(want, G[1], X[1])):
        if w is None or None in w:
            continue
        p = P[k % len(P)]
        improper = xa > xb
        if improper:
            ga, gb = gb, ga
        for name, g, v, sgn in (('lower', ga, w[0], 1), ('upper', gb, w[1], -1)):
            if g != g:
                return 'the %s end of element %d is nan, the range extends to %s' % (name, k, mp.nstr(v, 18))
            ulp = max(abs(v) * mp.mpf(2) ** -50, mp.mpf(1e-320)) if mp.isfinite(v) else mp.mpf(0)
            if abs(v) > big:
                ok = abs(g) >= big * (1 - 1e-10) and (g > 0) == (v > 0) and (improper or sgn * g <= sgn * v)
            else:
                slack = max(abs(v) * 1e-10, mp.mpf(1e-9) if o in ('sin', 'cos') else mp.mpf(1e-15) if o == 'log' else mp.mpf(1e-300))
                ok = abs(g) != float('inf') and (abs(g - v) <= slack or p == 0) and (improper or sgn * (g - v) <= ulp)
                if not ok and abs(v) > big * (1 - 1e-10):
                    ok = sgn < 0 and g == float('inf')
            if not ok:
                return 'the %s end of element %d is %r, the range extends to %s' % (name, k, g, mp.nstr(v, 20))
    return None


def arith_faults(ctx, r, spec, gen):
    """rounding modes, a schedule, nested calls, raised errors and failing allocations for arithmetic programs"""
    threads, T = spec['threads'], len(spec['threads'])
    same_mode = r.choice(MODES + [None, None])
    for t in threads:
        for o in t:
            m = same_mode or r.choice(MODES)
            if m != 'near':
                o['round'] = m
    recs = probe(ctx, spec)
    if T > 1:
        spec['sched'] = rnd_sched(r, spec, recs, 0)
    for t in range(T):
        for i, rec in enumerate(recs[t]):
            k = r.random()
            nums = {s: c for s, c in rec['seams'].items() if s.startswith('num:')}
            if nums and k < .6:
                s = r.choice(sorted(nums))
                f = {'t': t, 'op': i, 'seam': s, 'k': r.randint(1, nums[s])}
                if k < .4:
                    f.update(act='nest', call=gen(r) if r.random() < .7 else g_enc_op(r), round=r.choice(MODES + [None, None]))
                else:
                    f.update(act='raise', exc=r.choice(ERRORS + CANCEL))
                spec['faults'].append(f)
            elif k < .7 and rec['n'] and spec['gran'] == 'line':
                f = {'t': t, 'op': i, 'n': rnd_point(r, rec['n'])}
                f.update(r.choice([{'act': 'raise', 'exc': r.choice(ERRORS + CANCEL)}, {'act': 'nest', 'call': gen(r)}]))
                spec['faults'].append(f)
            elif k < .76 and T == 1:
                a = r.randint(0, 60)
                threads[t][i]['nomem'] = [a, a + 1]


@prop
class C18(Prop):
    """elementary functions and powers enclose under any rounding mode, interleaving, re-entry and failure"""
    id = 'C18'

    def make(self, ctx, r):
        T = r.choice([1, 1, 1, 2, 2, 3])
        threads = [[g_elem_op(r) for _ in range(r.randint(1, 3 if T > 1 else 5))] for _ in range(T)]
        if r.random() < .5:
            for t in threads:
                for i in range(1, len(t)):
                    k = r.random()
                    if k < .2:
                        t[i] = copy.deepcopy(t[0])
                    elif k < .35:             # the same interval through another function
                        x = copy.deepcopy(t[0]['a']['x'])
                        if x[0] == 'I':
                            t[i]['a']['x'] = x
                    elif k < .65:             # nearly the same interval, often to another power
                        q = t[i]['a'].get('y')
                        t[i] = nudge(r, t[i - 1])
                        if t[i]['a'].get('o') == 'pow' and isinstance(t[i]['a'].get('y'), (int, float)) and isinstance(q, (int, float)) and r.random() < .5:
                            t[i]['a']['y'] = q
                    if k < .45 and r.random() < .2:
                        t[i] = {'f': 'arith', 'a': {'o': r.choice(['add', 'mul']), 'x': values.g_I(r), 'y': values.g_I(r)}}
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': r.choice(['line', 'line', 'ins']) if T > 1 else 'line', 'observe': ['args'],
                'ambient': rnd_ambient(r)}
        arith_faults(ctx, r, spec, g_elem_op)
        return spec

    def judge(self, ctx, spec, res):
        out = []
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                clean = not hit(rec) and 'nomem' not in op and not any((f['t'], f['op']) == (t, i) for f in spec['faults'])
                el = op['f'] == 'unary' and op['a']['o'] not in ('neg', 'abs') or op['a']['o'] == 'pow'
                d = elem_miss(op, rec['pre'], rec['out'], clean) if el else judge_enclosure(op, rec['pre'], rec['out'], op.get('round'))
                if d:
                    out.append({'class': 'range:%s' % op['a']['o'], 'op': [t, i],
                                'what': '%s of %s%s under rounding mode %s: %s' % (
                                    op['a']['o'], show(rec['pre'].get('x'), 200), ' to %s' % op['a']['y'] if op['a']['o'] == 'pow' else '', op.get('round', 'near'), d)})
                for nst in rec.get('nested', ()):
                    c = nst['op']
                    pre = {k: spec_enc(v) for k, v in c['a'].items()}
                    el = c['f'] == 'unary' and c['a']['o'] not in ('neg', 'abs') or c['a']['o'] == 'pow'
                    d = elem_miss(c, pre, nst['out'], False) if el else judge_enclosure(c, pre, nst['out'], None)
                    if d:
                        out.append({'class': 'range-nested:%s' % c['a']['o'], 'op': [t, i],
                                    'what': 'nested %s of %s (rounding mode at entry %s): %s' % (c['a']['o'], show(pre.get('x'), 200), nst['mode'][0], d)})
        return out


# =============================================================================================
class KI:
    """exact Kaucher arithmetic over the rationals: ends in any order"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __add__(self, o):
        return KI(self.a + o.a, self.b + o.b)

    def __sub__(self, o):
        return KI(self.a - o.b, self.b - o.a)

    def __neg__(self):
        return KI(-self.b, -self.a)

    def __mul__(self, o):
        p = lambda v: max(v, 0)
        n = lambda v: max(-v, 0)
        return KI(max(p(self.a) * p(o.a), n(self.b) * n(o.b)) - max(p(self.b) * n(o.a), n(self.a) * p(o.b)),
                  max(p(self.b) * p(o.b), n(self.a) * n(o.a)) - max(p(self.a) * n(o.b), n(self.b) * p(o.a)))

    def __truediv__(self, o):
        if min(o.a, o.b) <= 0 <= max(o.a, o.b):
            raise ZeroDivisionError
        return self * KI(1 / o.b, 1 / o.a)


def kexact(e):
    """an encoded operand as exact Kaucher intervals (array or scalar); None outside the domain"""
    import numpy as np
    from fractions import Fraction as Fr
    if not isinstance(e, list):
        return None

    def one(x):
        if x[0] in 'CK':
            u, v = plain(x[1]), plain(x[2])
        elif x[0] in ('i', 'f', 'np'):
            u = v = plain(x)
        else:
            return None
        for w in (u, v):
            if isinstance(w, int) and abs(w) > 2**26 or w != w or abs(w) == float('inf') or w and not 1e-60 < abs(w) < 1e60:
                return None
        return KI(Fr(u), Fr(v))
    if e[0] in ('AI', 'nd', 'ndo'):
        got = [one(x) for x in (e[2] if e[0] == 'ndo' else e[3])]
        if None in got:
            return None
        r = np.empty(len(got), dtype=object)
        r[:] = got
        return r.reshape(e[2] if e[0] == 'nd' else e[1])
    if e[0] == 'list':
        rows = [kexact(x) for x in e[1]]
        if any(g is None for g in rows):
            return None
        if not all(isinstance(g, KI) for g in rows):
            return np.array([list(g) for g in rows], dtype=object)
        r = np.empty(len(rows), dtype=object)
        r[:] = rows
        return r
    return one(e)


def kau_miss(op, pre, out, clean):
    """None, or how a result differs from the exact result in the Kaucher interval space"""
    import numpy as np
    from fractions import Fraction as Fr
    f, o = op['f'], op['a'].get('o')
    x, y = kexact(pre.get('x')), kexact(pre.get('y'))
    if x is None or f in ('arith', 'iarith', 'ufunc') and y is None:
        return None
    fn = {'neg': lambda v: -v, 'dual': lambda v: KI(v.b, v.a), 'opp': lambda v: KI(-v.a, -v.b), 'inv': lambda v: KI(1 / v.a, 1 / v.b),
          'pro': lambda v: KI(min(v.a, v.b), max(v.a, v.b))}
    two = {'add': lambda: x + y, 'subtract': lambda: x - y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'multiply': lambda: x * y,
           'div': lambda: x / y, 'divide': lambda: x / y, 'matmul': lambda: np.dot(x, y)}
    zero = False
    try:
        if f in ('unary', 'prop'):
            want = fn[o](x) if isinstance(x, KI) else np.array([fn[o](v) for v in x.ravel()] + [None], dtype=object)[:-1].reshape(x.shape)
        elif o == 'matmul':
            if min(np.ndim(x), np.ndim(y)) < 1:
                return None
            want = two[o]()
        else:
            want = two[o]()
    except ZeroDivisionError:
        zero = True
    except (KeyError, ValueError, AttributeError, TypeError):
        return None
    if out[0] != 'ok':
        return 'raised %s on operands in its domain' % out[1] if clean and not zero and out[0] == 'exc' else None
    res = out[1]
    if f == 'iarith':
        res = res[1][0]
    if zero:
        if o == 'inv':
            return None
        # an array may answer with the whole axis for the elements it cannot divide
        got = elem_parts(res)
        Y = list(np.ravel(y)) if not isinstance(y, KI) else [y]
        bad = lambda v: min(v.a, v.b) <= 0 <= max(v.a, v.b)
        if got and len(got[1]) and all(g[1] == float('-inf') and g[2] == float('inf') for g, v in zip(got[1], Y * (len(got[1]) if len(Y) == 1 else 1)) if bad(v)):
            return None
        return 'division by an interval with zero between its ends answered %s' % show(res, 200)
    got = elem_parts(res)
    if got is None:
        return 'returned %s' % show(res, 200)
    ws = [want] if isinstance(want, KI) else list(np.ravel(want))
    if (list(np.shape(want)) if not isinstance(want, KI) else []) != got[0]:
        return 'the result has shape %s, not %s' % (got[0], list(np.shape(want)) if not isinstance(want, KI) else [])
    mag = lambda z: max([max(abs(v.a), abs(v.b)) for v in (np.ravel(z) if not isinstance(z, KI) else [z])] or [0]) if z is not None else 0
    for k, ((kind, ga, gb), w) in enumerate(zip(got[1], ws)):
        scale = max(abs(w.a), abs(w.b))
        if o in ('add', 'sub', 'subtract'):
            scale = mag(x) + mag(y)
        elif o == 'matmul':
            scale = 4 * mag(x) * mag(y)
        for name, g, v, sgn in (('first', ga, w.a, 1), ('second', gb, w.b, -1)):
            if g != g or abs(g) == float('inf'):
                return 'the %s end of element %d is %r, not %r' % (name, k, g, float(v))
            d = sgn * (Fr(g) - v)
            if abs(d) > scale * Fr(1, 10**12) or d > 0:
                return 'the %s end of element %d is %r%s %r' % (name, k, g, ', not' if abs(d) > scale * Fr(1, 10**12) else ', inwards of the exact', float(v))
    return None


def g_kau_op(r):
    """Kaucher arithmetic on operands of every sign, orientation and kind"""
    def num():
        k = r.random()
        if k < .5:
            return float(r.randint(-5, 5))
        if k < .8:
            return r.uniform(-10, 10)
        return r.choice([-1, 1]) * r.uniform(1, 10) * 10.0 ** r.randint(-8, 8)

    def pair(nz):
        a, b = num(), num()
        if r.random() < .1:
            b = a
        if nz and min(a, b) <= 0 <= max(a, b):
            s = r.choice([1, -1])
            a, b = s * (abs(a) + .25), s * (abs(b) + .25)
        if r.random() < .2 and abs(a) < 2**26 and abs(b) < 2**26 and not (nz and min(math.floor(a), math.floor(b)) <= 0 <= max(math.floor(a), math.floor(b))):
            a, b = math.floor(a), math.floor(b)
            if r.random() < .4:
                a, b = ['yi', a], ['yi', b]
        elif r.random() < .15:
            a, b = ['yf', a], ['yf', b]
        return [a, b]
    raw = lambda v: v[1] if isinstance(v, list) else v

    def scal(nz=False):
        a, b = pair(nz)
        if raw(a) <= raw(b):
            return ['K' if r.random() < .3 else 'I', a, b]
        return ['K', a, b]

    def arr(sh, nz=False):
        return ['A', sh, [pair(nz) for _ in range(math.prod(sh))]]
    o = r.choice(['add', 'sub', 'mul', 'mul', 'mul', 'div', 'div', 'matmul', 'iarith', 'ufunc', 'neg', 'dual', 'opp', 'inv', 'pro'])
    sh = r.choice([[2], [3], [2, 2], [1]])
    if o in ('neg', 'dual', 'opp', 'inv', 'pro'):
        x = arr(sh, o == 'inv') if r.random() < .4 else scal(o == 'inv')
        return {'f': 'unary' if o == 'neg' else 'prop', 'a': {'o': o, 'x': x}}
    if o == 'matmul':
        n, m = r.choice([(2, 2), (2, 3), (3, 2)])
        x = arr([n, m]) if r.random() < .8 else values.g_nd(r, [n, m])
        y = [m] if r.random() < .6 else [m, 2]
        return {'f': 'arith', 'a': ops.listed(r, {'o': o, 'x': x, 'y': arr(y) if x[0] == 'nd' or r.random() < .7 else values.g_nd(r, y)}, .15)}
    if o == 'ufunc':
        o = r.choice(['add', 'subtract', 'multiply', 'divide'])
        x = values.g_nd(r, sh) if r.random() < .5 else ['np', num()]
        return {'f': 'ufunc', 'a': {'o': o, 'x': x, 'y': arr(sh, o == 'divide') if r.random() < .5 else scal(o == 'divide' and r.random() < .8)}}
    if o == 'iarith':
        o = r.choice(['add', 'sub', 'mul', 'div'])
        y = r.choice([lambda: arr(sh, o == 'div'), lambda: scal(o == 'div'), lambda: num() or 2.0])()
        return {'f': 'iarith', 'a': {'o': o, 'x': arr(sh), 'y': y}}
    nz = o == 'div' and r.random() < .85

    def other(nz):
        k = r.random()
        if k < .15:
            return (num() or 1.5) if r.random() < .6 else ['np', num() or 1.5]
        if k < .3:
            v = r.choice([-4, -3, -2, -1, 1, 2, 3, 5])
            return ['yi', v] if r.random() < .4 else v
        if k < .45:
            return arr(sh, nz)
        return scal(nz)
    x = arr(sh) if r.random() < .25 else scal()
    y = other(nz)
    if r.random() < .3 and not (o == 'div' and nz):
        x, y = y, x
    elif r.random() < .25 and nz:
        x, y = other(False), scal(True)
    return {'f': 'arith', 'a': {'o': o, 'x': x, 'y': y}}


@prop
class C19(Prop):
    """Kaucher arithmetic is exact up to outward rounding under any rounding mode, interleaving, re-entry and failure"""
    id = 'C19'

    def make(self, ctx, r):
        T = r.choice([1, 1, 1, 2, 2, 3])
        threads = [[g_kau_op(r) for _ in range(r.randint(1, 3 if T > 1 else 6))] for _ in range(T)]
        if r.random() < .4:
            for t in threads:
                for i in range(1, len(t)):
                    k = r.random()
                    if k < .3:
                        t[i] = copy.deepcopy(t[0])
                    elif k < .4:
                        t[i] = g_enc_op(r)
                    elif k < .75:
                        t[i] = nudge(r, t[i - 1], ('near', 'dual', 'dual', 'dual', 'turn', 'kind'))
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': r.choice(['line', 'line', 'ins']) if T > 1 else 'line', 'observe': ['args'],
                'ambient': rnd_ambient(r)}
        arith_faults(ctx, r, spec, g_kau_op)
        own_operand(r, spec)
        return spec

    def judge(self, ctx, spec, res):
        out = []

        def one(op, pre, o, clean, where):
            d = judge_enclosure(op, pre, o, op.get('round')) or kau_miss(op, pre, o, clean)
            if d:
                out.append({'class': 'kaucher%s:%s:%s' % (where[0], op['f'], op['a']['o']), 'op': where[1],
                            'what': '%s %s under rounding mode %s: %s (operands x=%s y=%s)' % (
                                op['f'], op['a']['o'], op.get('round', 'near') if not where[0] else 'of the caller', d, show(pre.get('x'), 200), show(pre.get('y'), 200))})
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                clean = not hit(rec) and 'nomem' not in op and not any((f['t'], f['op']) == (t, i) for f in spec['faults'])
                one(op, rec['pre'], rec['out'], clean, ('', [t, i]))
                for nst in rec.get('nested', ()):
                    one(nst['op'], {k: spec_enc(v) for k, v in nst['op']['a'].items()}, nst['out'], False, ('-nested', [t, i]))
        return out


# =============================================================================================
class Arr:
    """a decoded array: its shape and its elements in order"""
    __slots__ = ('shape', 'items')

    def __init__(self, shape, items):
        self.shape, self.items = list(shape), list(items)

    def map(self, f, *o):
        return Arr(self.shape, [f(*v) for v in zip(self.items, *[w.items for w in o])])


def value_of(e):
    """an encoded value as plain data: numbers, truth values, (a, b) for intervals, Arr, lists"""
    if not isinstance(e, list):
        return e
    k = e[0]
    if k in ('i', 'f'):
        return plain(e)
    if k == 'np':
        return value_of(e[2])
    if k in 'CK':
        return (plain(e[1]), plain(e[2]))
    if k == 'AI':
        return Arr(e[1], [value_of(v) for v in e[3]])
    if k == 'nd':
        return Arr(e[2], [value_of(v) for v in e[3]])
    if k == 'ndo':
        return Arr(e[1], [value_of(v) for v in e[2]])
    if k in ('list', 'tuple'):
        return [value_of(v) for v in e[1]]
    raise Inconclusive('value %s' % str(e)[:60])


def unlike(want, got, tol, path=''):
    """None, or where a decoded value differs from the expected one"""
    if isinstance(want, Arr):
        if not isinstance(got, Arr) or got.shape != want.shape:
            return '%s has shape %s, not %s' % (path or 'the result', getattr(got, 'shape', type(got).__name__), want.shape)
        want, got = want.items, got.items
    if isinstance(want, (list, tuple)):
        if not isinstance(got, type(want)) or len(got) != len(want):
            return '%s is %s, not %s' % (path or 'the result', str(got)[:80], str(want)[:80])
        for i, (u, v) in enumerate(zip(want, got)):
            d = unlike(u, v, tol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(want, bool) or want is None or isinstance(want, str):
        return None if got is want or isinstance(want, bool) and isinstance(got, bool) and got == want else '%s is %r, not %r' % (path or 'the result', got, want)
    if isinstance(got, (Arr, list, tuple, str)) or got is None:
        return '%s is %s, not %r' % (path or 'the result', str(got)[:80], want)
    if got != got or want != want:
        return None if (got != got) == (want != want) else '%s is %r, not %r' % (path or 'the result', got, want)
    return None if got == want or abs(got - want) <= tol else '%s is %r, not %r' % (path or 'the result', got, want)


def sizes(v):
    if isinstance(v, Arr):
        v = v.items
    if isinstance(v, (list, tuple)):
        return max([sizes(x) for x in v] or [0])
    return abs(v) if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v else 0


def grid(v):
    """a decoded two-dimensional array as rows"""
    n, m = v.shape
    return [v.items[i * m:(i + 1) * m] for i in range(n)]


SCALAR = {
    'a': lambda v: v[0], 'inf': lambda v: v[0], 'b': lambda v: v[1], 'sup': lambda v: v[1],
    'wid': lambda v: v[1] - v[0], 'rad': lambda v: (v[1] - v[0]) / 2, 'mid': lambda v: (v[0] + v[1]) / 2,
    'mig': lambda v: 0.0 if v[0] <= 0 <= v[1] else min(abs(v[0]), abs(v[1])), 'mag': lambda v: max(abs(v[0]), abs(v[1])),
    'dual': lambda v: (v[1], v[0]), 'pro': lambda v: (min(v), max(v)), 'opp': lambda v: (-v[0], -v[1]), 'inv': lambda v: (1 / v[0], 1 / v[1]),
    'khi': lambda v: v[0] / v[1] if abs(v[0]) <= abs(v[1]) else v[1] / v[0], 'copy': lambda v: v, 'deepcopy': lambda v: v, 'to_float': lambda v: v,
    'isnan': lambda v: v[0] != v[0] or v[1] != v[1]}
NUMBER = {'wid': lambda v: 0.0, 'rad': lambda v: 0.0, 'mid': lambda v: v, 'inf': lambda v: v, 'sup': lambda v: v, 'mag': abs, 'khi': lambda v: 1}


def each(o, v):
    if isinstance(v, Arr):
        return v.map(lambda e: each(o, e))
    if isinstance(v, list):
        return Arr([len(v)], [each(o, e) for e in v])
    return SCALAR[o](v) if isinstance(v, tuple) else NUMBER[o](v)


def formula(op, pre):
    """(the value the call is defined to have, tolerance) or None where this oracle has no answer"""
    import itertools
    import numpy as np
    f, a = op['f'], op['a']
    o = a.get('o')
    P = {k: value_of(pre.get(k)) for k in a if k not in ('o', 'which')}
    if any(v is None and a[k] is not None for k, v in P.items()):
        return None                           # an argument this oracle cannot read
    x, y = P.get('x'), P.get('y')
    tol = 1e-12 * (1 + sizes(x) + sizes(y))
    if f == 'prop':
        if o == 'iter':
            return [v for v in x.items] if isinstance(x, Arr) and len(x.shape) == 1 else None, tol
        if o == 'len':
            return x.shape[0] if isinstance(x, Arr) else None, tol
        if o == 'shape':
            return (list(x.shape), tol) if isinstance(x, Arr) else None
        if o == 'ndim':
            return (len(x.shape), tol) if isinstance(x, Arr) else None
        if o in ('array', 'data', 'to_float', 'deepcopy'):
            return (x, tol) if isinstance(x, Arr) else None
        if o == 'T':
            return (x if len(x.shape) == 1 else Arr(x.shape[::-1], [grid(x)[i][j] for j in range(x.shape[1]) for i in range(x.shape[0])])) if isinstance(x, Arr) else None, tol
        if o == 'vertex':
            if not isinstance(x, Arr) or len(x.items) > 6:
                return None
            return Arr([2 ** len(x.items)] + x.shape, [v for c in itertools.product(*x.items) for v in c]), tol
        if o == 'khi' and any(e == (0, 0) for e in (x.items if isinstance(x, Arr) else [x])):
            return None
        if o == 'inv':
            if any(0 in e for e in (x.items if isinstance(x, Arr) else [x])):
                return None
            tol = 1e-12 * sizes(each('inv', x))
        return (each(o, x), tol) if o in SCALAR else None
    if f == 'util':
        if o == 'dist':
            d = [max(abs(u[0] - v[0]), abs(u[1] - v[1])) for u, v in zip(x.items, y.items)]
            k = P.get('k')
            return (max(d) if k is None else sum(v ** k for v in d) ** (1 / k)), 4 * tol * len(d)
        if o == 'diag':
            k = P.get('k') or 0
            if len(x.shape) == 1:             # off the diagonal the matrix is zero
                n = len(x.items) + abs(k)
                at = {(i + max(0, -k), i + max(0, k)): v for i, v in enumerate(x.items)}
                return Arr([n, n], [at.get((i, j), (0, 0)) for i in range(n) for j in range(n)]), 0
            n, m = x.shape
            d = [x.items[i * m + i + k] for i in range(n) if 0 <= i + k < m]
            return (Arr([len(d)], d) if d else None), 0
        if o == 'compmat':
            return Arr(x.shape, [SCALAR['mig'](e) if i == j else -SCALAR['mag'](e) for i, row in enumerate(grid(x)) for j, e in enumerate(row)]), 0
        if o == 'asinterval':
            one = lambda v: v if isinstance(v, tuple) else (v, v)
            return (x.map(one) if isinstance(x, Arr) else Arr([len(x)], map(one, x)) if isinstance(x, list) else one(x)), 0
        if o == 'isnan' and not (isinstance(x, tuple) or isinstance(x, Arr) and all(isinstance(e, tuple) for e in x.items)):
            return None
        if o == 'khi' and any(e == (0, 0) for e in (x.items if isinstance(x, Arr) else x if isinstance(x, list) else [x])):
            return None
        return each(o, x), tol
    if f == 'rel':
        pt = lambda v: v if isinstance(v, tuple) else (v, v)
        x, y = [v.map(pt) if isinstance(v, Arr) else pt(v) for v in (x, y)]
        one = not isinstance(x, Arr) and not isinstance(y, Arr)
        if not isinstance(x, Arr):
            x = Arr(y.shape, [x] * len(y.items)) if isinstance(y, Arr) else Arr([1], [x])
        y = y if isinstance(y, Arr) else Arr(x.shape, [y] * len(x.items))
        z = lambda g: x.map(g, y)
        sub = lambda u, v: u[0] >= v[0] and u[1] <= v[1]
        psub = lambda u, v: u[0] > v[0] and u[1] < v[1]
        if o == 'intersection':
            def cut(u, v):
                p, q = max(u[0], v[0]), min(u[1], v[1])
                if abs(p - q) < 1e-13 and p != q:
                    raise Inconclusive('touching')
                return (p, q) if p <= q else (float('nan'), float('nan'))
            return (z(cut).items[0] if one else z(cut)), 0
        return {'subset': lambda: all(z(sub).items), 'superset': lambda: all(y.map(sub, x).items), 'proper_subset': lambda: all(z(psub).items),
                'proper_superset': lambda: all(y.map(psub, x).items), 'contain': lambda: Arr([], z(sub).items) if one else z(sub)}[o]() if o != 'supercontain' else None, 0
    if f == 'prep':
        if o == 'get_shape':
            return [len(x), len(x[0])], 0
        rows = grid(x)
        if o == 'unique':
            keep = [i for i, v in enumerate(rows) if v not in rows[:i]]
            return Arr([len(keep), x.shape[1]], [v for i in keep for v in rows[i]]), 0
        if o == 'clear_zero_rows':
            keep = [i for i, v in enumerate(rows) if any(v)]
            ok = not any(not any(v) and c > 0 for v, c in zip(rows, y.items))
            return [Arr([len(keep), x.shape[1]], [v for i in keep for v in rows[i]]), Arr([len(keep)], [y.items[i] for i in keep]), ok], 0
        return None
    if f == 'cmp':
        def two(u, v):
            u, v = (u if isinstance(u, tuple) else (u, u)), (v if isinstance(v, tuple) else (v, v))
            return {'lt': u[0] < v[0] and u[1] < v[1], 'le': u[0] <= v[0] and u[1] <= v[1], 'gt': u[0] > v[0] and u[1] > v[1],
                    'ge': u[0] >= v[0] and u[1] >= v[1], 'eq': u == v, 'ne': u != v}[o]
        if isinstance(x, Arr):
            return x.map(two, y) if isinstance(y, Arr) else x.map(lambda e: two(e, y)), 0
        return two(x, y), 0
    if f == 'contains':
        # an array holds a number or an interval if one of its elements does
        if isinstance(y, Arr):                # and another array if one of its elements holds the corresponding one
            return any(x.map(lambda e, w: e[0] <= w[0] and w[1] <= e[1], y).items), 0
        w = y if isinstance(y, tuple) else (y, y)
        return any(e[0] <= w[0] and w[1] <= e[1] for e in (x.items if isinstance(x, Arr) else [x])), 0
    if f == 'ctor':
        srt = op['a'].get('s', True)
        pair = lambda u, v: (min(u, v), max(u, v)) if srt else (u, v)
        n = x
        if o == 'lr':
            return x.map(pair, y), 0
        if o == 'two':
            return pair(x, y), 0
        if o == 'one':
            return (x, x), 0
        if o == 'pairs':
            return Arr([len(x)], [pair(*v) for v in x]), 0
        if o == 'midrad':
            return x.map(lambda c, d: (c - d, c + d), y), tol
        if o == 'seq':
            return pair(*(x.items if isinstance(x, Arr) else x)), 0
        if o == 'nest':
            return Arr([len(x), len(x[0])], [pair(*v) for row in x for v in row]), 0
        if o == 'lr2':
            return x.map(pair, y) if isinstance(x, Arr) else Arr([len(x)], map(pair, x, y)), 0
        if o == 'mid1':
            return (x - y, x + y), tol
        if o == 'mids':
            return Arr([len(x)], [(c - d, c + d) for c, d in x]), tol
        if o in ('same', 'again'):
            return x, 0
        y = op['a'].get('y')
        q = list(y[1]) if isinstance(y, list) else [y, 2 * y] if o == 'Toft_system' else [y]
        if o == 'zeros':
            sh = [n, 2] if y is None else [2, n] if y else [n]
            return Arr(sh, [(0, 0)] * math.prod(sh)), 0
        if o == 'full':
            return Arr([n], [tuple(q)] * n), 0
        mat = lambda g: Arr([n, n], [g(i, j) for i in range(n) for j in range(n)])
        if o == 'eye':
            m = n if q[0] is None else q[0]
            return Arr([n, m], [(1, 1) if j - i == q[1] else (0, 0) for i in range(n) for j in range(m)]), 0
        if o == 'Neumaier_system':
            th, u, v = (q + [None, None])[:3]
            return [mat(lambda i, j: (th, th) if i == j else (0, 2)), Arr([n], [tuple(sorted((-1 if u is None else u, 1 if v is None else v)))] * n)], 1e-12
        if o == 'Shary_system':
            N, al, be = q if len(q) == 3 else (q[0], .23, .35)
            if N is not None and N < n - 1 or not 0 <= al <= be <= 1:
                return None                   # refused by design
            return [mat(lambda i, j: (n - 1, n if N is None else N) if i == j else (al - 1, 1 - be)), Arr([n], [(1 - n, n - 1)] * n)], 1e-12
        if o == 'Toft_system':
            e, R = q
            if min(q) < 0:
                return None
            edge = lambda k: (k + 1 - e, k + 1 + e)
            return [mat(lambda i, j: edge(max(0, min(i, j))) if n - 1 in (i, j) else (1 - e, 1 + e) if i == j else (0, 0)),
                    Arr([n], [(1 - R, 1 + R)] * n)], 1e-12
        return None
    if f == 'recfun':
        if a['which'] not in ('Tol', 'Uni', 'Uss'):
            return None
        v = functional(a['which'], a['A'], a['b'], np.array(x.items, float), a.get('weight'))
        tol = 1e-11 * (1 + sizes(P['A'])) * (1 + sizes(x)) * 4
        return (Arr([len(v)], [float(e) for e in v]) if o == 'constituent' else float(v.min())), tol
    if f == 'constraint':
        C, n = grid(P['C']), P['C'].shape[0]
        rows = [([-v for v in C[k]], -P['lb'].items[k]) for k in range(n) if P['lb'] and P['lb'].items[k] != -INF and any(C[k])] + \
            [(C[k], P['ub'].items[k]) for k in range(n) if P['ub'] and P['ub'].items[k] != INF and any(C[k])]
        rows = rows or [(C[0], INF)]
        cols = [[v for v in c if v] for c in zip(*[c for c, _ in rows])]
        den = min(abs(sum(v)) for c in cols for k in range(1, len(c) + 1) for v in itertools.combinations(c, k))
        if den == 0:
            return None
        over = [(c, sum(u * v for u, v in zip(c, x.items)) - b) for c, b in rows]
        if any(abs(v) < 1e-9 for _, v in over):
            return None
        return [Arr([len(rows), len(C[0])], [v for c, _ in rows for v in c]), Arr([len(rows)], [b for _, b in rows]), 3 / den,
                3 / den * sum(max(0, v) for _, v in over), Arr([len(C[0])], [3 / den * sum(c[j] for c, v in over if v > 0) for j in range(len(C[0]))])], 1e-9 * (1 + sizes(x)) * (1 + 3 / den)
    if f == 'getitem' and isinstance(a['k'], int):
        return (x.items[a['k']], 0) if len(x.shape) == 1 else (Arr([x.shape[1]], grid(x)[a['k']]), 0)
    return None


INF = float('inf')
MEASURES = ('prop', 'util', 'rel', 'prep', 'ctor', 'cmp', 'contains', 'recfun', 'getitem', 'constraint')


def reuse(r, threads, p):
    """the client overwrites what it got back (and passed in) before it goes on, often with the same call again"""
    if r.random() < .5:
        return
    for t in threads:
        for i in range(len(t) - 1):
            if r.random() < p:
                t[i]['spoil'] = r.choice(['r', 'r', 'ra', 'a'])
                if r.random() < .5:
                    t[i + 1] = {k: v for k, v in copy.deepcopy(t[i]).items() if k != 'spoil'}


def g_measure_op(r):
    f = r.choice(['prop', 'prop', 'prop', 'util', 'util', 'rel', 'prep', 'ctor', 'ctor', 'cmp', 'contains', 'recfun', 'recfun', 'getitem', 'constraint'])
    a = ops.OPS[f].gen(r)
    if f == 'prop' and r.random() < .25 and a['o'] in SCALAR and a['o'] not in ('mig', 'mag'):
        x = a['x']                            # improper intervals have these too
        a['x'] = ['K', x[2], x[1]] if x[0] == 'I' and x[1] != x[2] else [x[0], x[1], [e[::-1] if r.random() < .5 else e for e in x[2]]] if x[0] == 'A' else x
    if f == 'rel' and r.random() < .6:        # related on purpose
        x = a['x']
        k = r.random()
        a['y'] = [x[0], x[1], [[e[0] - (r.random() < .7) * .5 * (k < .9), e[1] + (r.random() < .7) * .5 * (k < .9)] for e in x[2]]]
        if r.random() < .4:
            a['x'], a['y'] = a['y'], a['x']
    if f == 'rel' and r.random() < .3:
        a = ops.single(r, a)
    if f == 'cmp' and r.random() < .6 and isinstance(a['y'], list) and a['y'][0] == 'A':
        a['y'] = [a['y'][0], a['y'][1], [[e[0] + r.choice([0, 0, .5, -.5]), e[1] + r.choice([0, 0, .5])] for e in a['x'][2]]]
        a['y'][2] = [sorted(e) for e in a['y'][2]]
    return {'f': f, 'a': a}


@prop
class C20(Prop):
    """constructors, conversions, comparisons and pointwise measures have their defined values in every environment"""
    id = 'C20'

    def make(self, ctx, r):
        T = r.choice([1, 1, 1, 2, 2, 3])
        threads = [[g_measure_op(r) for _ in range(r.randint(1, 4 if T > 1 else 8))] for _ in range(T)]
        if r.random() < .5:
            for t in threads:
                for i in range(1, len(t)):
                    k = r.random()
                    if k < .2:
                        t[i] = copy.deepcopy(t[0])
                    elif k < .4:
                        t[i] = twin(r, t[0])
                    elif k < .55:
                        t[i] = nudge(r, t[i - 1], ('near', 'near', 'whole', 'turn', 'kind'))
        reuse(r, threads, .3)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': r.choice(['line', 'line', 'ins']) if T > 1 else 'line', 'observe': ['args'],
                'ambient': rnd_ambient(r)}
        arith_faults(ctx, r, spec, g_measure_op)
        return spec

    def judge(self, ctx, spec, res):
        out = []

        def one(op, pre, o, clean, where):
            try:
                want = formula(op, pre) if op['f'] in MEASURES else None
            except (KeyError, IndexError, AttributeError, TypeError, ZeroDivisionError, Inconclusive):
                want = None
            if want is None or want[0] is None:
                return
            if o[0] != 'ok':
                d = 'raised %s' % o[1] if clean and o[0] == 'exc' else None
            else:
                note(res, 'judged:' + op['f'])
                d = unlike(want[0], value_of(o[1]), want[1])
            if d:
                out.append({'class': 'value%s:%s:%s' % (where[0], op['f'], op['a'].get('o')), 'op': where[1],
                            'what': '%s %s: %s (arguments %s)' % (op['f'], op['a'].get('o', ''), d, ', '.join('%s=%s' % (k, show(v, 150)) for k, v in pre.items()))})
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                clean = not hit(rec) and 'nomem' not in op and not any((f['t'], f['op']) == (t, i) for f in spec['faults'])
                one(op, rec['pre'], rec['out'], clean, ('', [t, i]))
                for nst in rec.get('nested', ()):
                    one(nst['op'], {k: spec_enc(v) for k, v in nst['op']['a'].items()}, nst['out'], False, ('-nested', [t, i]))
        return out


# =============================================================================================
def lp_min(c, G, h):
    import cvxopt
    import numpy as np
    e = np.frexp(np.abs(G).max(axis=1))[1]    # GLPK misjudges rows of very different size
    r = cvxopt.solvers.lp(cvxopt.matrix(c), cvxopt.matrix(np.ldexp(G, -e[:, None])), cvxopt.matrix(np.ldexp(h, -e)), solver='glpk')
    if r['status'] == 'optimal':
        return float(c @ np.array(r['x']).ravel())
    if r['status'] == 'primal infeasible':
        return float('inf')
    if r['status'] == 'dual infeasible':
        return float('-inf')
    raise Inconclusive('oracle LP: ' + str(r['status']))


def hull(Aa, Ab, ba, bb, box=None):
    """exact interval hull of the united solution set (Oettli-Prager, one LP pair per orthant and
    coordinate), restricted to a box; None if it is empty or unbounded"""
    import itertools
    import numpy as np
    n, m = Aa.shape
    Am, Ar = (Aa + Ab) / 2, (Ab - Aa) / 2
    lo, hi = np.full(m, np.inf), np.full(m, -np.inf)
    for s in itertools.product([1, -1], repeat=m):
        S = np.diag(np.array(s, float))
        G = np.vstack([Am - Ar @ S, -Am - Ar @ S, -S])
        h = np.concatenate([bb, -ba, np.zeros(m)])
        if box is not None:
            G = np.vstack([G, np.eye(m), -np.eye(m)])
            h = np.concatenate([h, box[1], -box[0]])
        for k in range(m):
            c = np.zeros(m)
            c[k] = 1
            v = lp_min(c, G, h)
            if v == float('inf'):
                break
            if v == float('-inf'):
                return None
            lo[k] = min(lo[k], v)
            v = lp_min(-c, G, h)
            if v == float('-inf'):
                return None
            hi[k] = max(hi[k], -v)
    return None if not (np.isfinite(lo).all() and np.isfinite(hi).all()) else (lo, hi)


def arr_spec(v):
    import numpy as np
    a = np.array([p[0] for p in v[2]], float).reshape(v[1])
    b = np.array([p[1] for p in v[2]], float).reshape(v[1])
    return a, b


def ends(e):
    """encoded interval (array) -> flat lists of float endpoints; None when it is not one"""
    def n(x):
        if x[0] == 'np':
            x = x[2]
        return float(int(x[1])) if x[0] == 'i' else float('nan') if x[1] == 'nan' else float.fromhex(x[1])
    if not isinstance(e, list):
        return None
    if e[0] in 'CK':
        return [n(e[1])], [n(e[2])]
    if e[0] in ('AI', 'ndo', 'SER'):
        it = e[2] if e[0] == 'ndo' else e[3]
        if not all(isinstance(x, list) and x and x[0] in 'CK' for x in it):
            return None
        return [n(x[1]) for x in it], [n(x[2]) for x in it]
    return None


def hkey(spec, op):
    return repr([resolved(spec, op['a'].get(k)) for k in ('A', 'b', 'x0')])


RTOL = 1e-6


def outer_miss(spec, op, out, cache):
    """None, or how the returned box loses part of the solution set"""
    if out[0] != 'ok':
        return None
    A, b = resolved(spec, op['a']['A']), resolved(spec, op['a']['b'])
    x0 = resolved(spec, op['a'].get('x0'))
    key = hkey(spec, op)
    if key not in cache:
        cache[key] = hull(*arr_spec(A), *arr_spec(b), box=arr_spec(x0) if x0 else None)
    H = cache[key]
    if H is None:
        return None
    e = ends(out[1])
    nu = op['a'].get('nu')
    if nu is not None:
        H = H[0][[nu]], H[1][[nu]]
    if e is None or len(e[0]) != len(H[0]):
        return 'returned something that is not an interval vector of length %d: %s' % (len(H[0]), show(out[1], 200))
    for k in range(len(H[0])):
        t = RTOL * (1 + abs(H[0][k]) + abs(H[1][k]))
        if not (e[0][k] <= H[0][k] + t and e[1][k] >= H[1][k] - t):
            return 'component %d of the returned box is [%r, %r] but the solution set extends over [%r, %r]' % (k if nu is None else nu, e[0][k], e[1][k], float(H[0][k]), float(H[1][k]))
        if x0:                                # the estimate is sought within the caller's box
            i = k if nu is None else nu
            lo, hi = x0[2][i]
            if not (e[0][k] >= lo - t and e[1][k] <= hi + t):
                return 'component %d of the returned box is [%r, %r], outside the box [%r, %r] it was to be sought in' % (i, e[0][k], e[1][k], lo, hi)
    return None


ANY = ('PSS', 'PPS', 'Gauss_Seidel')
BUDGETS = [0, 1, 2, 3, 4, 5, 7, 10, 20, 60]


def g_solve(r, A, b, name=None, budget=None):
    n, m = A[1]
    square = n == m
    name = name or r.choice(['PSS', 'PSS', 'PPS', 'Gauss_Seidel', 'Gauss_Seidel'] + ['Gauss', 'HBR'] if square else ['PSS'])
    a = {'A': A, 'b': b}
    if name in ('Gauss', 'HBR'):
        return {'f': name, 'a': a}
    a['maxiter'] = r.choice(BUDGETS) if budget is None else budget
    ops.g_tol(r, a, .15)
    if name in ('PSS', 'PPS'):
        a['nu'] = r.choice([None, None, 0, m - 1])
        if name == 'PSS' and r.random() < .35:
            w = r.choice([3.0, 10.0, 40.0])
            a['x0'] = ['A', [m], [[-w - r.randint(0, 9) / 4, w + r.randint(0, 9) / 4] for _ in range(m)]]
            if r.random() < .3:               # a box that cuts through the solution set
                a['x0'][2] = [[c - w, c + w] for c, w in [(r.randint(-8, 8) / 8, r.choice([.25, .5, 1.0])) for _ in range(m)]]
    else:
        if r.random() < .4:
            w = r.choice([3.0, 10.0, 100.0])
            a['x0'] = ['A', [m], [[-w - r.randint(0, 9) / 4, w + r.randint(0, 9) / 4] for _ in range(m)]]
            if r.random() < .2:
                a['x0'][2] = [[c - w, c + w] for c, w in [(r.randint(-8, 8) / 8, r.choice([.25, .5, 1.0])) for _ in range(m)]]
        if r.random() < .3:
            a['C'] = ['nd', [n, n], [float(i == j) for i in range(n) for j in range(n)]]
    return {'f': name, 'a': a}


def scale_rows(r, A, b):
    n, m = A[1]
    for i in range(n):
        s = 2.0 ** r.choice([-12, -4, 0, 0, 5, 20])
        for j in range(m):
            A[2][i * m + j] = [s * v for v in A[2][i * m + j]]
        b[2][i] = [s * v for v in b[2][i]]


def g_lin(r):
    k = r.random()
    if k < .2:
        return ops.g_rect(r)
    A, b = ops.g_system(r, kind=r.choice(['dd', 'dd', 'tri', 'mat', 'wide']), n=None if r.random() < .94 else 4)
    if r.random() < .15:                      # rows in another order: the pivots are not on the diagonal
        n = A[1][0]
        p = list(range(n))
        r.shuffle(p)
        A[2] = [A[2][i * n + j] for i in p for j in range(n)]
        b[2] = [b[2][i] for i in p]
    if r.random() < .12:                      # rows of very different size
        scale_rows(r, A, b)
    if r.random() < .25:                      # a thin system, or thin rows
        j = r.randrange(A[1][0])
        m = A[1][1]
        for q in range(j * m, (j + 1) * m):
            c = (A[2][q][0] + A[2][q][1]) / 2
            A[2][q] = [c, c]
    return A, b


def g_tough(r):
    """a system whose partitioning takes hundreds of steps and long work lists"""
    n = r.choice([3, 3, 4])
    lo, hi = r.choice([(0.0, 2.0), (0.0, 2.0), (-1.0, 1.0), (0.0, 1.0)])
    th = (n - 1) * max(-lo, hi, (hi - lo) / 2) / r.choice([1, 1, 1.5]) + r.choice([.5, .5, 1, 2])
    A = []
    for i in range(n):
        for j in range(n):
            if i == j:
                w = r.choice([0.0, 0.0, .125])
                A.append([th - w, th + w])
            else:
                A.append([lo, hi] if r.random() < .85 else [lo, lo])
    return ['A', [n, n], A], ['A', [n], [[-1.0 - r.randint(0, 4) / 4, 1.0 + r.randint(0, 4) / 4] for _ in range(n)]]


@prop
class C08(Prop):
    """interval linear solvers: outer estimates at every budget"""
    id = 'C08'

    def make(self, ctx, r):
        if r.random() < .05:                  # long partitionings
            A, b = g_tough(r)
            o = g_solve(r, A, b, r.choice(['PSS', 'PSS', 'PPS']), budget=r.choice([30, 60, 120, 250]))
            o['a']['nu'] = r.randrange(A[1][0])
            t = [o]
            if r.random() < .6:
                o = copy.deepcopy(o)
                o['a']['maxiter'] *= 2
                t.append(o)
            return {'pool': [], 'threads': [t], 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        T = 1 if r.random() < .8 else 2
        A, b = g_lin(r)
        threads = []
        for _ in range(T):
            name = r.choice(ANY) if A[1][0] == A[1][1] else 'PSS'
            t = [g_solve(r, A, b, name if r.random() < .6 else None) for _ in range(r.randint(1, 3))]
            threads.append(t)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        for t in threads:
            for o in t:
                if r.random() < .3:
                    o['round'] = r.choice(MODES)
        if T > 1 or r.random() < .45:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            t = r.randrange(T)
            i = r.randrange(len(threads[t]))
            if r.random() < .5 and recs[t][i]['n']:
                f = {'t': t, 'op': i, 'n': rnd_point(r, recs[t][i]['n']), 'act': 'nest',
                     'call': g_solve(r, *(g_lin(r) if r.random() < .5 else (A, b)), budget=r.choice([0, 1, 3]))}
                spec['faults'].append(f)
            else:
                f = rnd_fault(r, t, i, recs[t][i], excs=CANCEL, classes=('line',))
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out, cache = [], {}
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                d = outer_miss(spec, op, rec['out'], cache)
                note(res, 'oracle:%s %s' % (op['f'], 'exception' if rec['out'][0] != 'ok' else 'no bounded hull' if cache.get(hkey(spec, op), 1) is None else 'checked'))
                if d:
                    out.append({'class': 'outer:' + op['f'], 'op': [t, i], 'what': '%s (budget %s): %s' % (op['f'], op['a'].get('maxiter'), d)})
                for nst in rec.get('nested', ()):
                    d = outer_miss(spec, nst['op'], nst['out'], cache)
                    if d:
                        out.append({'class': 'outer-nested:' + nst['op']['f'], 'op': [t, i], 'what': 'nested %s (budget %s): %s' % (
                            nst['op']['f'], nst['op']['a'].get('maxiter'), d)})
        # a larger budget never gives a worse estimate
        best = {}
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                e = ends(rec['out'][1]) if rec['out'][0] == 'ok' else None
                if op['f'] in ANY and e:
                    key = op['f'] + hkey(spec, op) + repr([op['a'].get('C'), op['a'].get('nu'), op['a'].get('kw'), op.get('round')])
                    for n, (lo, hi), at in best.get(key, ()):
                        small, large = ((lo, hi), e) if n <= op['a']['maxiter'] else (e, (lo, hi))
                        for k in range(len(lo)):
                            tol = RTOL * (1 + abs(small[0][k]) + abs(small[1][k]))
                            if large[0][k] < small[0][k] - tol or large[1][k] > small[1][k] + tol:
                                out.append({'class': 'budget:' + op['f'], 'op': [t, i], 'what': '%s with budgets %d and %d: the larger budget gave the wider component %d' % (
                                    op['f'], n, op['a']['maxiter'], k)})
                                break
                    best.setdefault(key, []).append((op['a']['maxiter'], e, [t, i]))
        return out


# =============================================================================================
def true_min(kind, c, box):
    d = [max(lo - ci, ci - hi, 0.0) for ci, (lo, hi) in zip(c, box)]
    if kind == 'quad':
        return sum(v * v for v in d)
    if kind == 'quart':
        return d[0] ** 4 + sum(v * v for v in d[1:])
    if kind == 'wells':
        return 0.0                            # every box contains +-1
    if kind in ('lin', 'dep'):
        return sum(min(ci * lo, ci * hi) for ci, (lo, hi) in zip(c, box))
    if kind == 'prod':
        return 0.0                            # convex (|c| < 2) and the box contains the origin
    raise ValueError(kind)


def nonlin_miss(spec, op, out):
    a = op['a']
    x0 = resolved(spec, a['x0'])
    box = [x0[1:3]] if x0[0] == 'If' else x0[2]
    if out[0] != 'ok':
        return None
    if op['f'] == 'nonlin':
        e = ends(out[1])
        if e is None or len(e[0]) != len(box):
            return 'returned something that is not a box: %s' % show(out[1], 200)
        for k, x in enumerate(a['root'][1]):
            t = 1e-12 * (1 + abs(x))
            if not (e[0][k] <= x + t and e[1][k] >= x - t):
                return 'component %d is [%r, %r] and lost the root at %r' % (k, e[0][k], e[1][k], x)
            if e[0][k] < box[k][0] or e[1][k] > box[k][1]:
                return 'component %d is [%r, %r], outside the initial [%r, %r]' % (k, e[0][k], e[1][k], *box[k])
        return None
    pair = out[1][1]
    bx, v = ends(pair[0]), ends(pair[1])
    m = true_min(a['f'][2], a['f'][3], box)
    if v is None or len(v[0]) != 1 or bx is None:
        return 'returned something that is not a (box, value) pair: %s' % show(out[1], 200)
    t = 1e-12 * (1 + abs(m))
    if not (v[0][0] <= m + t and v[1][0] >= m - t):
        return 'the value enclosure [%r, %r] does not contain the minimum %r' % (v[0][0], v[1][0], m)
    for k in range(len(box)):
        if not (box[k][0] <= bx[0][k] <= bx[1][k] <= box[k][1]):
            return 'the box component %d is [%r, %r], not inside [%r, %r]' % (k, bx[0][k], bx[1][k], *box[k])
    return None


def no_root(spec, op, rec):
    """does the call say that the box has no root?"""
    if rec['out'][0] == 'ok':
        return False
    if any(w in rec.get('msg', '').lower() for w in ('не содержит решений', 'solution set does n', 'no solution', 'no root')):
        return True
    x0 = resolved(spec, op['a']['x0'])
    fold = x0[0] == 'If' and x0[1] <= 0 <= x0[2] and op['a']['f'][2] == 'sq1'
    return rec['out'][1] == 'Exception' and not fold      # the Jacobian is regular on the box


def g_nlop(r):
    return {'f': 'nonlin', 'a': ops.gen_nl(r)} if r.random() < .6 else {'f': 'globopt', 'a': ops.gen_glob(r)}


@prop
class C10(Prop):
    """nonlinear solvers: enclosures at every budget, through callback failures and re-entry"""
    id = 'C10'

    def make(self, ctx, r):
        T = 1 if r.random() < .8 else 2
        base = g_nlop(r)
        threads = []
        for _ in range(T):
            t = []
            for _ in range(r.randint(1, 3)):
                o = copy.deepcopy(base) if r.random() < .75 else g_nlop(r)
                o['a']['maxiter'] = r.choice([0, 1, 2, 3, 5, 8, 20, 40])
                if o['f'] == 'globopt' and o['a']['f'][2] in ('dep', 'wells', 'prod'):
                    o['a']['maxiter'] = r.choice([1, 5, 20, 60, 120, 250])
                    if o['a']['f'][2] == 'dep' and r.random() < .5:     # a long search over a flat landscape
                        if o['a']['f'][3] == base['a']['f'][3]:
                            o['a']['f'][3] = [v / 100 for v in o['a']['f'][3]]
                        o['a']['maxiter'] = r.choice([250, 500, 700])
                if o['f'] == 'globopt' and r.random() < .7:
                    o['a']['tol'] = 1e-12
                if r.random() < .35:
                    o['round'] = r.choice(MODES)
                t.append(o)
            threads.append(t)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        if T > 1 or r.random() < .7:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            for _ in range(r.randint(1, 2)):
                t = r.randrange(T)
                i = r.randrange(len(threads[t]))
                rec = recs[t][i]
                s = rnd_seam(r, {k: v for k, v in rec['seams'].items() if k.startswith(('cb:', 'la:'))})
                if not s:
                    continue
                f = {'t': t, 'op': i, 'seam': s[0], 'k': s[1]}
                k = r.random()
                if s[0].startswith('la:'):
                    f.update(act='raise', exc=r.choice(['LinAlgError', 'MemoryError']))
                elif k < .5:
                    f.update(act='raise', exc=r.choice(ERRORS + CANCEL))
                else:
                    c = copy.deepcopy(base) if r.random() < .5 else g_nlop(r)
                    c['a']['maxiter'] = r.choice([0, 1, 2, 5])
                    f.update(act='nest', call=c)
                spec['faults'].append(f)
                if f['act'] == 'raise':       # the caller tries again
                    threads[t].insert(i + 1, copy.deepcopy(threads[t][i]))
                    for g in spec['faults']:
                        if g['t'] == t and g['op'] > i:
                            g['op'] += 1
                    for q in spec['sched']:
                        if q[0] == t and q[1] > i:
                            q[1] += 1
                    recs[t].insert(i + 1, recs[t][i])
        return spec

    def judge(self, ctx, spec, res):
        out = []
        best = {}
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                note(res, 'oracle:%s %s' % (op['f'], 'exception' if rec['out'][0] != 'ok' else 'checked'))
                d = nonlin_miss(spec, op, rec['out'])
                name = op['a'].get('o', op['f'])
                if d:
                    out.append({'class': 'nonlin:' + name, 'op': [t, i], 'what': '%s (budget %s) on %s: %s' % (name, op['a']['maxiter'], op['a']['f'][2:], d)})
                elif op['f'] == 'nonlin' and 'injected' not in rec and not rec.get('limit') and no_root(spec, op, rec):
                    out.append({'class': 'nonlin-noroot:' + name, 'op': [t, i], 'what': '%s reports that the box has no root, but %s is one' % (name, op['a']['root'][1])})
                elif rec['out'][0] != 'ok' and 'injected' not in rec and not rec.get('limit'):
                    ref = ref_out(ctx, spec, ref_item(spec, op, rec['pre'], {}))
                    if ref['out'][0] == 'ok':
                        out.append({'class': 'nonlin-fail:' + name, 'op': [t, i], 'what': '%s failed with %s although nothing it depends on failed' % (name, rec['out'][1])})
                elif 'injected' in rec and not rec.get('same') and rec['injected'] not in ('LinAlgError',):
                    out.append({'class': 'nonlin-exc:' + name, 'op': [t, i], 'what': '%s turned the %s its callback raised into %s' % (name, rec['injected'], rec['out'][:2])})
                elif rec['out'][0] == 'ok' and 'injected' not in rec:
                    e = ends(rec['out'][1] if op['f'] == 'nonlin' else rec['out'][1][1][1])
                    key = repr([{k: v for k, v in sorted(op['a'].items()) if k != 'maxiter'}, op.get('round')])
                    for n, (lo, hi) in best.get(key, ()):
                        s, l = ((lo, hi), e) if n <= op['a']['maxiter'] else (e, (lo, hi))
                        for k in range(len(lo)):
                            tol = 1e-9 * (1 + abs(s[0][k]) + abs(s[1][k]))
                            if l[0][k] < s[0][k] - tol or (op['f'] == 'nonlin' and l[1][k] > s[1][k] + tol):
                                out.append({'class': 'nonlin-budget:' + name, 'op': [t, i], 'what': '%s with budgets %d and %d: the larger one gave the worse bound' % (name, n, op['a']['maxiter'])})
                                break
                    best.setdefault(key, []).append((op['a']['maxiter'], e))
                for nst in rec.get('nested', ()):
                    d = nonlin_miss(spec, nst['op'], nst['out'])
                    if d:
                        out.append({'class': 'nonlin-nested:' + nst['op']['f'], 'op': [t, i], 'what': 'nested %s: %s' % (nst['op']['f'], d)})
        return out

    def nontrivial(self, spec, res):
        return True


# =============================================================================================
def tol_hull(Aa, Ab, ba, bb):
    """exact hull of the tolerable solution set (Rohn); None if empty or unbounded"""
    import itertools
    import numpy as np
    n, m = Aa.shape
    Am, Ar = (Aa + Ab) / 2, (Ab - Aa) / 2
    lo, hi = np.full(m, np.inf), np.full(m, -np.inf)
    for s in itertools.product([1, -1], repeat=m):
        S = np.diag(np.array(s, float))
        G = np.vstack([Am + Ar @ S, -Am + Ar @ S, -S])
        h = np.concatenate([bb, -ba, np.zeros(m)])
        for k in range(m):
            c = np.zeros(m)
            c[k] = 1
            v = lp_min(c, G, h)
            if v == float('inf'):
                break
            w = lp_min(-c, G, h)
            if v == float('-inf') or w == float('-inf'):
                return None
            lo[k], hi[k] = min(lo[k], v), max(hi[k], -w)
    return None if not (np.isfinite(lo).all() and np.isfinite(hi).all()) else (lo, hi)


def functional(which, A, b, x, weight):
    """the recognizing functional at a point, from its definition"""
    import numpy as np
    Aa, Ab = arr_spec(A)
    ba, bb = arr_spec(b)
    Am, Ar, bm, br = (Aa + Ab) / 2, (Ab - Aa) / 2, (ba + bb) / 2, (bb - ba) / 2
    w = np.ones(len(bm)) if weight is None else np.array(weight[2], float)
    mid, rad = bm - Am @ x, Ar @ np.abs(x)
    lo, hi = mid - rad, mid + rad
    if which == 'Tol':
        v = br - np.maximum(np.abs(lo), np.abs(hi))
    elif which == 'Uni':
        v = br - np.where(lo * hi <= 0, 0.0, np.minimum(np.abs(lo), np.abs(hi)))
    else:
        v = br + rad - np.abs(mid)
    return w * v


def penalty(lc, x, A=None):
    """mu * sum of violations of C x <= ub, -C x <= -lb; None if mu is the library's choice"""
    import numpy as np
    if lc is None:
        return 0.0
    C = np.array(lc[1][2], float).reshape(lc[1][1])
    if lc[4] is None:
        return None
    v = 0.0
    for k in range(C.shape[0]):
        for s, lim in ((-1, lc[2]), (1, lc[3])):
            if lim is not None and C[k].any():
                v += max(0.0, s * (C[k] @ x) - s * lim[2][k])
    return lc[4] * v


def nums(e):
    """encoded vector or scalar -> list of floats"""
    def n(x):
        if not isinstance(x, list):
            return float(x)
        if x[0] == 'np':
            return n(x[2])
        if x[0] in 'if':
            return float(int(x[1])) if x[0] == 'i' else float('nan') if x[1] == 'nan' else float.fromhex(x[1])
        raise Inconclusive('not a number: %s' % x[:2])
    if isinstance(e, list) and e[0] == 'nd':
        return [n(v) for v in e[3]]
    return [n(e)]


def record_miss(spec, op, out):
    """maximize() results: the value is the functional at the point, never below the start, counters in range"""
    import numpy as np
    if out[0] != 'ok':
        return None
    a = op['a']
    xr, fr, nit, ncalls, ccode = [nums(v) for v in out[1][1]]
    A, b = resolved(spec, a['A']), resolved(spec, a['b'])
    w, lc, x0 = (resolved(spec, a.get(k)) for k in ('weight', 'lc', 'x0'))

    def at(x):
        x = np.array(x)
        p = penalty(lc, x)
        return None if p is None else float(np.min(functional(a['which'], A, b, x, w))) - p
    v = at(xr)
    tol = 1e-9 * (1 + abs(fr[0]))
    if v is not None and not abs(v - fr[0]) <= tol:
        return 'reported the maximum %r at %s, but the functional is %r there' % (fr[0], xr, v)
    if x0 is not None:
        v0 = at(x0[2])
        if v0 is not None and not fr[0] >= v0 - tol:
            return 'reported the maximum %r, worse than %r at the caller\'s starting point' % (fr[0], v0)
    if not (0 <= nit[0] <= a['maxiter'] + 1 and ncalls[0] >= 1 and ccode[0] in (1, 2, 3, 4, 5)):
        return 'reported %s iterations (budget %d), %s calls, exit code %s' % (nit[0], a['maxiter'], ncalls[0], ccode[0])
    if (ccode[0] == 4) != (nit[0] == a['maxiter'] + 1):
        return 'exit code %d after %d iterations of a budget of %d' % (ccode[0], nit[0], a['maxiter'])
    return None


def sound(ctx, spec, op, rec, cache):
    """an operation whose backend failed may raise; a result it returns must still be right"""
    f, a, out = op['f'], op['a'], rec['out']
    if out[0] != 'ok':
        return None
    if f in ('PSS', 'PPS', 'Gauss_Seidel', 'Gauss', 'HBR'):
        return outer_miss(spec, op, out, cache)
    if f == 'Rohn' and a['consistency'] == 'tol':
        key = 'tol' + hkey(spec, op)
        if key not in cache:
            cache[key] = tol_hull(*arr_spec(resolved(spec, a['A'])), *arr_spec(resolved(spec, a['b'])))
        H, e = cache[key], ends(out[1])
        if H is None:
            return None
        for k in range(len(H[0])):
            t = RTOL * (1 + abs(H[0][k]) + abs(H[1][k]))
            if not (abs(e[0][k] - H[0][k]) <= t and abs(e[1][k] - H[1][k]) <= t):
                return 'component %d of the tolerable solution set is [%r, %r], not [%r, %r]' % (k, H[0][k], H[1][k], e[0][k], e[1][k])
        return None
    if f in ('nonlin', 'globopt'):
        return nonlin_miss(spec, op, out)
    if f == 'maximize':
        return record_miss(spec, op, out)
    ref = ref_out(ctx, spec, ref_item(spec, op, rec.get('pre'), {}))
    if ref['out'][0] != 'ok':
        return None
    if f == 'cheb':
        x, y = nums(out[1][1][1])[0], nums(ref['out'][1][1][1])[0]
    elif f == 'ive':
        x, y = nums(out[1])[0], nums(ref['out'][1])[0]
    elif f in ('Rohn', 'Subdiff'):
        x, y = (sum(map(abs, ends(v)[0] + ends(v)[1])) for v in (out[1], ref['out'][1]))
    else:
        return None
    if x != y and not abs(x - y) <= 1e-6 * (1 + abs(y)):
        return 'returned %r; without the failure the same call returns %r' % (x, y)
    return None


BACKED = {'PSS': 5, 'PPS': 3, 'Gauss_Seidel': 2, 'HBR': 1, 'Rohn': 2, 'nonlin': 2, 'maximize': 2, 'cheb': .7, 'ive': .7, 'Subdiff': 1, 'Gauss': .3}


def g_backed(r):
    f = r.choices(sorted(BACKED), [BACKED[k] for k in sorted(BACKED)])[0]
    if f in ('PSS', 'PPS', 'Gauss_Seidel', 'HBR', 'Gauss'):
        A, b = g_lin(r)
        if A[1][0] != A[1][1]:
            f = 'PSS'
        return g_solve(r, A, b, f, r.choice([0, 1, 2, 3, 5, 10, 25]) if f != 'Gauss_Seidel' else None)
    o = {'f': f, 'a': ops.OPS[f].gen(r)}
    if f == 'ive':
        o['a']['N'] = r.choice([1, 2])
    if f == 'Rohn' and r.random() < .3:
        scale_rows(r, o['a']['A'], o['a']['b'])
    return o


@prop
class C09(Prop):
    """backend failures never become wrong answers"""
    id = 'C09'

    def make(self, ctx, r):
        o = g_backed(r)
        t = [o, copy.deepcopy(o)]
        if r.random() < .3:
            t.append(g_backed(r))
        spec = {'pool': [], 'threads': [t], 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r), 'cap': 1_500_000}
        rec = probe(ctx, spec)[0][0]
        seams = {k: v for k, v in rec['seams'].items() if k == 'lp' or k.startswith('la:')}
        if seams:
            lp = [k for k in seams if k == 'lp']
            s = 'lp' if lp and r.random() < .8 else r.choice(sorted(seams))
            n = seams[s]
            k = r.random()
            if k < .5:
                at = {r.randint(1, n)}
            elif k < .7:
                at = {r.randint(1, n) for _ in range(r.randint(2, 4))}
            elif k < .85:                     # the backend goes down and stays down
                at = set(range(r.randint(1, n), n + 40))
            else:                             # and comes back
                a = r.randint(1, n)
                at = set(range(a, a + r.randint(2, 8)))
            if s == 'lp':
                st = r.choice(['unknown', 'unknown', 'dual infeasible', 'raise'])
            else:
                st = 'raise'
            exc = r.choice(['ValueError', 'ArithmeticError', 'MemoryError', 'TypeError']) if s == 'lp' else r.choice(['LinAlgError', 'LinAlgError', 'MemoryError', 'FloatingPointError'])
            for k in sorted(at):
                f = {'t': 0, 'op': 0, 'seam': s, 'k': k}
                f.update({'act': 'raise', 'exc': exc} if st == 'raise' else {'act': 'status', 'status': st})
                spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out, cache = [], {}
        recs = res['ops'][0]
        if recs[0].get('limit'):
            return [{'class': 'backend-hang:' + spec['threads'][0][0]['f'], 'op': 0, 'what': '%s did not finish within %d steps after its backend failed' % (
                op_text(spec, spec['threads'][0][0]), spec.get('cap', 0))}] if any(res['fired']) else []
        for i, (op, rec) in enumerate(zip(spec['threads'][0], recs)):
            fired = any(f['op'] == i and x for f, x in zip(spec['faults'], res['fired']))
            d = sound(ctx, spec, op, rec, cache)
            note(res, 'oracle:%s %s%s' % (op['f'], 'raised' if rec['out'][0] != 'ok' else 'answered', ' after a backend fault' if fired else ''))
            if d:
                out.append({'class': 'backend:' + op['f'], 'op': i, 'what': '%s%s: %s' % (
                    op['f'], ', whose backend failed,' if fired else '', d)})
            elif not fired:
                ref = ref_out(ctx, spec, ref_item(spec, op, rec['pre'], {}))
                d = same(rec['out'], ref['out'])
                if d and not ref.get('limit'):
                    out.append({'class': 'backend-after:' + op['f'], 'op': i, 'what': '%s, called after its backend recovered, differs from a fresh process: %s' % (op['f'], d)})
        return out

    def nontrivial(self, spec, res):
        return any(res['fired'])


# =============================================================================================
def g_direct(r):
    """a call of a direct, inner or formal solver"""
    f = r.choice(['Rohn', 'Rohn', 'Rohn', 'Neumaier', 'Neumaier', 'Subdiff', 'Subdiff'])
    if f == 'Rohn':
        A, b = g_lin(r)
        if r.random() < .3:                   # close to singular: the iterations take long, or never end
            n, m = A[1]
            w = r.choice([.9, .99, .999, 1.0, 1.1])
            for i in range(n):
                c = (A[2][i * m + i % m][0] + A[2][i * m + i % m][1]) / 2
                rest = 0 if m == 1 else sum(max(map(abs, A[2][i * m + j])) for j in range(m) if j != i % m)
                h = max(abs(c) * w - rest, 0.0)
                A[2][i * m + i % m] = [c - h, c + h]
        kw = {}
        if r.random() < .6:
            kw['maxiter'] = r.choice([0, 1, 2, 5, 20, 100, 2000])
        if r.random() < .4:
            kw['tol'] = r.choice([0, 1e-9, 1e-6, 1e-3, .1])
        return {'f': f, 'a': {'A': A, 'b': b, 'consistency': r.choice(['uni', 'uni', 'tol']), 'kw': kw or None}}
    if f == 'Neumaier':
        n, m = r.choice([(2, 2), (2, 2), (3, 3), (3, 2), (4, 2), (2, 3)])
        y = [r.randint(-8, 8) / 4 if r.random() < .7 else float(r.randint(-2, 2)) for _ in range(m)]
        A, b = [], []
        for i in range(n):
            row = [[c - h, c + h] for c, h in ((r.randint(-12, 12) / 4, r.choice([0, .25, .5, 1])) for _ in range(m))]
            if all(e == [0, 0] for e in row):
                row[0] = [1.0, 1.0]
            lo = sum(min(u * v, w * v) for (u, w), v in zip(row, y))
            hi = sum(max(u * v, w * v) for (u, w), v in zip(row, y))
            b.append([lo - r.choice([0, .25, 1, 2, 5]), hi + r.choice([0, .25, 1, 2, 5])])
            A += row
        if r.random() < .1:
            y[0] += r.choice([-1, 1, 4])
        w = None if r.random() < .4 else ['nd', [m], [float(r.choice([1, 2, .5, 3, 10])) for _ in range(m)]]
        Y = ['nd', [m], y]
        if r.random() < .2:                   # lists are accepted too, and the numbers in them need not be floats
            Y = ['list', [int(v) if v == int(v) else v for v in y]]
            w = w and r.choice([w, ['list', w[2]], ['list', [int(v) if v == int(v) else v for v in w[2]]]])
        return {'f': f, 'a': {'A': ['A', [n, m], A], 'b': ['A', [n], b], 'y': Y, 'w': w}}
    A, b = values.g_system(r, n=r.choice([2, 2, 3]), kind=r.choice(['dd', 'dd', 'tri', 'mat']))
    if r.random() < .5:
        b[2] = [e[::-1] if r.random() < .5 else e for e in b[2]]
    if r.random() < .3:
        A[2] = [e[::-1] if r.random() < .3 else e for e in A[2]]
    if r.random() < .15:
        scale_rows(r, A, b)
    kw = {'tau': r.choice([.5, .9])} if r.random() < .15 else {}
    return {'f': f, 'a': {'A': A, 'b': b, 'maxiter': r.choice([0, 1, 2, 5, 200, 500, 500, 500]), 'kw': kw or None}}


def exact_iv(v):
    """a literal array of (possibly improper) intervals as exact Kaucher intervals"""
    from fractions import Fraction as Fr
    return [KI(Fr(plain(spec_enc(e[0]))), Fr(plain(spec_enc(e[1])))) for e in v[2]]


def newton_settles(XA, Xb, n, tau):
    """whether the subdifferential Newton iteration, carried out plainly, comes to rest: for a few systems
    it goes round in circles for ever, and the answer at the iteration limit stands for nothing"""
    import numpy as np
    A = [[(float(XA[i * n + j].a), float(XA[i * n + j].b)) for j in range(n)] for i in range(n)]
    b = [(float(v.a), float(v.b)) for v in Xb]
    F = np.zeros((2 * n, 2 * n))
    for i in range(n):
        for j in range(n):
            c = (A[i][j][0] + A[i][j][1]) / 2
            k = 0 if c >= 0 else n
            F[i, j + k] = F[i + n, j + n - k] = c
    try:
        x = np.linalg.solve(F, np.array([v[0] for v in b] + [v[1] for v in b]))
        for _ in range(480):
            F = np.zeros((2 * n, 2 * n))
            g = np.zeros(2 * n)
            for i in range(n):
                for j in range(n):
                    a, v = A[i][j], (x[j], x[j + n])
                    lo, hi = product_parts(a, v)
                    for row, part in ((i, lo), (i + n, hi)):
                        for f, k in part:
                            F[row, j + k * n] += f
                            g[row] += f * v[k]
            g -= np.array([v[0] for v in b] + [v[1] for v in b])
            step = tau * np.linalg.solve(F, g)
            x = x - step
            if np.abs(step).sum() <= 1e-9 * (1 + np.abs(x).sum()):
                return True
    except np.linalg.LinAlgError:
        pass
    return False


def product_parts(a, v):
    """the end points of a Kaucher product as [(factor, which end of v), ...]"""
    p = lambda t: max(t, 0.0)
    q = lambda t: max(-t, 0.0)
    def best(first, second):
        return first if sum(f * v[k] for f, k in first) >= sum(f * v[k] for f, k in second) else second
    neg = lambda part: [(-f, k) for f, k in part]
    def pos(c, k):                            # c+ v_k+ as a part, c a factor
        return [(c, k)] if c and v[k] > 0 else []
    def mns(c, k):                            # c v_k-
        return [(-c, k)] if c and v[k] < 0 else []
    # Lakeyev: lo = max(a+ v+, A- V-) - max(A+ v-, a- V+);  hi = max(A+ V+, a- v-) - max(a+ V-, A- v+)
    lo = best(pos(p(a[0]), 0), mns(q(a[1]), 1)) + neg(best(mns(p(a[1]), 0), pos(q(a[0]), 1)))
    hi = best(pos(p(a[1]), 1), mns(q(a[0]), 0)) + neg(best(mns(p(a[0]), 1), pos(q(a[1]), 0)))
    return lo, hi


def direct_miss(spec, op, out, cache):
    """None, or how the answer of a direct, inner or formal solver is not what it stands for"""
    import numpy as np
    from fractions import Fraction as Fr
    f, a = op['f'], op['a']
    if out[0] != 'ok':
        return None
    A, b = resolved(spec, a['A']), resolved(spec, a['b'])
    n, m = A[1]
    e = ends(out[1])
    if e is None or len(e[0]) != m:
        return 'returned something that is not an interval vector of length %d: %s' % (m, show(out[1], 200))
    if f == 'Rohn':
        if a['consistency'] == 'uni':
            return outer_miss(spec, op, out, cache)
        key = 'tol' + hkey(spec, op)
        if key not in cache:
            cache[key] = tol_hull(*arr_spec(A), *arr_spec(b))
        H = cache[key]
        for k in range(m if H is not None else 0):
            t = RTOL * (1 + abs(H[0][k]) + abs(H[1][k]))
            if not (abs(e[0][k] - H[0][k]) <= t and abs(e[1][k] - H[1][k]) <= t):
                return 'component %d of the tolerable solution set is [%r, %r], not [%r, %r]' % (k, H[0][k], H[1][k], e[0][k], e[1][k])
        return None
    XA, Xb = exact_iv(A), exact_iv(b)
    if any(v != v or abs(v) == float('inf') for v in e[0] + e[1]):
        return None if f == 'Subdiff' and a['maxiter'] < 100 else 'returned %s' % show(out[1], 200)
    X = [KI(Fr(u), Fr(v)) for u, v in zip(*e)]
    rows = [sum((XA[i * m + j] * X[j] for j in range(1, m)), XA[i * m] * X[0]) for i in range(n)]
    size = max(max(abs(v.a), abs(v.b)) for v in XA + Xb + X) + 1
    if f == 'Subdiff':
        if a['maxiter'] < 100:
            return None
        for i in range(n):
            big = max(max(abs(v.a), abs(v.b)) for v in XA[i * m:(i + 1) * m]) * max(max(abs(v.a), abs(v.b)) for v in X) + max(abs(Xb[i].a), abs(Xb[i].b))
            if max(abs(rows[i].a - Xb[i].a), abs(rows[i].b - Xb[i].b)) > Fr(1, 10**8) * (big + Fr(1, 10**8)):
                if not newton_settles(XA, Xb, n, (a.get('kw') or {}).get('tau', 1)):
                    return None
                return 'is no formal solution: with it the left-hand side of equation %d is [%r, %r], the right-hand side is [%r, %r]' % (
                    i, float(rows[i].a), float(rows[i].b), float(Xb[i].a), float(Xb[i].b))
        return None
    # Neumaier: a box around y with sides in proportion to w, inside the tolerable solution set
    y, w = a['y'][-1], a['w'][-1] if a['w'] else [1.0] * m
    if any(v.a > v.b for v in X):
        return 'returned an improper box %s' % show(out[1], 200)
    at = [sum((XA[i * m + j] * KI(Fr(y[j]), Fr(y[j])) for j in range(m)), KI(0, 0)) for i in range(n)]
    room = [min(Xb[i].b - at[i].b, at[i].a - Xb[i].a) / sum(max(abs(XA[i * m + j].a), abs(XA[i * m + j].b)) * Fr(w[j]) for j in range(m)) for i in range(n)]
    if min(room) < 0:
        return None                           # the centre is not in the set
    t = Fr(1, 10**9) * size
    for i in range(n):
        if rows[i].a < Xb[i].a - t or rows[i].b > Xb[i].b + t:
            return 'the box %s is not inside the tolerable solution set: over it the left-hand side of equation %d is [%r, %r], the right-hand side is [%r, %r]' % (
                show(out[1], 200), i, float(rows[i].a), float(rows[i].b), float(Xb[i].a), float(Xb[i].b))
    for j in range(m):
        if abs(X[j].a - (Fr(y[j]) - min(room) * Fr(w[j]))) > t or abs(X[j].b - (Fr(y[j]) + min(room) * Fr(w[j]))) > t:
            return 'component %d of the box is [%r, %r], not %r +- %r' % (j, float(X[j].a), float(X[j].b), y[j], float(min(room)) * w[j])
    return None


@prop
class C21(Prop):
    """direct, inner and formal solvers deliver what their answers stand for in every environment"""
    id = 'C21'

    def make(self, ctx, r):
        T = 1 if r.random() < .75 else 2
        threads = [[g_direct(r) for _ in range(r.randint(1, 4))] for _ in range(T)]
        for t in threads:
            for i in range(1, len(t)):
                k = r.random()
                if k < .25:
                    t[i] = copy.deepcopy(t[0])
                elif k < .45:
                    t[i] = twin(r, t[0])
        reuse(r, threads, .2)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        for t in threads:
            for o in t:
                if r.random() < .3:
                    o['round'] = r.choice(MODES)
        if T > 1 or r.random() < .55:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            t = r.randrange(T)
            i = r.randrange(len(threads[t]))
            k = r.random()
            if k < .4 and recs[t][i]['n']:
                spec['faults'].append({'t': t, 'op': i, 'n': rnd_point(r, recs[t][i]['n']), 'act': 'nest', 'call': g_direct(r)})
            else:
                f = rnd_fault(r, t, i, recs[t][i], classes=('line', 'seam', 'seam'))
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out, cache = [], {}
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                todo = [(op, rec['out'], '')] + [(n['op'], n['out'], '-nested') for n in rec.get('nested', ())]
                for o, res_, where in todo:
                    d = direct_miss(spec, o, res_, cache)
                    note(res, 'oracle:%s %s' % (o['f'], 'answered' if res_[0] == 'ok' else 'raised'))
                    if d:
                        out.append({'class': 'direct%s:%s%s' % (where, o['f'], o['a'].get('consistency', '')), 'op': [t, i],
                                    'what': '%s%s: %s' % (where[1:] + ' ' if where else '', op_text(spec, o)[:300], d)})
        return out


# =============================================================================================
def half(r, k=8, den=2):
    return r.randint(-k, k) / den


def g_vert(r):
    """a call that lists the vertices of a polyhedral solution set"""
    f = r.choice(['lineqs'] * 4 + ['IntLinIncR2'] * 4 + ['lineqs3D'] * 3 + ['IntLinIncR3'])
    m = 2 if f in PLOT2D else 3
    den = r.choice([1, 1, 2, 4])
    bounds = None if r.random() < .5 else ['list', [['list', [-6.0, -5.0, -7.0][:m]], ['list', [6.0, 7.0, 8.0][:m]]]]
    if f in ('lineqs', 'lineqs3D'):
        n = r.randint(1, 7 if m == 2 else 6)
        A = [[r.randint(-4, 4) / den for _ in range(m)] for _ in range(n)]
        b = [r.randint(-6, 2) / den for _ in range(n)]
        if r.random() < (.6 if n > 2 else .8):
            for j in range(m):
                for s in (1.0, -1.0):
                    A.append([s if k == j else 0.0 for k in range(m)])
                    b.append(-float(r.randint(0, 5)))
        while len(A) > 1 and r.random() < .12:          # the same edge twice, or a narrower or an opposite one
            i, k = r.randrange(len(A)), r.choice([1, 1, 2, .5, -1])
            row, c, at = [v * k for v in A[i]], b[i] * k - r.choice([0, 0, 1]), r.randrange(len(A) + 1)
            A.insert(at, row)
            b.insert(at, c)
        if not any(any(row) for row in A):
            A[0][0] = 1.0
        if r.random() < .25:                  # a corner cut off so close to it that two vertices nearly coincide
            V = sorted(corners(A, b))
            if V:
                v = r.choice(V)
                act = [row for row, c in zip(A, b) if sum(map(Fr_, row, v)) == c]
                g = [float(sum(c)) for c in zip(*act)]
                if any(g):
                    A.append(g)
                    b.append(float(sum(map(Fr_, g, v))) + 2.0 ** -r.randint(7, 14))
        a = {'A': ['nd', [len(A), m], [float(v) for row in A for v in row]], 'b': ['nd', [len(A)], [float(v) for v in b]], 'bounds': bounds}
        if r.random() < .1:
            a['A'], a['b'] = ['list', [['list', list(map(float, row))] for row in A]], ['list', list(map(float, b))]
        elif r.random() < .12:                # through the entry point for interval systems, which passes it on
            f = 'IntLinIncR%d' % m
            a['consistency'] = r.choice(['uni', 'tol'])
        return {'f': f, 'a': dict(a, show=False) if m == 2 else a}
    n = r.choice([1, 2, 2, 3]) if m == 2 else r.choice([2, 3, 3])
    A, b = [], []
    for i in range(n):
        for j in range(m):
            c, h = half(r), r.choice([0, .5, 1, 1])
            if j == i % m and r.random() < .6:
                c, h = r.choice([-6, -4, 4, 6, 8]), .5
            A.append([c - h, c + h])
        if all(e == [0, 0] for e in A[-m:]) and r.random() < .5:
            A[-1] = [1.0, 1.0]
        c, h = half(r), r.choice([0, .5, 1, 2, 4])
        b.append([c - h, c + h])
    if r.random() < .2:                       # a solution that is a corner of the set in several orthants
        b = [[-abs(e[1] - e[0]) / 2, abs(e[1] - e[0]) / 2] for e in b]
    a = {'A': ['A', [n, m], A], 'b': ['A', [n], b], 'consistency': r.choice(['uni', 'tol']), 'bounds': bounds}
    return {'f': f, 'a': dict(a, show=False) if m == 2 else a}


def Fr_(u, v):
    from fractions import Fraction as Fr
    return Fr(u) * v


def corners(A, b):
    """the exact vertices of {x: A x >= b}, as tuples of fractions"""
    from fractions import Fraction as Fr
    from itertools import combinations
    from math import lcm
    m = len(A[0])
    rows = set()
    for row, c in zip(A, b):
        q = [Fr(v) for v in row] + [Fr(c)]
        k = lcm(*(v.denominator for v in q))
        rows.add(tuple(int(v * k) for v in q))
    rows = sorted(rows)
    V = set()
    for I in combinations(rows, m):
        if m == 2:
            (a, b_, e), (c, d, g) = I
            D = a * d - b_ * c
            N = (e * d - b_ * g, a * g - e * c)
        else:
            (a1, a2, a3, a4), (b1, b2, b3, b4), (c1, c2, c3, c4) = I
            p, q, s = b2 * c3 - b3 * c2, b3 * c1 - b1 * c3, b1 * c2 - b2 * c1
            D = a1 * p + a2 * q + a3 * s
            N = (a4 * p + a2 * (b3 * c4 - b4 * c3) + a3 * (b4 * c2 - b2 * c4),
                 a1 * (b4 * c3 - b3 * c4) + a4 * q + a3 * (b1 * c4 - b4 * c1),
                 a1 * (b2 * c4 - b4 * c2) + a2 * (b4 * c1 - b1 * c4) + a4 * s)
        if D == 0:
            continue
        if D < 0:
            D, N = -D, tuple(-v for v in N)
        if all(sum(u * v for u, v in zip(row, N)) >= row[m] * D for row in rows):
            V.add(tuple(Fr(v, D) for v in N))
    return V


def window(A, b, lo, hi):
    m = len(A[0])
    E = [[float(k == j) for k in range(m)] for j in range(m)]
    return list(A) + E + [[-v for v in row] for row in E], list(b) + list(lo) + [-v for v in hi]


def set_facts(A, b, bounds):
    """{kind: empty | bounded | cut | free, V: exact vertices} of what the call is to list"""
    m = len(A[0])
    if any(not any(row) and c > 0 for row, c in zip(A, b)):
        return {'kind': 'empty', 'V': set()}
    b = [c for row, c in zip(A, b) if any(row)]
    A = [row for row in A if any(row)]
    if not A:
        return {'kind': 'free', 'V': set(), 'any': None}
    cone = corners(*window(A, [0] * len(A), [-1] * m, [1] * m))
    V = corners(A, b)
    if len(cone) == 1:
        return {'kind': 'bounded' if V else 'empty', 'V': V}
    if bounds:
        return {'kind': 'cut', 'V': corners(*window(A, b, *bounds))}
    return {'kind': 'free', 'V': V, 'any': bool(V) or bool(corners(*window(A, b, [-10**4] * m, [10**4] * m)))}


def pieces(op, spec):
    """[(A, b)] of the polyhedra a call lists: A x >= b"""
    a = op['a']
    v, w = resolved(spec, a['A']), resolved(spec, a['b'])
    if v[0] == 'list':
        return [([row[1] for row in v[1]], w[1])]
    n, m = v[1]
    if v[0] == 'nd':
        return [([v[2][i * m:(i + 1) * m] for i in range(n)], w[2])]
    out = []
    S = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
    for s in S if m == 2 else [q + (z,) for z in (1, -1) for q in S]:
        A, b = [], []
        for i in range(n):
            row = v[2][i * m:(i + 1) * m]
            lo, hi = [e[0] if t > 0 else e[1] for e, t in zip(row, s)], [e[1] if t > 0 else e[0] for e, t in zip(row, s)]
            if a['consistency'] == 'uni':
                A += [[-x for x in lo], hi]
                b += [-w[2][i][1], w[2][i][0]]
            else:
                A += [lo, [-x for x in hi]]
                b += [w[2][i][0], -w[2][i][1]]
        for j in range(m):
            A.append([float(s[j]) if k == j else 0.0 for k in range(m)])
            b.append(0.0)
        out.append((A, b))
    return out


def close(p, q):
    return all(abs(u - v) <= 1e-7 * (1 + abs(v)) for u, v in zip(p, q))


def loop_miss(P):
    """None, or the point at which the listed corners stop going round their convex hull"""
    n = len(P)
    if n < 4:
        return None
    turn = []
    for i in range(n):
        (x0, y0), (x1, y1), (x2, y2) = P[i - 1], P[i], P[(i + 1) % n]
        turn.append((x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1))
    big = max(max(abs(x), abs(y)) for x, y in P) ** 2 + 1
    for sign in (1, -1):
        if all(sign * t >= -1e-6 * big for t in turn):
            # one turn only: the polygon must not wind twice around
            c = [sum(v) / n for v in zip(*P)]
            from math import atan2, pi
            ang = [atan2(y - c[1], x - c[0]) for x, y in P]
            total = sum((ang[i] - ang[i - 1] + pi) % (2 * pi) - pi for i in range(n))
            return None if abs(total) < 3 * pi else P[0]
    return P[turn.index(max(turn, key=abs))]


def vert_miss(spec, op, out, cache):
    """None, or how a list of vertices is not that of the set"""
    if out[0] != 'ok':
        return None
    a, e = op['a'], out[1]
    if e is None or isinstance(e, list) and e and e[0] not in ('list', 'nd'):
        return 'returned %s' % show(e, 200)
    key = repr([op['f'], resolved(spec, a['A']), resolved(spec, a['b']), a.get('consistency'), a['bounds']])
    if key not in cache:
        bounds = [x[1] for x in a['bounds'][1]] if a['bounds'] else None
        cache[key] = [(A, b, set_facts(A, b, bounds)) for A, b in pieces(op, spec)]
    many = op['f'].startswith('Int') and resolved(spec, a['A'])[0] == 'A'
    parts = e[1] if many else [e]
    if many and (e[0] != 'list' or len(parts) != len(cache[key])):
        return 'returned %d pieces for %d orthants' % (len(parts), len(cache[key]))
    for k, ((A, b, F), x) in enumerate(zip(cache[key], parts)):
        P = verts(x)
        V = [tuple(map(float, v)) for v in F['V']]
        name = 'orthant %d: ' % k if many else ''
        if any(c != c or abs(c) == float('inf') for p in P for c in p):
            return '%slists a point that is not finite: %s' % (name, P)
        for p in P:
            for row, c in zip(A, b):
                if sum(u * v for u, v in zip(row, p)) < c - 1e-6 * (1 + abs(c) + max(map(abs, row)) * max(map(abs, p))):
                    return '%sthe listed point %s is not in the set: %s x >= %s' % (name, p, row, c)
        for v in V:
            if not any(close(p, v) for p in P):
                return '%sthe vertex %s is not listed among %s' % (name, v, P)
        if F['kind'] != 'free':
            for p in P:
                if not any(close(p, v) for v in V):
                    return '%sthe listed point %s is no vertex of the set (its vertices: %s)' % (name, p, V)
        elif F['any'] and not P:
            return '%snothing is listed for a set that is not empty' % name
        if len(A[0]) == 2:
            p = loop_miss(P)
            if p:
                return '%sthe vertices are not listed in boundary order at %s: %s' % (name, p, P)
        else:
            for face in x[1] if isinstance(x, list) and x and x[0] == 'list' else ():
                Q = verts(face)
                bnd = [x[1] for x in a['bounds'][1]] if a['bounds'] else None
                rows = list(zip(A, b)) if F['kind'] == 'bounded' else list(zip(*window(A, b, *bnd))) if F['kind'] == 'cut' else ()
                if rows and not any(any(row) and all(abs(sum(u * v for u, v in zip(row, p)) - c) <= 1e-6 * (1 + abs(c) + max(map(abs, p))) for p in Q) for row, c in rows):
                    return '%sthe face %s is in no bounding plane' % (name, Q)
    return None


@prop
class C22(Prop):
    """listed vertices are the vertices of the solution set, in every environment"""
    id = 'C22'

    def make(self, ctx, r):
        T = 1 if r.random() < .7 else 2
        threads = [[g_vert(r) for _ in range(r.randint(1, 4))] for _ in range(T)]
        for t in threads:
            for i in range(1, len(t)):
                if r.random() < .35:
                    t[i] = copy.deepcopy(t[0])
                    if r.random() < .6:       # the same data, asked another way
                        if 'consistency' in t[i]['a'] and r.random() < .6:
                            t[i]['a']['consistency'] = r.choice(['uni', 'tol'])
                        else:
                            m = 2 if t[i]['f'] in PLOT2D else 3
                            t[i]['a']['bounds'] = r.choice([None, ['list', [['list', [-2.0, -3.0, -2.0][:m]], ['list', [3.0, 2.0, 4.0][:m]]]]])
        reuse(r, threads, .2)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        for t in threads:
            for o in t:
                if r.random() < .3:
                    o['round'] = r.choice(MODES)
        if T > 1 or r.random() < .5:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            t = r.randrange(T)
            i = r.randrange(len(threads[t]))
            if r.random() < .45 and recs[t][i]['n']:
                spec['faults'].append({'t': t, 'op': i, 'n': rnd_point(r, recs[t][i]['n']), 'act': 'nest', 'call': g_vert(r)})
            else:
                f = rnd_fault(r, t, i, recs[t][i], classes=('line', 'line', 'seam'))
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out, cache = [], {}
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                todo = [(op, rec['out'], '', 'nomem' not in op and not any((f['t'], f['op']) == (t, i) for f in spec['faults']))]
                todo += [(n['op'], n['out'], '-nested', False) for n in rec.get('nested', ())]
                for o, res_, where, clean in todo:
                    d = vert_miss(spec, o, res_, cache)
                    if d is None and clean and res_[0] == 'exc':
                        d = 'raised %s' % show(res_[1:], 300)
                    note(res, 'oracle:%s %s' % (o['f'], 'answered' if res_[0] == 'ok' else 'raised'))
                    if d:
                        out.append({'class': 'vertices%s:%s' % (where, o['f']), 'op': [t, i],
                                    'what': '%s%s: %s' % (where[1:] + ' ' if where else '', op_text(spec, o)[:300], d)})
        return out


# =============================================================================================
def hook_cblog(sim, spec, extra):
    """record every evaluation of the user's function, and let faults replace its value"""
    import numpy as np
    log = extra.setdefault('log', [])

    def cblog(kind, fn, x, r):
        t = sim.cur
        if t is None or t.mute or len(log) > 60000:
            return fn(x)
        key = [t.id, t.opi]
        xs = [codec._f(float(v)) for v in np.ravel(x)]
        v, g = fn(x)
        if r is not None and r['act'] == 'value':
            w = {'nan': float('nan'), 'inf': float('inf'), 'big': 1e300}[r['value']]
            v = w
            if r.get('grad'):
                g = np.full(len(np.ravel(g)), w)
        log.append([key, xs, codec._f(float(v)), codec._f(float(np.sqrt(np.sum(np.square(g)))))])
        return v, g
    sim.cblog = cblog


HOOKS['cblog'] = hook_cblog


def g_script(r, n):
    """a function that is not convex: the optimiser's bookkeeping must still be right"""
    vals = [[r.choice([r.randint(-40, 40) / 8, r.uniform(-5, 5)]), r.choice([0.0, 0.5, -1.0, 2.0, 1e-3, -3.0])] for _ in range(r.randint(2, 40))]
    if vals[0][1] == 0:
        vals[0][1] = 1.0
    return ['cb', 'steps', vals, n]


def fstar(cb):
    import numpy as np
    if cb[1] in ('cvx_abs', 'cvx_quad'):
        return 0.0
    R, o = np.array(cb[2], float), np.array(cb[3], float)
    m = R.shape[1]
    c = np.zeros(m + 1)
    c[m] = 1
    v = lp_min(c, np.hstack([R, -np.ones((len(o), 1))]), -o)
    return v if abs(v) != float('inf') else None


def g_record_op(r):
    if r.random() < .62:
        o = {'f': 'ralgb5', 'a': ops.gen_ralg(r)}
        n = o['a']['x0'][1][0]
        if r.random() < .35:
            o['a']['f'] = g_script(r, n)
        o['a']['maxiter'] = r.choice([0, 1, 2, 3, 5, 10, 30, 100])
        kw = {}
        if r.random() < .4:
            kw = r.choice([{'tolf': 0}, {'tolg': 1e-3}, {'tolx': 1e-3}, {'h0': 0.1}, {'nh': 1}, {'alpha': 2.0}, {'tolf': 1e-2}, {'q1': 0.8}, {'q2': 1.2}, {'nsims': 5}])
        o['a']['kw'] = kw
        return o
    o = {'f': 'maximize', 'a': ops.gen_fmax(r)}
    if o['a']['lc'] is not None and o['a']['lc'][4] is None and r.random() < .7:
        o['a']['lc'][4] = float(r.choice([1, 5, 20]))
    return o


TOLG = 1e-12


@prop
class C11(Prop):
    """optimiser records are consistent with what was evaluated"""
    id = 'C11'

    def make(self, ctx, r):
        T = 1 if r.random() < .8 else 2
        base = g_record_op(r)
        threads = []
        for _ in range(T):
            t = []
            for _ in range(r.randint(1, 3)):
                o = copy.deepcopy(base) if r.random() < .8 else g_record_op(r)
                if r.random() < .6:
                    o['a']['maxiter'] = r.choice([0, 1, 2, 3, 5, 10, 30, 100])
                t.append(o)
            threads.append(t)
        if T == 1 and r.random() < .15 and base['f'] == 'ralgb5' and base['a']['f'][1] != 'steps':
            o = copy.deepcopy(base)
            o['a']['maxiter'], o['a']['kw'] = 2000, {}
            threads[0].append(o)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'hook': 'cblog', 'ambient': rnd_ambient(r)}
        if T > 1 or r.random() < .6:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            for _ in range(r.randint(1, 2)):
                t = r.randrange(T)
                i = r.randrange(len(threads[t]))
                n = recs[t][i]['seams'].get('cb:f', 0)
                if not n:
                    continue
                f = {'t': t, 'op': i, 'seam': 'cb:f', 'k': r.randint(1, n)}
                k = r.random()
                if k < .4:
                    f.update(act='raise', exc=r.choice(ERRORS + CANCEL))
                elif k < .7 and f['k'] > 1:
                    f.update(act='value', value=r.choice(['nan', 'inf', 'big']), grad=r.random() < .4)
                else:
                    c = g_record_op(r)
                    c['a']['maxiter'] = r.choice([0, 1, 3])
                    f.update(act='nest', call=c)
                spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out = []
        logs = {}
        if len(res['extra'].get('log', ())) > 60000:
            raise Inconclusive('evaluation log overflow')
        for key, x, v, g in res['extra'].get('log', ()):
            logs.setdefault(tuple(key), []).append((x, v, g))
        F = lambda h: float('nan') if h == 'nan' else float.fromhex(h)
        seen = {}
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                bad = lambda cls, what: out.append({'class': 'record-%s:%s' % (cls, op['f']), 'op': [t, i], 'what': '%s (budget %s): %s' % (op['f'], op['a']['maxiter'], what)})
                fs = [f for f, x in zip(spec['faults'], res['fired']) if x and (f['t'], f['op']) == (t, i)]
                for nst in rec.get('nested', ()):
                    d = record_miss(spec, nst['op'], nst['out']) if nst['op']['f'] == 'maximize' else None
                    if d:
                        bad('nested', 'nested maximize: ' + d)
                if op['f'] == 'maximize':
                    d = record_miss(spec, op, rec['out'])
                    note(res, 'oracle:maximize ' + rec['out'][0])
                    if d:
                        bad('value', d)
                    elif rec['out'][0] == 'ok':
                        fr, nit, ncalls = (nums(v)[0] for v in rec['out'][1][1][1:4])
                        key = repr([{k: v for k, v in sorted(op['a'].items()) if k != 'maxiter'}])
                        for n, a in seen.get(key, ()):
                            s, l = (a, (fr, nit, ncalls)) if n <= op['a']['maxiter'] else ((fr, nit, ncalls), a)
                            if l[0] < s[0] or l[1] < s[1] or l[2] < s[2]:
                                bad('budget', 'budgets %s and %s gave (value, iterations, calls) %s and %s' % (n, op['a']['maxiter'], a, (fr, nit, ncalls)))
                        seen.setdefault(key, []).append((op['a']['maxiter'], (fr, nit, ncalls)))
                    continue
                log = logs.get((t, i), [])
                raised = [f for f in fs if f['act'] == 'raise']
                note(res, 'oracle:ralgb5 ' + ('callback raised' if raised else rec['out'][0]))
                if raised:
                    if not rec.get('same'):
                        bad('exc', 'the callback raised %s on call %d, the caller got %s' % (raised[0]['exc'], raised[0]['k'], rec['out'][:2]))
                    elif len(log) != raised[0]['k'] - 1:
                        bad('exc', 'the callback raised on call %d but was called %d more times' % (raised[0]['k'], len(log) - raised[0]['k'] + 1))
                    continue
                if rec['out'][0] != 'ok':
                    if rec.get('limit'):
                        bad('hang', 'did not finish')
                    continue
                xr, fr, nit, ncalls, ccode = rec['out'][1][1]
                xr, fr, nit, ncalls, ccode = nums(xr), nums(fr)[0], int(nums(nit)[0]), int(nums(ncalls)[0]), int(nums(ccode)[0])
                if not log:
                    bad('calls', 'the function was never evaluated')
                    continue
                x0 = [codec._f(float(v)) for v in op['a']['x0'][2]]
                if log[0][0] != x0:
                    bad('start', 'the first evaluation was at %s, not at the starting point' % log[0][0])
                if ncalls != len(log):
                    bad('calls', 'reported %d calls, made %d' % (ncalls, len(log)))
                if not any(f['act'] == 'value' and f['k'] == 1 for f in fs):
                    best = min(v for v in (F(v) for _, v, _ in log) if v == v)
                    if fr != best:
                        bad('min', 'reported the minimum %r, but %r was evaluated' % (fr, best))
                    else:
                        hx = [codec._f(v) for v in xr]
                        if not any(x == hx and F(v) == fr for x, v, _ in log):
                            bad('point', 'reported the minimum %r at %s, where the function was never found to have that value' % (fr, xr))
                m = op['a']['maxiter']
                if not 0 <= nit <= m + 1 or ccode not in (1, 2, 3, 4, 5) or (ccode == 4) != (nit == m + 1):
                    bad('code', 'exit code %d after %d iterations of a budget of %d' % (ccode, nit, m))
                if ccode == 2 and not F(log[-1][2]) < op['a']['kw'].get('tolg', TOLG) * (1 + 1e-9):
                    bad('code', 'stopped for a small subgradient, but its last norm was %r' % F(log[-1][2]))
                if len(log) > 1 + 501 * (m + 1):
                    bad('calls', '%d evaluations in %d iterations' % (len(log), m))
                if not fs and m == 2000 and op['a']['f'][1] != 'steps':
                    s = fstar(op['a']['f'])
                    note(res, 'oracle:ralgb5 optimum compared')
                    if s is not None and not fr - s <= 1e-4 * (1 + abs(s) + abs(F(log[0][1]))):
                        bad('optimum', 'stopped with exit code %d at %r; the minimum of this convex function is %r' % (ccode, fr, s))
                key = repr([{k: v for k, v in sorted(op['a'].items()) if k != 'maxiter'}])
                if not fs:
                    for n, other in seen.get(key, ()):
                        k = min(len(other), len(log))
                        if other[:k] != log[:k]:
                            bad('prefix', 'two runs that differ only in the budget (%d, %d) evaluated different points' % (n, m))
                        elif (n <= m and len(other) > len(log)) or (m <= n and len(log) > len(other)):
                            bad('prefix', 'budgets %d and %d: the smaller one evaluated more points' % (n, m))
                    seen.setdefault(key, []).append((m, log))
        return out

    def nontrivial(self, spec, res):
        return True


# =============================================================================================
def smooth(w, n, alpha, beta):
    w = [1.0] * n if w is None else list(map(float, w))
    w[0] = beta * w[0] * (1 - alpha)
    for k in range(1, n):
        w[k] = beta * (w[k] * (1 - alpha) + alpha * w[k - 1])
    return w


def plain_list(v):
    """a weight argument as numbers"""
    if v is None:
        return None
    if v[0] == 'nd':
        return v[2]
    return [x[1] if isinstance(x, list) else x for x in v[1]]


def fit_miss(spec, op, out, model):
    """the stored value is the objective at the stored coefficients, as seen through predict"""
    import numpy as np
    if out[0] != 'ok':
        return None
    st, pred = out[1][1]
    est = {k: v for k, v in next(v for k, v in st[1] if k == 'estimator')[1]}
    xr, fr = nums(est['xr']), nums(est['fr'])[0]
    a = op['a']
    lc = resolved(spec, a.get('lc'))
    p = penalty(lc, np.array(xr))
    if p is None or pred is None:
        return None
    e = ends(pred)
    y = resolved(spec, a['y'])
    ya, yb = arr_spec(y)
    if e is None or len(e[0]) != len(ya):
        return 'the prediction for the training points is not an interval per point: %s' % show(pred, 150)
    ym, yr = (ya + yb) / 2, (yb - ya) / 2
    pa, pb = np.array(e[0]), np.array(e[1])
    w = np.array(smooth(plain_list(resolved(spec, a.get('weight'))), len(ya), model[1], model[2]))
    lo, hi = ym - pb, ym - pa
    ob = a['objective']
    if ob == 'Tol':
        v = yr - np.maximum(np.abs(lo), np.abs(hi))
    elif ob == 'Uni':
        v = yr - np.where(lo * hi <= 0, 0.0, np.minimum(np.abs(lo), np.abs(hi)))
    else:
        v = yr + (pb - pa) / 2 - np.abs((lo + hi) / 2)
    v = w * v
    want = (v.min() if a['norm'] == 'inf' else v.sum()) - p
    scale = 1 + abs(fr) + np.abs(pa).max() + np.abs(pb).max()
    off = want - fr
    if op['f'] == 'ispae_fit':                # predict() bounds each term on its own, fit() the whole polynomial
        off = max(0.0, off) if ob == 'Tol' else min(0.0, off)
    if not abs(off) <= 1e-9 * scale:
        return 'stores the value %r, but its own predictions for the training data give %r' % (fr, float(want))
    return None


def spoil(r, o):
    """make a fit fail for a reason of the caller's own"""
    a = o['a']
    k = r.choice(['objective', 'norm', 'y', 'x0', 'weight', 'kw', 'op'])
    if k == 'objective':
        a['objective'] = 'Nope'
    elif k == 'norm':
        a['norm'] = 'l7'
    elif k == 'y':
        y = copy.deepcopy(a['y'])
        y[1][0] -= 1
        y[2].pop()
        a['y'] = y
    elif k == 'x0':
        a['x0'] = ['nd', [7], [1.0] * 7]
    elif k == 'weight':
        a['weight'] = ['nd', [1], [1.0]]
    elif k == 'kw':
        a['maxiter'] = 'many'
    elif o['f'] == 'ispae_fit':
        a['order'] = ['list', [1, 1, 1, 1]]
    else:
        a['X'] = ['A', [3], [[0, 1]] * 3]


@prop
class C12(Prop):
    """fitting a model is all or nothing, and can be retried"""
    id = 'C12'

    def make(self, ctx, r):
        wils = r.random() < .6
        gen = ops.gen_wfit if wils else ops.gen_ifit
        name = 'wils_fit' if wils else 'ispae_fit'
        prog, model = [], None
        for i in range(r.randint(2, 4)):
            o = {'f': name, 'a': gen(r)}
            if i and r.random() < .5:
                m = r.choice(prog)
                if m['f'] == name:
                    o = copy.deepcopy(m)
            model = model or o['a']['model']
            o['a']['model'] = ['$', 0]
            o['a']['Xt'] = copy.deepcopy(o['a']['X'])
            if not wils:
                o['a']['maxiter'] = r.choice([0, 1, 2])
            if o['a']['objective'] == 'Bad':
                o['a']['objective'] = 'Tol'
            if wils and r.random() < .2:      # columns that depend on each other
                n, m = o['a']['X'][1]
                for k in range(n):
                    for l in range(m):
                        o['a']['X'][2][k * m + l] = list(o['a']['X'][2][k * m]) if l else r.choice([[0.0, 0.0], o['a']['X'][2][k * m]])
                if m == 1:
                    o['a']['X'][2] = [[0.0, 0.0]] * n
                o['a']['Xt'] = copy.deepcopy(o['a']['X'])
                if r.random() < .7:
                    o['a']['x0'] = None
            if o['a'].get('weight') and r.random() < .4:
                n = o['a']['y'][1][0]
                o['a']['weight'] = ['list', [['yf', float(w)] for w in plain_list(o['a']['weight'])]]
            prog.append(o)
        spec = {'pool': [model], 'threads': [prog], 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r)}
        at = r.randrange(len(prog))
        if r.random() < .3:
            spoil(r, prog[at])
        else:
            rec = probe(ctx, spec)[0][at]
            seams = {k: v for k, v in rec['seams'].items() if k.startswith('num:')}
            if seams and r.random() < .5:
                s = rnd_seam(r, seams)
                spec['faults'].append({'t': 0, 'op': at, 'seam': s[0], 'k': s[1], 'act': 'raise', 'exc': r.choice(ERRORS + CANCEL)})
            else:
                f = rnd_fault(r, 0, at, rec)
                if f:
                    spec['faults'].append(f)
        if r.random() < .7:                   # look at the model after the failure, then retry
            f = name.replace('fit', 'predict')
            prog.insert(at + 1, {'f': f, 'a': {'model': ['$', 0], 'Xt': copy.deepcopy(prog[at]['a']['Xt'])}})
        if r.random() < .7 and spec['faults']:
            prog.append(copy.deepcopy(prog[at]))
        return spec

    def judge(self, ctx, spec, res):
        recs = res['ops'][0]
        out = []
        last, ft = {}, []
        committed = {}
        for i, (op, rec) in enumerate(zip(spec['threads'][0], recs)):
            ft.append(dict(last))
            if not op['f'].endswith('_fit'):
                continue
            it = ref_item(spec, op, rec['pre'], {})
            done = {'f': it['f'], 'a': {k: v for k, v in it['a'].items() if k not in ('model', 'Xt')}}
            if rec['out'][0] == 'ok':
                last[0] = done
                continue
            note(res, 'failed fits' + (' (injected)' if 'injected' in rec else ''))
            d = diff(rec['post']['model'], rec['pre']['model'])
            if not d:
                continue
            s = ref_spec(spec, ref_item(spec, dict(op, a={k: v for k, v in op['a'].items() if k != 'Xt'}), rec['pre'], ft[i]))
            s['observe'] = ['args']
            full = chk(ctx.ref(s))['ops'][0][0]
            if full['out'][0] == 'ok' and not diff(rec['post']['model'], full['post']['model']):
                last[0] = done                # it had already finished
                continue
            out.append({'class': 'fit-atomic:' + op['f'], 'op': i, 'what': '%s failed (%s) and left the model changed: %s' % (
                op['f'], rec.get('msg', rec['out'][1])[:120], d)})
        if out:
            return out
        for i, (op, rec) in enumerate(zip(spec['threads'][0], recs)):
            if hit(rec) or any(f['op'] == i and fired for f, fired in zip(spec['faults'], res['fired'])):
                continue
            if op['f'].endswith('_fit'):
                note(res, 'oracle:%s %s' % (op['f'], rec['out'][0]))
                d = fit_miss(spec, op, rec['out'], spec['pool'][0])
                if d:
                    out.append({'class': 'fit-value:' + op['f'], 'op': i, 'what': '%s (%s, %s): %s' % (op['f'], op['a']['objective'], op['a']['norm'], d)})
            ref = ref_out(ctx, spec, ref_item(spec, op, rec['pre'], ft[i]))
            d = same(rec['out'], ref['out'])
            if d and not ref.get('limit'):
                out.append({'class': 'fit-history:' + op['f'], 'op': i, 'what': '%s, after the earlier fits of this model, differs from a new model that only saw the last successful one: %s' % (op['f'], d)})
        return out

    def nontrivial(self, spec, res):
        return any(r['out'][0] != 'ok' for r in res['ops'][0])


# =============================================================================================
ENVKEYS = ('np.random', 'random', 'mpmath', 'cvxopt.options', 'warnings.filters', 'figures', 'current figure', 'rcParams', 'cwd', 'environ',
           'recursionlimit', 'files')


def hook_env(sim, spec, extra):
    """user code and backends called in the middle of a call must find the caller's environment"""
    orig = sim.seam
    log = extra.setdefault('env', [])
    own = {}

    def seam(name, detail=0):
        t = sim.cur
        if t is not None and not t.mute and name.startswith(('cb:', 'lp', 'la:', 'num:')) and len(log) < 5:
            op = sim.spec['threads'][t.id][t.opi]
            k = (t.id, t.opi)
            if own.get(k, 0) < 12 and op['f'] != 'ive' and 'draws' not in ops.OPS[op['f']].tags:
                own[k] = own.get(k, 0) + 1
                t.mute += 1
                now = sim.envsnap()
                t.mute -= 1
                for e in ENVKEYS:
                    if e == 'np.random' and any(o['f'] == 'ive' for o in sim.spec['threads'][0]):
                        continue              # the only documented consumer of that stream ran before
                    if now[e] != spec['_env'][e]:
                        log.append([name, op['f'], e, str(now[e])[:60], str(spec['_env'][e])[:60]])
        return orig(name, detail)
    sim.seam = seam
    spec['_env'] = sim.envsnap()


HOOKS['env'] = hook_env


def g_ambient(r):
    """settings that belong to the process, not to the library"""
    a = {'npseed': r.randrange(1 << 20), 'pyseed': r.randrange(1 << 20)}
    if r.random() < .5:
        a['err'] = r.choice([{'all': 'ignore'}, {'all': 'warn'}, {'divide': 'ignore'}, {'over': 'ignore', 'invalid': 'ignore'}])
    if r.random() < .6:
        a['dps'] = r.choice([6, 15, 50, 100])
    if r.random() < .35:
        a['figure'] = r.choice([1, 2])
    if r.random() < .4:
        a['print'] = dict(r.sample([('precision', 3), ('suppress', True), ('threshold', 2), ('linewidth', 60), ('linewidth', 120), ('edgeitems', 1),
                                    ('floatmode', 'fixed'), ('sign', '+'), ('nanstr', 'NaN')], r.randint(1, 5))) if r.random() < .8 else {'legacy': '1.13'}
    if r.random() < .35:
        a['rc'] = dict(r.sample([('lines.linewidth', 7.0), ('figure.figsize', [3.0, 2.0]), ('axes.grid', True), ('figure.dpi', 40.0), ('axes.unicode_minus', False),
                                 ('figure.max_open_warning', 3), ('font.size', 6.0), ('savefig.dpi', 30.0), ('savefig.format', 'pdf')], r.randint(1, 3)))
    if r.random() < .2:
        a['bufsize'] = 1024
    if r.random() < .2:
        a['prec'] = r.choice([5, 60])
    if r.random() < .15:
        a['recursion'] = 3000
    if r.random() < .15:
        a['gc'] = True
    if r.random() < .2:
        a['environ'] = {'INTVALPY': '1', 'OMP_NUM_THREADS': '3'}
    if r.random() < .2:
        a['chdir'] = 'here'
    if r.random() < .3:
        a['cvx'] = r.choice([{'show_progress': True}, {'show_progress': False}, {'glpk': {'msg_lev': 'GLP_MSG_OFF'}}, {'msg_lev': 'GLP_MSG_ERR'}])
    return a


@prop
class C13(Prop):
    """the process environment is neither changed nor depended on"""
    id = 'C13'

    def make(self, ctx, r):
        n = r.randint(1, 3)
        k = r.random()
        kw = {'names': {'ive'}} if k < .08 else {'tags': r.choice([('solver',), ('func', 'opt'), ('nonlin',), ('model',), ('plot',)]), 'exclude': ('draws',)} if k < .5 \
            else {'exclude': ('draws',) + (('heavy',) if r.random() < .8 else ())}
        if r.random() < .14:
            kw = {'names': {'render', 'iplot'} if r.random() < .85 else {'render', 'iplot', 'userfig'}}
        text = r.random() < .06
        if text:
            n, kw = 1, {'names': {'prop'}}
        pool, prog = ops.g_program(r, n, models=False, **kw)
        if text:
            prog[0]['a']['o'] = 'repr'
        threads = [prog]
        spec = {'pool': pool, 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args', 'env'], 'ambient': g_ambient(r), 'hook': 'env'}
        if r.random() < .15 and not any(o['f'] in ('ive', 'render', 'iplot', 'userfig') for o in prog):
            threads.append([copy.deepcopy(o) for o in prog])
            for o in threads[1]:
                for k in ops.OPS[o['f']].mut:
                    v = o['a'].get(k)
                    if isinstance(v, list) and v[0] == '$':
                        o['a'][k] = copy.deepcopy(pool[v[1]])
        if len(threads) > 1 or r.random() < .55:
            recs = probe(ctx, spec)
            if len(threads) > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            if r.random() < .7:
                t = r.randrange(len(threads))
                i = r.randrange(len(threads[t]))
                f = rnd_fault(r, t, i, recs[t][i])
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out = []
        other = {'npseed': 777, 'pyseed': 778, 'figure': 0 if spec['ambient'].get('figure') else 1, 'dps': 25, 'prec': 12}
        for t, recs in enumerate(res['ops']):
            for i, rec in enumerate(recs):
                op = spec['threads'][t][i]
                how = 'returned' if rec['out'][0] == 'ok' else 'raised %s' % rec['out'][1]
                for k in rec['env0']:
                    if 'draws' in ops.OPS[op['f']].tags and k in ('figures', 'current figure', 'files'):
                        continue              # its purpose
                    if rec['env0'][k] != rec['env1'][k] and not (op['f'] == 'ive' and k == 'np.random'):
                        out.append({'class': 'env-%s:%s' % (k, op['f']), 'op': [t, i], 'what': '%s %s and changed %s of the process from %s to %s' % (
                            op_text(spec, op), how, k, str(rec['env0'][k])[:80], str(rec['env1'][k])[:80])})
                if len(res['ops']) > 1 or hit(rec) or any(x and (f['t'], f['op']) == (t, i) for f, x in zip(spec['faults'], res['fired'])):
                    continue
                if op['f'] == 'prop' and op['a']['o'] == 'repr' or 'draws' in ops.OPS[op['f']].tags:
                    continue
                o = ref_item(spec, op, rec['pre'], {})
                s = ref_spec(spec, o)
                s['ambient'] = other
                note(res, 'oracle:settings compared')
                ref = chk(ctx.ref(s))['ops'][0][0]
                d = same(rec['out'], ref['out'])
                if d and not (rec.get('limit') or ref.get('limit')):
                    out.append({'class': 'env-result:' + op['f'], 'op': [t, i], 'what': '%s gives another result under process settings %s than under %s: %s' % (
                        op_text(spec, op), spec['ambient'], other, d)})
        for name, f, e, got, want in res['extra'].get('env', ()):
            out.append({'class': 'env-callout:' + f, 'what': '%s calls out (%s) while %s of the process is changed from %s to %s' % (f, name, e, want, got)})
        return out

    def nontrivial(self, spec, res):
        return True


# =============================================================================================
PLOT2D = ('lineqs', 'IntLinIncR2')


def figs_new(rec):
    return {k: v for k, v in rec['figs1']['figs'].items() if k not in rec['figs0']['figs']}


def pts(rows):
    return [tuple(float.fromhex(v) for v in r) for r in rows]


def near(p, q, tol=1e-9):
    return all(abs(a - b) <= tol * (1 + abs(a) + abs(b)) for a, b in zip(p, q))


def verts(e):
    """every vertex in an encoded result, as tuples"""
    if not isinstance(e, list) or not e:
        return []
    if e[0] == 'nd' and len(e[2]) == 2 and e[2][1] in (2, 3):
        v = [F_(x) for x in e[3]]
        k = e[2][1]
        return [tuple(v[i:i + k]) for i in range(0, len(v), k)]
    if e[0] in ('list', 'tuple'):
        return [p for x in e[1] for p in verts(x)]
    return []


def F_(x):
    return float('nan') if x[1] == 'nan' else float.fromhex(x[1])


def same_set(P, Q):
    for a, b in ((P, Q), (Q, P)):
        for p in a:
            if not any(near(p, q) for q in b):
                return p
    return None


@prop
class C14(Prop):
    """rendering is isolated, complete and honest about I/O failures"""
    id = 'C14'

    def make(self, ctx, r):
        T = 1 if r.random() < .75 else 2
        pool, threads = [], []
        ip = None
        for _ in range(T):
            t = []
            for _ in range(r.randint(1, 3)):
                k = r.random()
                if t and k < .3 and t[-1]['f'] == 'render':
                    o = copy.deepcopy(t[-1])           # the same picture again
                elif k < .75 or T > 1:
                    o = {'f': 'render', 'a': ops.gen_render(r)}
                    while (T > 1 and o['a']['o'] not in PLOT2D) or (o['a']['o'] == 'IntLinIncR3' and r.random() < .6):
                        o = {'f': 'render', 'a': ops.gen_render(r)}
                elif k < .92:
                    o = {'f': 'iplot_draw', 'a': ops.gen_draw(r)}
                    if ip is not None and r.random() < .6:
                        o['a']['p'] = ['$', ip]
                        g = pool[ip][2:]
                        ax = None if r.random() < .4 or g[0] is None else r.randrange(2) if g != [2, 2] else ['tuple', [r.randrange(2), r.randrange(2)]]
                        o['a']['kw']['axindex'] = ax
                    else:
                        pool.append(o['a']['p'])
                        ip = len(pool) - 1
                        o['a']['p'] = ['$', ip]
                else:
                    o = {'f': 'userfig', 'a': {'k': r.randrange(10 ** 6)}}
                t.append(o)
            threads.append(t)
        for n, t in enumerate(threads):
            for m, o in enumerate(t):
                if o['f'] == 'render' and 'title' in o['a']['kw']:
                    if T > 1:
                        o['a']['kw']['title'] += '_%d_%d' % (n, m)
        spec = {'pool': pool, 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args', 'figs'],
                'ambient': {'figure': r.choice([0, 0, 1, 2]), 'npseed': 1}}
        if T > 1 or r.random() < .65:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            for _ in range(r.randint(1, 2)):
                t = r.randrange(T)
                i = r.randrange(len(threads[t]))
                rec = recs[t][i]
                if threads[t][i]['f'] == 'userfig' or any(f['op'] == i and f['t'] == t for f in spec['faults']):
                    continue
                k = r.random()
                drawing = [s for s in ('plt:figure', 'io:savefig', 'plt:art', 'plt:art') if s in rec['seams']]
                f = {'t': t, 'op': i}
                if k < .45 and 'io:savefig' in rec['seams']:
                    f.update(seam='io:savefig', k=1)
                    f.update(act='torn') if r.random() < .5 else f.update(act='raise', exc=r.choice(['OSError', 'MemoryError', 'SimFault', 'KeyboardInterrupt', 'ValueError']))
                elif k < .75 or T > 1:
                    f.update(act='nest', call={'f': 'userfig', 'a': {'k': r.randrange(10 ** 6)}})
                    if r.random() < .3:
                        c = ops.gen_render(r)
                        while c['o'] not in PLOT2D:
                            c = ops.gen_render(r)
                        c['kw']['title'] += 'n'
                        f['call'] = {'f': 'render', 'a': c}
                    if drawing and r.random() < .6:
                        s = r.choice(drawing)
                        f.update(seam=s, k=1 if r.random() < .3 else r.randint(1, rec['seams'][s]))
                    elif rec['n']:
                        f['n'] = max(1, rec['n'] - r.randint(0, 12)) if r.random() < .7 else rnd_point(r, rec['n'])
                    else:
                        continue
                else:
                    f = rnd_fault(r, t, i, rec)
                    if f and f['act'] != 'raise':
                        f = None
                    if f and 'n' in f and r.random() < .7:
                        f['n'] = max(1, rec['n'] - r.randint(0, 12))
                if f:
                    spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        out = []
        last, titles = None, {}
        for t, recs in enumerate(res['ops']):
            for i, rec in enumerate(recs):
                op = spec['threads'][t][i]
                a = op['a']
                bad = lambda cls, what: out.append({'class': 'plot-%s:%s' % (cls, a.get('o', op['f'])), 'op': [t, i], 'what': '%s(%s): %s' % (a.get('o', op['f']), a.get('kw', ''), what)})
                fs = [f for f, x in zip(spec['faults'], res['fired']) if x and (f['t'], f['op']) == (t, i)]
                raised = [f for f in fs if f['act'] in ('raise', 'torn')]
                out += unmodified(spec, op, rec, 'plot-args')
                before, after = rec['figs0']['figs'], rec['figs1']['figs']
                if last is None or rec['at'] > last[0]:
                    last = rec['at'], after, rec['figs1']['files']
                if op['f'] == 'userfig':
                    continue
                nested = rec.get('nested', ())
                refs = []
                for nst in nested:
                    o = {'f': nst['op']['f'], 'a': nst['op']['a']}
                    q = chk(ctx.ref(dict(ref_spec(spec, o), observe=['figs'])))['ops'][0][0]
                    refs.append(q)
                    if o['f'] == 'render':
                        d = same(nst['out'], q['out'])
                        if d:
                            bad('nested', 'nested rendering differs from the same call on its own: ' + d)
                if raised:
                    f = raised[0]
                    if f.get('seam') in ('io:savefig', 'plt:figure'):
                        if rec['out'][0] == 'ok':
                            bad('error', 'the figure could not be %s (%s) and the caller was not told' % ('written' if f['seam'][:2] == 'io' else 'opened', f.get('exc', 'torn write')))
                        elif f['act'] == 'raise' and not rec.get('same'):
                            bad('error', 'writing failed with %s, the caller got %s' % (f['exc'], rec['out'][1]))
                        elif f['act'] == 'torn' and rec['out'][1] != ('FileNotFoundError' if '/' in a['kw']['title'] else 'OSError'):
                            bad('error', 'the write failed with OSError, the caller got %s' % rec['out'][1])
                # figures of the caller, whatever the outcome
                mine = None
                if op['f'] == 'iplot_draw':
                    p = resolved(spec, a['p'])
                    mine = None if rec['out'][0] != 'ok' else str(int(rec['out'][1][1][0][1]))
                for k, v in before.items():
                    if op['f'] == 'iplot_draw' and (k == mine or mine is None):
                        continue
                    if k not in after:
                        bad('close', 'closed figure %s, which is not its own' % k)
                    elif after[k] != v and len(res['ops']) == 1:
                        bad('foreign', 'drew into figure %s, which is not its own: %s' % (k, diff(after[k], v)))
                if len(res['ops']) > 1:
                    if op['f'] == 'render' and 'title' in a['kw'] and not raised and rec['out'][0] == 'ok':
                        o = ref_item(spec, op, rec['pre'], {})
                        q = chk(ctx.ref(dict(ref_spec(spec, o), observe=['figs'])))['ops'][0][0]
                        titles[a['kw']['title']] = (t, i, figs_new(q), a, q['figs1']['files'])
                        d = same(rec['out'], q['out'])
                        if d:
                            bad('result', 'differs from the same call alone: ' + d)
                    continue
                new = sorted(map(str, figs_new(rec).values()))
                theirs = [v for q in refs for v in figs_new(q).values()]
                if rec['out'][0] != 'ok' and (raised or hit(rec)):
                    extra = len(new) - len(theirs)
                    if extra > (1 if op['f'] == 'render' else 0):
                        bad('figures', 'failed and left %d figures behind' % extra)
                    continue
                o = ref_item(spec, op, rec['pre'], {})
                q = chk(ctx.ref(dict(ref_spec(spec, o), observe=['figs'])))['ops'][0][0]
                note(res, 'oracle:picture compared')
                d = same(rec['out'], q['out'])
                if op['f'] == 'iplot_draw':
                    d = None if rec['out'][0] == q['out'][0] == 'ok' else d
                if d:
                    bad('result', 'differs from the same call alone: ' + d)
                    continue
                if op['f'] == 'iplot_draw':
                    if rec['out'][0] != 'ok':
                        continue
                    k0 = str(int(q['out'][1][1][0][1]))
                    w0, w1 = q['figs0']['figs'][k0][1], q['figs1']['figs'][k0][1]
                    g0, g1 = before[mine][1], after[mine][1]
                    grid = p[2:] if p[2] else [1, 1]
                    ax = a['kw']['axindex']
                    want = 0 if ax is None else ax if isinstance(ax, int) else ax[1][0] * grid[1] + ax[1][1]
                    for j, (x0, x1) in enumerate(zip(g0, g1)):
                        kinds = lambda u, v: sorted(map(str, minus(v, u)))
                        if kinds(x0[4], x1[4]) != kinds(w0[j][4], w1[j][4]):
                            bad('draw', 'axes %d: other artists were added than by the same call on a fresh plot: %s, expected %s' % (j, kinds(x0[4], x1[4]), kinds(w0[j][4], w1[j][4])))
                        elif minus(x0[4], x1[4]):
                            bad('draw', 'axes %d: artists drawn earlier changed or vanished' % j)
                        if j != want and x1[4] != x0[4]:
                            bad('draw', 'drew into axes %d, asked for axes %d' % (j, want))
                    if a['o'] == 'scatter':
                        d = scatter_miss(op, rec, minus(g1[want][4], g0[want][4]))
                        note(res, 'oracle:boxes compared')
                        if d:
                            bad('boxes', d)
                    continue
                exp = list(figs_new(q).values())
                if new != sorted(map(str, exp + theirs)):
                    bad('picture', 'the figures it leaves differ from those the same call leaves in a fresh process (%d, expected %d)' % (len(new), len(exp + theirs)))
                if rec['out'][0] == 'ok':
                    d = picture_miss(op, rec, exp, q['figs1']['files'])
                    if d:
                        bad('content', d)
                    gone = [f for f in rec['figs0']['files'] if f not in rec['figs1']['files']]
                    made = [f for f in rec['figs1']['files'] if f not in rec['figs0']['files']]
                    files = dict(q['figs1']['files'])
                    for p in refs:
                        files.update(p['figs1']['files'])
                    if gone or not set(made) <= set(files) or any(rec['figs1']['files'].get(f) != v for f, v in files.items()):
                        bad('files', 'files %s (state, picture), expected %s' % (rec['figs1']['files'], files))
                    if not refs:
                        o2 = copy.deepcopy(o)
                        o2['a']['show'] = False
                        q2 = chk(ctx.ref(dict(ref_spec(spec, o2), observe=['figs'])))['ops'][0][0]
                        d = same(rec['out'], q2['out'])
                        if d:
                            bad('show', 'show=%s changes the result: %s' % (a['show'], d))
                        if figs_new(q2) or q2['figs1']['files']:
                            bad('show', 'draws or writes although show is off')
        for title, (t, i, exp, a, files) in titles.items():
            got = [v for v in last[1].values() if any(ax[1] == title for ax in v[1])]
            note(res, 'oracle:concurrent picture compared')
            if sorted(map(str, got)) != sorted(map(str, exp.values())):
                out.append({'class': 'plot-concurrent:' + a['o'], 'op': [t, i], 'what': '%s drawn while another thread draws: the figure differs from the one drawn alone' % a['o']})
            if any(last[2].get(f) != v for f, v in files.items()):
                out.append({'class': 'plot-concurrent:' + a['o'], 'op': [t, i], 'what': '%s saved while another thread draws: files %s, drawn alone %s' % (a['o'], last[2], files)})
        return out

    def nontrivial(self, spec, res):
        return True


def minus(a, b):
    """the elements of a that are not in b (as multisets)"""
    b = [str(x) for x in b]
    out = []
    for x in a:
        if str(x) in b:
            b.remove(str(x))
        else:
            out.append(x)
    return out


def picture_miss(op, rec, figs, files):
    """what a rendering must show, from its own result and arguments"""
    a = op['a']
    V = verts(rec['out'][1])
    save = a['kw'].get('save') and a['show']
    name = a['kw'].get('title', '?') + '.png'
    if not a['show']:
        return 'a figure was made although show is off' if figs else None
    if not V:
        if len(figs) > 1:
            return '%d figures for an empty set' % len(figs)
        return None
    if len(figs) != 1:
        return '%d figures instead of one' % len(figs)
    size, axes = figs[0]
    if size != [round(float(v), 6) for v in a['kw']['size'][1]]:
        return 'figure size %s, asked for %s' % (size, a['kw']['size'][1])
    if len(axes) != 1:
        return '%d axes' % len(axes)
    ax = axes[0]
    sc = [p for x in ax[4] if x[0] in ('PathCollection', 'Path3DCollection') for p in pts(x[1])]
    if a['o'] in PLOT2D:
        if ax[1] != a['kw']['title']:
            return 'title %r, asked for %r' % (ax[1], a['kw']['title'])
        p = same_set(V, sc)
        if p:
            return 'the point %s is a vertex of the result or of the picture, but not of both' % (p,)
        po = [p for x in ax[4] if x[0] == 'Polygon' for p in pts(x[1])]
        p = same_set(V, po)
        if p:
            return 'the point %s is a corner of the result or of the drawn area, but not of both' % (p,)
        for x in ax[4]:
            if x[0] == 'Polygon' and x[4] != a['kw']['alpha']:
                return 'alpha %s, asked for %s' % (x[4], a['kw']['alpha'])
            if x[0] == 'Polygon' and painted(x[2], a['kw']):
                return 'painted %s, asked for %s' % (x[2], a['kw']['color'])
            if x[0] == 'PathCollection' and any(float.fromhex(v) != a['kw']['s'] for row in x[4] for v in row):
                return 'dots of size %s, asked for %s' % (x[4], a['kw']['s'])
        parts = [verts(e) for e in (rec['out'][1][1] if rec['out'][1][0] == 'list' else [rec['out'][1]])]
        areas = [pts(x[1]) for x in ax[4] if x[0] == 'Polygon']
        if len(areas) != len([p for p in parts if p]):
            return '%d areas drawn for %d parts of the result' % (len(areas), len([p for p in parts if p]))
        for p in parts:
            if p and not any(same_set(p, q) is None for q in areas):
                return 'no area is drawn for the part %s' % (p,)
        if save and files.get(name, [0])[:2] != [True, True]:
            return 'the picture was not saved as %s (files: %s)' % (name, files)
        if save and files[name][2] != codec.digest(figs[0]):
            return 'the file %s does not show the picture that was drawn' % name
        if not save and files:
            return 'wrote %s although saving is off' % sorted(files)
    elif a['o'] == 'lineqs3D' or any(e[0] == 'nd' for e in rec['out'][1][1]):
        p = same_set(V, sc)
        if p:
            return 'the point %s is a vertex of the result or of the picture, but not of both' % (p,)
        faces = [verts(e) for e in rec['out'][1][1]]
        drawn = [pts(x[1]) for x in ax[4] if x[0] == 'Poly3DCollection']
        edges = [list(zip(*[map(float.fromhex, row) for row in x[1]])) for x in ax[4] if x[0] == 'Line3D']
        for what, got in (('face', drawn), ('outline', edges)):
            if len(got) != len(faces):
                return '%d faces in the result, %d drawn as %s' % (len(faces), len(got), what)
            for p in faces:
                if not any(same_set(p, q) is None for q in got):
                    return 'no %s is drawn for the face %s' % (what, p)
        if not any(painted(x[2], a['kw']) is None for x in ax[4] if x[0] == 'Poly3DCollection'):
            return 'no face is painted %s' % a['kw']['color']
    else:
        for p in sc:
            if not any(near(p, q) for q in V):
                return 'the point %s is drawn but is not a vertex of the result' % (p,)
    if a['o'] not in PLOT2D:
        for x in ax[4]:
            if x[0] == 'Poly3DCollection' and x[3] != a['kw']['alpha']:
                return 'alpha %s, asked for %s' % (x[3], a['kw']['alpha'])
        if a.get('bounds'):
            want = [[float(u[1][k]) for u in a['bounds'][1]] for k in range(3)]
            if ax[5] != want:
                return 'the axes show %s, asked for %s' % (ax[5], want)
    return None


def painted(rgba, kw):
    """None if the painted colour is the one asked for"""
    from matplotlib.colors import to_rgba
    want = to_rgba(kw['color'], kw['alpha'])
    return None if all(abs(float.fromhex(u) - v) < 1e-6 for row in rgba for u, v in zip(row, want)) else rgba


def scatter_miss(op, rec, art):
    """interval data: a dot for a point, a segment or a filled box otherwise"""
    X, Y = (list(zip(*ends(rec['pre'][k]))) for k in ('x', 'y'))
    dots = [(x[0], y[0]) for x, y in zip(X, Y) if x[0] == x[1] and y[0] == y[1]]
    box = [(x, y) for x, y in zip(X, Y) if not (x[0] == x[1] and y[0] == y[1])]
    got = [p for x in art if x[0] == 'PathCollection' for p in pts(x[1])]
    if sorted(got) != sorted(map(lambda p: (float(p[0]), float(p[1])), dots)):
        return 'points %s drawn as dots %s' % (dots, got)
    polys = [x for x in art if x[0] == 'Polygon']
    if len(polys) != len(box):
        return '%d boxes drawn, %d in the data' % (len(polys), len(box))
    left = [(pts(x[1]), x[5]) for x in polys]
    for x, y in box:
        c = {(float(u), float(v)) for u in x for v in y}
        hit_ = [k for k, (p, fill) in enumerate(left) if set(p) == c and bool(fill) == (x[0] != x[1] and y[0] != y[1])]
        if not hit_:
            return 'the box %s x %s is not drawn as it should be' % (x, y)
        del left[hit_[0]]
    return None


# =============================================================================================
def g_store_prog(r, n, pre, shared):
    """a client keeping arrays under names; the generator tracks shapes roughly, mistakes are welcome"""
    shp = {}
    prog = []
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return '%s%d' % (pre, cnt[0])

    def new(shape=None):
        h = fresh()
        s = shape or r.choice([[2], [3], [3], [4], [2, 2], [2, 3], [3, 2], [1, 3]])
        shp[h] = s
        prog.append({'f': 'cs', 'a': {'o': 'new', 'h': h, 'y': values.g_arr(r, s, nz=r.random() < .5)}})
        return h

    def number():
        v = r.choice([1, 2, 3, -2, 0.5, 1.5, -3.25, 4])
        return v if r.random() < .4 else ['yi', v] if isinstance(v, int) else ['yf', v]

    def operand(s, div):
        k = r.random()
        if k < .3:
            return {'y': number()}
        if k < .45:
            return {'y': values.g_I(r, nz=div and r.random() < .8)}
        if k < .6:
            return {'y': values.g_nd(r, s if r.random() < .8 else [2] + s if len(s) == 1 else s[-1:])}
        c = [h for h in list(shp) + shared if shp.get(h) == s or r.random() < .3]
        if c:
            return {'yh': r.choice(c)}
        return {'y': values.g_arr(r, s, nz=div)}
    new()
    while len(prog) < n:
        if len(shp) < 4 and r.random() < .15:
            new()
            continue
        h = r.choice(sorted(shp))
        s = shp[h]
        k = r.random()
        if k < .22:
            o = r.choice(['add', 'sub', 'mul', 'div'])
            a = {'o': 'ib', 'h': h, 'op': o}
            a.update(operand(s, o == 'div'))
        elif k < .46:
            q = r.random()
            a = {'o': 'set', 'h': h, 'k': ops.g_key(r, s)}
            if q < .3:
                a['y'] = values.g_I(r)
            elif q < .55:
                a['y'] = number()
            elif q < .7:
                a['yh'] = r.choice(sorted(shp) + shared)
            elif q < .8:
                a['y'] = values.g_nd(r, [r.choice([1, 2, 3])])
            elif q < .85:
                a['y'] = ['list', [number() for _ in range(r.choice([1, 2, 3]))]]
            elif q < .9:
                a['y'] = 'bad'
            else:
                g = r.choice(sorted(shp) + shared)
                a.update(o='setfrom', yh=g, op=ops.g_key(r, shp.get(g, s)))
        elif k < .53:
            j = r.random()
            a = {'o': 'del', 'h': h, 'k': r.randrange(-s[0], s[0] + 1) if len(s) == 1 or j < .5 else ['tuple', [['sl', None, None, None], r.randrange(-s[1], s[1] + 1)]]}
        elif k < .7:
            d = fresh()
            a = {'o': 'get', 'h': h, 'd': d, 'k': ops.g_key(r, s)}
        elif k < .8:
            d = fresh()
            o = r.choice(['add', 'sub', 'mul', 'div'])
            a = {'o': r.choice(['bin', 'bin', 'rbin']), 'h': h, 'd': d, 'op': o}
            if a['o'] == 'rbin':
                a['op'] = r.choice(['add', 'sub', 'mul'])
                a['y'] = number() if r.random() < .6 else values.g_I(r)
            else:
                a.update(operand(s, o == 'div'))
        elif k < .84:
            a = {'o': 'view', 'h': h, 'op': r.choice(ops.NUMVIEWS + ops.IVIEWS)}
        elif k < .97:
            d = fresh()
            a = {'o': r.choice(['copy', 'copy', 'deepcopy', 'T', 'reshape', 'neg']), 'h': h, 'd': d}
            if a['o'] == 'reshape':
                n_ = 1
                for x in s:
                    n_ *= x
                a['k'] = ['tuple', r.choice([[n_], [1, n_], [n_, 1], [-1, s[-1]], s[::-1]])]
        else:
            d = fresh()
            a = {'o': 'alias', 'h': h, 'd': d}
        prog.append({'f': 'cs', 'a': a})
        if a['o'] == 'view' and a['op'] in ops.NUMVIEWS and r.random() < .5:
            prog[-1]['spoil'] = 'r'           # the client overwrites the numbers it got
        # track shapes with the reference model so later steps fit
        m = StoreModel(None)
        if a.get('d'):
            t = dict(shp)
            try:
                import numpy as np
                z = np.zeros(s)
                if a['o'] == 'get':
                    z = z[values.build(a['k'])]
                elif a['o'] == 'T':
                    z = z.T
                elif a['o'] == 'reshape':
                    z = z.reshape(values.build(a['k']))
                if np.ndim(z) and z.size:
                    shp[a['d']] = list(z.shape)
            except Exception:
                pass
        if a['o'] == 'del' and not isinstance(a['k'], list) and -s[0] <= a['k'] < s[0]:
            shp[h] = [s[0] - 1] + s[1:]
        elif a['o'] == 'del' and isinstance(a['k'], list) and -s[1] <= a['k'][1][1] < s[1]:
            shp[h] = [s[0], s[1] - 1]
        if 0 in shp[h]:
            del shp[h]
            if not shp:
                new()
    return prog


def view_want(shape, items, what):
    """a derived view from first principles: [shape, lows, highs] (numbers: lows only); None where undefined"""
    lo, hi = [float(v.a) for v in items], [float(v.b) for v in items]
    proper = all(x <= y for x, y in zip(lo, hi))
    P = list(zip(lo, hi))
    if what in ('mig', 'mag', 'abs') and not proper:
        return None
    if what in ops.NUMVIEWS:
        f = {'a': lambda a, b: a, 'inf': lambda a, b: a, 'b': lambda a, b: b, 'sup': lambda a, b: b, 'rad': lambda a, b: (b - a) / 2,
             'mid': lambda a, b: (a + b) / 2, 'wid': lambda a, b: b - a, 'mig': lambda a, b: max(a, -b, 0.0), 'mag': lambda a, b: max(-a, b)}[what]
        return [shape, [f(*p) for p in P], None]
    f = {'dual': lambda a, b: (b, a), 'pro': lambda a, b: (min(a, b), max(a, b)), 'opp': lambda a, b: (-a, -b), 'neg': lambda a, b: (-b, -a),
         'abs': lambda a, b: (max(a, -b, 0.0), max(-a, b))}.get(what, lambda a, b: (a, b))
    Q = [f(*p) for p in P]
    if what == 'reversed':
        n = len(Q) // shape[0]
        Q = [q for k in range(shape[0] - 1, -1, -1) for q in Q[k * n:(k + 1) * n]]
    return [shape, [q[0] for q in Q], [q[1] for q in Q]]


def view_diff(want, enc, loose=0):
    if want is None:
        return None
    flat = []

    def walk(e):
        """numbers and intervals of an encoded view, in order"""
        x = ends(e)
        if x is not None:
            flat.extend(zip(*x))
            return
        if isinstance(e, list) and e and e[0] == 'nd' and e[1] == '<f8' and e[2] == want[0]:
            flat.extend((float('nan') if v[1] == 'nan' else float.fromhex(v[1]), None) for v in e[3])
            return
        if isinstance(e, list) and e and e[0] in ('list', 'tuple'):
            for v in e[1]:
                walk(v)
            return
        raise ValueError(show(e))
    try:
        walk(enc)
    except ValueError as e:
        return 'unexpected contents %s' % e
    w = list(zip(want[1], want[2] or [None] * len(want[1])))
    tol = max(1e-12, loose)
    ok = len(w) == len(flat) and all((g[0] == x[0] or abs(g[0] - x[0]) <= tol * (1 + abs(x[0]))) and (x[1] is None) == (g[1] is None) and
                                     (x[1] is None or g[1] == x[1] or abs(g[1] - x[1]) <= tol * (1 + abs(x[1]))) for g, x in zip(flat, w))
    return None if ok else 'is %s, the contents give %s' % (show(enc, 200), w)


class StoreModel:
    """reference: named references to arrays, each a shape and a list of (lo, hi) pairs"""

    def __init__(self, ip):
        self.ip = ip
        self.obj = {}            # object number -> [shape, [interval]]
        self.name = {}
        self.k = self.loose = 0

    def put(self, name, shape, items):
        self.k += 1
        self.obj[self.k] = [list(shape), list(items)]
        self.name[name] = self.k

    def val(self, y):
        """operand -> (shape, items) of numbers or intervals; None when it is not one"""
        import numpy as np
        ip = self.ip
        if isinstance(y, ip.ArrayInterval):
            return list(y.shape), [y[i] for i in np.ndindex(*y.shape)]
        if isinstance(y, np.ndarray):
            return list(y.shape), y.ravel().tolist()
        if isinstance(y, list):
            return [len(y)], list(y)
        if isinstance(y, str):
            return None
        return [], [y]

    def step(self, a):
        """returns ('ok', result description) or ('exc', type name or None for any)"""
        import numpy as np
        ip = self.ip
        self.loose = 0
        y = values.build(a.get('y')) if 'y' in a else None
        k = values.build(a.get('k')) if 'k' in a else None
        o = a['o']
        if o == 'new':
            sh, it = self.val(y)
            self.put(a['h'], sh, it)
            return 'ok', None
        me = self.obj[self.name[a['h']]]
        shape, items = me
        Y = tuple(self.obj[self.name[a['yh']]]) if 'yh' in a else self.val(y) if 'y' in a else None
        idx = np.arange(len(items)).reshape(shape)
        pt = lambda v: v if isinstance(v, (ip.ClassicalArithmetic, ip.KaucherArithmetic)) else ip.ClassicalArithmetic(v, v)
        if o == 'alias':
            self.name[a['d']] = self.name[a['h']]
            return 'ok', None
        if o in ('set', 'setfrom'):
            if Y is None:
                return 'exc', None
            if o == 'setfrom':
                try:
                    j = np.arange(len(Y[1])).reshape(Y[0])[values.build(a['op'])]
                except Exception as e:
                    return 'exc', type(e).__name__
                Y = list(np.shape(j)), [Y[1][i] for i in np.ravel(j)]
            vi = (len(items) + np.arange(len(Y[1]))).reshape(Y[0])
            try:
                if np.ndim(idx[k]) == 0 and vi.size == 1:
                    vi = vi.reshape(())
                idx[k] = vi
            except Exception as e:
                return 'exc', type(e).__name__
            table = items + [pt(v) for v in Y[1]]
            me[1] = [table[i] for i in idx.ravel()]
            return 'ok', None
        if o == 'del':
            try:
                idx = np.delete(idx, k, axis=0) if isinstance(k, int) else np.delete(idx, k[-1], axis=1)
            except Exception as e:
                return 'exc', type(e).__name__
            me[0], me[1] = list(idx.shape), [items[i] for i in idx.ravel()]
            return 'ok', None
        if o in ('ib', 'bin', 'rbin'):
            if Y is None:
                return 'exc', None
            try:
                p, q = np.broadcast_arrays(idx, np.arange(len(Y[1])).reshape(Y[0]))
            except Exception:
                return 'exc', None
            try:
                f = ops.BIN[a['op']]
                z = [f(Y[1][j], items[i]) if o == 'rbin' else f(items[i], Y[1][j]) for i, j in zip(p.ravel(), q.ravel())]
            except Exception as e:
                return 'exc', None
            self.loose = 1e-9 * (1 + max([abs(float(c)) for v in list(items) + list(Y[1]) for c in (pt(v).a, pt(v).b)] + [0]))
            if o == 'ib':
                me[0], me[1] = list(p.shape), z
                return 'ok', True
            return self.result(a, list(p.shape), z)
        if o == 'view':
            return 'ok', ('view', view_want(shape, items, a['op'])) if items else None
        try:
            if o == 'get':
                j = idx[k]
            elif o == 'T':
                j = idx.T
            elif o == 'reshape':
                j = idx.reshape(k)
            else:
                j = idx
        except Exception as e:
            return 'exc', type(e).__name__
        z = [items[i] for i in np.ravel(j)]
        if o == 'neg':
            z = [-v for v in z]
        if o == 'get' and np.ndim(j) == 0:
            return 'ok', ('scalar', ends(codec.enc(z[0], ip)))
        return self.result(a, list(np.shape(j)), z)

    def result(self, a, shape, z):
        self.put(a['d'], shape, z)
        return 'ok', None


@prop
class C15(Prop):
    """interval arrays are values: independent, consistent, all-or-nothing"""
    id = 'C15'

    def make(self, ctx, r):
        T = 1 if r.random() < .8 else 2
        threads = []
        head = []
        for t in range(T):
            prog = g_store_prog(r, r.randint(3, 10), 'ab'[t], [])
            threads.append(prog)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['store'], 'ambient': {}, 'rigid': False}
        if r.random() < .5:
            spec['observe'].append('views')
        if T > 1 or r.random() < .7:
            recs = probe(ctx, spec)
            if T > 1:
                spec['sched'] = rnd_sched(r, spec, recs, 0)
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                t = r.randrange(T)
                c = [i for i, x in enumerate(recs[t]) if any(s.startswith('num:') for s in x['seams'])]
                if not c:
                    continue
                i = r.choice(c)
                s = rnd_seam(r, recs[t][i]['seams'], only='num:')
                if s:
                    spec['faults'].append({'t': t, 'op': i, 'seam': s[0], 'k': s[1], 'act': 'raise', 'exc': r.choice(ERRORS + CANCEL)})
        return spec

    def judge(self, ctx, spec, res):
        import sim.values as V
        ip = V.IP
        out = []
        for t, recs in enumerate(res['ops']):
            m = StoreModel(ip)
            pre = 'ab'[t]
            for i, rec in enumerate(recs):
                a = spec['threads'][t][i]['a']
                bad = lambda cls, what: out.append({'class': 'array-%s:%s' % (cls, a['o']), 'op': [t, i], 'what': 'step %d, %s: %s' % (i, {k: v for k, v in a.items()}, what)})
                injected = 'injected' in rec
                m.loose = 0
                if a['h'] not in m.name and a['o'] != 'new' or ('yh' in a and a['yh'] not in m.name):
                    if rec['out'][0] == 'ok':
                        bad('ghost', 'an array exists that the model does not know')
                        break
                    continue
                if injected:
                    note(res, 'oracle:failed step left everything alone')
                    if rec['out'][0] == 'ok':
                        bad('error', 'the operand failed with %s and the operation still succeeded' % rec['injected'])
                        break
                    if not rec.get('same'):
                        bad('error', 'the operand failed with %s, the caller got %s' % (rec['injected'], rec['out'][1]))
                    want = None
                else:
                    snap = (copy.copy(m.name), {k: [list(v[0]), list(v[1])] for k, v in m.obj.items()}, m.k)
                    want = m.step(a)
                    note(res, 'oracle:step compared')
                    if want[0] == 'exc':
                        m.name, m.obj, m.k = snap
                        if rec['out'][0] == 'ok':
                            bad('accept', 'succeeded where the array model refuses (%s)' % want[1])
                            break
                        if want[1] and rec['out'][1] != want[1]:
                            bad('exception', 'raised %s, expected %s' % (rec['out'][1], want[1]))
                    elif rec['out'][0] != 'ok' and any(not snap[1][snap[0][a[q]]][1] for q in ('h', 'yh') if a.get(q) in snap[0]):
                        m.name, m.obj, m.k = snap     # an array without elements: most operations refuse it
                    elif rec['out'][0] != 'ok':
                        bad('refuse', 'raised %s (%s)' % (rec['out'][1], rec.get('msg')))
                        break
                    elif isinstance(want[1], tuple) and want[1][0] == 'view':
                        note(res, 'oracle:derived view compared')
                        d = view_diff(want[1][1], rec['out'][1])
                        if d:
                            bad('view', '%s %s' % (a['op'], d))
                            break
                    elif isinstance(want[1], tuple) and ends(rec['out'][1]) != want[1][1]:
                        bad('value', 'returned %s, expected %s' % (show(rec['out'][1]), want[1][1]))
                    elif want[1] is True and rec['out'][1] is not True:
                        bad('identity', 'the in-place operation gave another object')
                d = self.compare(m, rec['store'], a.get('d', a['h']))
                if d:
                    bad('state', ('after a failure' if rec['out'][0] != 'ok' else 'afterwards') + ' ' + d)
                    break
        return out

    def compare(self, m, store, target):
        for h, k in sorted(m.name.items()):
            if h not in store:
                return 'array %s does not exist' % h
            e, n = store[h][:2]
            shape, items = m.obj[k]
            if e[1] != shape or e[2][0] != shape or e[2][1] != len(shape) or e[2][2] != [[0, s] for s in shape]:
                return 'array %s reports shape %s, ndim %s, ranges %s over data of shape %s; expected shape %s' % (h, e[2][0], e[2][1], e[2][2], e[1], shape)
            if n != shape[0]:
                return 'array %s has length %d, expected %d' % (h, n, shape[0])
            got = ends(e)
            if got is None:
                return 'array %s holds something that is not an interval' % h
            want = [float(v.a) for v in items], [float(v.b) for v in items]
            tol = m.loose if k == m.name.get(target) else 0
            if tol and all(abs(g - w) <= tol * (1 + abs(w)) for g, w in zip(got[0] + got[1], want[0] + want[1])):
                m.obj[k][1] = items = [codec.dec(x, m.ip) for x in e[3]]
                want = got
                m.loose = 0
            for j in range(len(items)):
                if (got[0][j], got[1][j]) != (want[0][j], want[1][j]):
                    return 'array %s element %d is [%r, %r], expected [%r, %r]' % (h, j, got[0][j], got[1][j], want[0][j], want[1][j])
            for w in sorted(store[h][2] if len(store[h]) > 2 else ()):
                d = view_diff(view_want(shape, items, w), store[h][2][w])
                if d:
                    return 'array %s: %s %s' % (h, w, d)
        return None

    def nontrivial(self, spec, res):
        return True


# =============================================================================================
BUDGETED = ('ralgb5', 'maximize', 'Gauss_Seidel', 'PPS', 'PSS', 'Subdiff', 'nonlin', 'globopt', 'cheb', 'wils_fit', 'ispae_fit', 'ive')
# most library lines per unit of budget and matrix entry, about six times the worst ever seen
WORK = {'Gauss_Seidel': 300, 'PPS': 10000, 'PSS': 4000, 'Rohn': 200, 'Subdiff': 300, 'cheb': 15000, 'globopt': 800, 'ispae_fit': 100000,
        'ive': 3000, 'maximizeTol': 7000, 'maximizeUni': 7000, 'maximizeUss': 7000, 'nonlinKrawczyk': 2000,
        'nonlinHansenSengupta': 600000,       # each step solves a linear system by an iteration with a budget of 2000
        'ralgb5': 3000, 'wils_fit': 7000}
# most calls out of the library per unit of budget (the line search of the ascent method has its own limit of 500)
CALLS = {'globopt': {'cb:f': 3}, 'nonlin': {'cb:f': 2, 'cb:J': 2}, 'ralgb5': {'cb:f': 502}, 'PSS': {'lp': 16}, 'cheb': {'lp': 5000}}
HOSTILE = ['nan', 'inf', '-inf', 'big', 'zero', 'wide']


def g_hard(r):
    """an iterative computation that has reasons not to converge"""
    k = r.random()
    f = r.choice(BUDGETED) if k < .9 else 'Rohn'
    a = ops.OPS[f].gen(r)
    if f in ('Gauss_Seidel', 'PPS', 'PSS', 'Subdiff', 'maximize', 'Rohn', 'cheb') and r.random() < .5:
        n, m = a['A'][1]
        h = r.random()
        if h < .35:                           # singular or nearly so
            row = a['A'][2][:m]
            a['A'][2] = [list(e) for _ in range(n) for e in row]
        elif h < .6:                          # wide entries containing zero
            for e in a['A'][2]:
                if r.random() < .5:
                    w = r.choice([1, 5, 100])
                    e[0], e[1] = e[0] - w, e[1] + w
        elif h < .75:                         # huge or tiny scale
            s = r.choice([1e-8, 1e8])
            a['A'][2] = [[e[0] * s, e[1] * s] for e in a['A'][2]]
        elif h < .9:
            for e in a['A'][2]:
                if r.random() < .4:
                    e[0] = e[1] = 0.0
    if f in ('Gauss_Seidel', 'Subdiff') and r.random() < .2:       # ends at infinity: differences of iterates are not numbers
        m = a['A'][1][1]
        inf = float('inf')

        def far(e):
            return [[-inf, inf], [e[0], inf], [-inf, e[1]]][r.randrange(3)] if r.random() < .6 else e
        if f == 'Gauss_Seidel' and r.random() < .7:
            a['x0'] = ['A', [m], [far([-5.0, 5.0]) for _ in range(m)]]
        else:
            a['b'][2] = [far(e) for e in a['b'][2]]
    if f == 'nonlin' and r.random() < .1:
        inf = float('inf')
        x = a['x0']
        if x[0] == 'If':
            a['x0'] = ['If', *r.choice([(-inf, inf), (x[1], inf)])]
        else:
            a['x0'] = ['A', x[1], [r.choice([[-inf, inf], e]) for e in x[2]]]
    elif f == 'nonlin' and r.random() < .5:     # a box without a root
        x = a['x0']
        if x[0] == 'If':
            a['x0'] = ['If', x[1] + 1, x[2] + 1.5]
        else:
            a['x0'] = ['A', x[1], [[e[0] + 1, e[1] + 2] for e in x[2]]]
    if 'maxiter' in a:
        a['maxiter'] = r.choice([0, 1, 2, 3, 5, 8, 12] if f in ('PPS', 'PSS', 'cheb', 'ispae_fit') else [0, 1, 2, 5, 10, 30, 60])
    if f == 'globopt':
        a['tol'] = r.choice([0, 1e-12])
    elif f in ('Gauss_Seidel', 'PPS', 'PSS', 'Subdiff', 'Rohn', 'nonlin') and r.random() < .4:
        a['kw'] = {'tol': 0}
    if f == 'nonlin' and a['o'] == 'HansenSengupta':
        a['kw'] = r.choice([{}, {'tol': 1e-6}, {'tol': .5}])
        if r.random() < .8:
            a['maxiter'] = r.choice([0, 1, 2])
    if f == 'ralgb5':
        a['kw'] = r.choice([{}, {}, {'tolf': 0}, {'tolf': 0, 'tolx': 0}, {'tolx': 0, 'tolg': 0, 'tolf': 0}])
    return {'f': f, 'a': a}


@prop
class C16(Prop):
    """iteration budgets bound the work"""
    id = 'C16'

    def make(self, ctx, r):
        o = g_hard(r)
        spec = {'pool': [], 'threads': [[o]], 'faults': [], 'sched': [], 'gran': 'line', 'ambient': rnd_ambient(r), 'cap': 6_000_000 if o['a'].get('o') == 'HansenSengupta' else 3_000_000}
        p = probe(ctx, spec)[0][0]
        if r.random() < .75:
            seams = {k: v for k, v in p['seams'].items() if k in ('cb:f', 'cb:J', 'lp') or k.startswith('la:')}
            if any(k == 'lp' or k.startswith('cb:') for k in seams) or r.random() < .7:
                seams = {k: v for k, v in seams.items() if not k.startswith('la:')}
            for _ in range(r.randint(1, 2)):
                s = rnd_seam(r, seams)
                if not s:
                    break
                f = {'t': 0, 'op': 0, 'seam': s[0], 'k': s[1] if r.random() < .6 else 1}
                if r.random() < .6:
                    f['sticky'] = True
                if s[0].startswith('cb:'):
                    f.update(act='value', value=r.choice(HOSTILE))
                elif s[0] == 'lp':
                    f.update(act='status', status=r.choice(['unknown', 'primal infeasible', 'dual infeasible']))
                else:
                    f.update(act='raise', exc='LinAlgError')
                spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        op, rec = spec['threads'][0][0], res['ops'][0][0]
        a = op['a']
        b = a.get('maxiter', a.get('N', 300)) + 2
        A = a.get('A') or a.get('X')
        if A and A[0] == 'A':
            size = A[1][0] * A[1][1]
        elif op['f'] in ('nonlin', 'globopt', 'ralgb5') and a['x0'][0] != 'If':
            size = len(a['x0'][2])
        else:
            size = 1

        def bad(what):
            return [{'class': 'budget:' + op['f'], 'op': 0, 'what': '%s with an iteration budget of %d %s' % (op_text(spec, op), b - 2, what)}]
        kind = op['f'] + (a.get('o', a.get('which', '')) if op['f'] in ('maximize', 'nonlin') else '')
        most = WORK[kind] * b * size
        if rec.get('limit') and rec['n'] <= most and size * b > 8:
            note(res, 'oracle:undecided')     # the allowance is larger than a run may take
        elif rec.get('limit'):
            return bad('was still running after %d steps' % rec['n'])
        if rec['n'] > most:
            return bad('took %d steps; no more than %d expected' % (rec['n'], most))
        for seam, per in CALLS.get(op['f'], {}).items():
            n = rec['seams'].get(seam, 0)
            most = per * b * (size if seam == 'lp' else 1)
            if n > most:
                return bad('made %d %s calls; no more than %d expected' % (n, seam, most))
        return []

    def nontrivial(self, spec, res):
        return res['ops'][0][0]['n'] > 20


# =============================================================================================
def g_ive(r):
    """a system small enough that all its corner matrices can be listed"""
    n, m = r.choice([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3)])
    free = set(r.sample(range(n * m), r.randint(1, min(n * m, r.choice([1, 2, 3, 4, 6])))))
    A = []
    for k in range(n * m):
        v = r.randint(-16, 16) / 4
        A.append([v, v + r.choice([.25, .5, 1, 3])] if k in free else [v, v])
    b = [sorted((r.randint(-20, 20) / 4, r.randint(-20, 20) / 4)) for _ in range(n)]
    if r.random() < .5:
        b = [[v - 3, w + 3] for v, w in b]
    return {'f': 'ive', 'a': {'A': ['A', [n, m], A], 'b': ['A', [n], b], 'N': r.choice([1, 1, 2, 3, 5, 8] + ([450] if len(free) <= 4 else [])), 'seed': r.randrange(1 << 30)}}


@prop
class C17(Prop):
    """the sampled variability measure"""
    id = 'C17'

    def make(self, ctx, r):
        nt = r.choice([1, 1, 2, 3])
        base = g_ive(r)
        threads = [[base if r.random() < .4 else g_ive(r) for _ in range(r.randint(1, 3 if nt == 1 else 2))] for _ in range(nt)]
        threads = copy.deepcopy(threads)
        if sum(o['a']['N'] > 8 for t in threads for o in t) > 1:      # keep runs short
            for t in threads[1:]:
                for o in t:
                    o['a']['N'] = min(o['a']['N'], 8)
        spec = {'pool': [], 'threads': threads, 'faults': [], 'sched': [], 'gran': 'line', 'observe': ['args'], 'ambient': rnd_ambient(r), 'cap': 2_000_000}
        recs = probe(ctx, spec)
        if nt > 1:
            spec['sched'] = rnd_sched(r, spec, recs, r.choice([1, 2, 4, 8, 16]))
        if r.random() < .4:
            t = r.randrange(nt)
            i = r.randrange(len(threads[t]))
            s = rnd_seam(r, {k: v for k, v in recs[t][i]['seams'].items() if k.startswith('la:')}, only=None)
            if s:
                f = {'t': t, 'op': i, 'seam': s[0], 'k': s[1], 'act': 'raise', 'exc': r.choice(['LinAlgError', 'LinAlgError', 'MemoryError', 'ValueError'])}
                if r.random() < .4:
                    f['sticky'] = True
                spec['faults'].append(f)
        return spec

    def judge(self, ctx, spec, res):
        import numpy as np
        out = []
        for t, recs in enumerate(res['ops']):
            for i, (op, rec) in enumerate(zip(spec['threads'][t], recs)):
                fired = any(f['t'] == t and f['op'] == i and x for f, x in zip(spec['faults'], res['fired']))
                a = op['a']
                if rec.get('limit'):
                    continue

                def bad(what, kind='ive'):
                    out.append({'class': kind, 't': t, 'op': i, 'what': 'ive over %d samples%s: %s' % (a['N'], ', whose backend failed,' if fired else '', what)})
                if rec['out'][0] != 'ok':
                    if not fired:
                        ref = ref_out(ctx, spec, {'f': 'ive', 'a': a})['out']
                        if ref[0] == 'ok':
                            bad('raised %s' % rec['out'][1], 'ive-raise')
                    note(res, 'oracle:raised')
                    continue
                ref = ref_out(ctx, spec, {'f': 'maximize', 'a': {'which': 'Tol', 'A': a['A'], 'b': a['b'], 'maxiter': 2000}})['out']
                if ref[0] != 'ok':
                    note(res, 'oracle:no optimum')
                    continue
                Aa, Ab = arr_spec(a['A'])
                ba, bb = arr_spec(a['b'])
                x, fr = np.array(nums(ref[1][1][0])), nums(ref[1][1][1])[0]
                k = np.sqrt(Aa.shape[1]) * fr * np.linalg.norm(x) / np.sqrt(sum(np.maximum(abs(ba), abs(bb)) ** 2))
                got = nums(rec['out'][1])[0]
                free = np.argwhere(Aa != Ab)
                conds = []
                for bits in range(1 << len(free)):
                    M = Aa.copy()
                    for j, (p, q) in enumerate(free):
                        if bits >> j & 1:
                            M[p, q] = Ab[p, q]
                    conds.append(np.linalg.cond(M))
                conds = np.array(conds)
                if not (np.isfinite(conds).all() and conds.max() < 1e9 and np.isfinite(k) and abs(k) > 1e-9):
                    note(res, 'oracle:degenerate')
                    continue
                q = got / k
                note(res, 'oracle:judged')
                near = abs(conds - q) <= 1e-6 * conds
                if not near.any():
                    bad('the value %r is not %r times the condition number of any corner matrix (%r to %r)' % (got, k, conds.min(), conds.max()))
                elif a['N'] >= 400 and len(free) <= 4 and not near[conds.argmin()]:
                    bad('the value %r stands for condition number %r, but the %d corner matrices include one with %r' % (got, q, len(conds), conds.min()))
                elif not fired and len(spec['threads']) == 1:
                    d = same(rec['out'], ref_out(ctx, spec, {'f': 'ive', 'a': a})['out'])
                    if d:
                        bad('the caller started its random stream from the same seed but the value differs from a fresh process: ' + d, 'ive-seed')
        return out

    def nontrivial(self, spec, res):
        return True
