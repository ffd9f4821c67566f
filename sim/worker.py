"""A simulation worker: one interpreter that loads the library once, puts every seam in place and then
forks one child per simulated execution.  It never runs library code itself, so every child starts
from the state a freshly started process has right after `import intvalpy`.

  worker.py --lib DIR          reads one task per line, writes one result per line
  worker.py --lib DIR --ref    the same interpreter set-up under another PYTHONHASHSEED, used for the
                               reference executions ("the same call, alone, in a fresh process")
"""
import argparse, atexit, builtins, copy, functools, gc, hashlib, json, logging, os, random, select, shutil, signal, struct, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from sim import codec, core
from sim.core import Sim, SimLock, SimFault

sim = Sim()
ip = None
CHILD_WALL = 40


def load(lib):
    global ip
    import numpy as np
    import pandas, matplotlib, cvxopt, mpmath     # dependencies first, unobserved
    import matplotlib.pyplot as plt
    import numpy.linalg as la
    patch(np, cvxopt, plt)
    sys.path.insert(0, lib)

    def imp():
        global ip
        import intvalpy
        ip = intvalpy
    sim.record_codes(imp)
    assert os.path.realpath(ip.__file__).startswith(os.path.realpath(lib)), ip.__file__
    from sim import codec, values, ops
    values.IP = ip
    values.SIM = sim
    sim.ip = ip
    sim.enc = codec.enc
    sim.opfn = lambda op: ops.execute(op, BUILT[id(op)])
    sim.opfn_raw = lambda op: _raw(ops.OPS[op['f']].run, BUILT[id(op)])
    sim.snap = snap
    sim.spoil = spoil
    sim.envsnap = envsnap
    sim.figsnap = figsnap
    def storesnap(views):
        out = {}
        for k, v in sorted(values.STORE.items()):
            out[k] = [codec.enc(v, ip), len(v)]
            if views and v.data.size:
                out[k].append({w: codec.enc(ops.view(v, w), ip) for w in ops.NUMVIEWS + ('dual', 'iter')})
        return out
    sim.storesnap = storesnap
    SimLock.sim = sim
    # warm the lazy parts of dependencies that do not belong to the library under test
    import io
    import matplotlib.font_manager
    import mpl_toolkits.mplot3d
    fig = plt.figure(figsize=(1, 1))
    fig.add_subplot(121).scatter([0, 1], [0, 1])
    ax = fig.add_subplot(122, projection='3d')
    ax.plot([0, 1], [0, 1], [0, 1])
    ax.set_title('t')
    fig.savefig(io.BytesIO())
    plt.close(fig)
    gc.collect()
    gc.freeze()
    gc.disable()


def _raw(run, args):
    return lambda: run(ip, **args)


BUILT = {}


# ---- seams ----------------------------------------------------------------------------------
def patch(np, cvxopt, plt):
    def la_wrap(name, fn):
        def w(*a, **k):
            if sim.cur is not None:
                sim.seam('la:' + name)
            return fn(*a, **k)
        w.__name__ = name
        w.__wrapped__ = fn
        return w
    for name in np.linalg.__all__:
        fn = getattr(np.linalg, name)
        if callable(fn) and not isinstance(fn, type):
            setattr(np.linalg, name, la_wrap(name, fn))
    import cvxopt.solvers
    real_lp = cvxopt.solvers.lp

    def lp(*a, **k):
        r = sim.seam('lp') if sim.cur is not None else None
        if r is not None and r['act'] == 'status':
            return {'status': r['status'], 'x': None, 's': None, 'y': None, 'z': None, 'primal objective': None, 'dual objective': None}
        return real_lp(*a, **k)
    cvxopt.solvers.lp = lp

    # locks the library may create (it has none today) block in simulated time
    def factory(real, re):
        def make(*a):
            m = sys._getframe(1).f_globals.get('__name__', '')
            return SimLock(re) if m.startswith('intvalpy') else real(*a)
        return make
    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)

    # figure output
    from matplotlib.figure import Figure
    real_save = Figure.savefig

    def savefig(self, fname, *a, **k):
        r = sim.seam('io:savefig') if sim.cur is not None else None
        if r is not None and r['act'] == 'torn':
            with open(fname, 'wb') as f:
                f.write(b'\x89PNG')
            raise core.make_exc('OSError')
        r = real_save(self, fname, *a, **k)
        if sim.cur is not None and isinstance(fname, (str, os.PathLike)):
            SAVED[os.path.normpath(fname)] = codec.digest(figart(self))
        return r
    Figure.savefig = savefig

    def show(*a, **k):
        if sim.cur is not None:
            sim.seam('plt:show')
    plt.show = show
    real_figure = plt.figure

    def figure(*a, **k):
        if sim.cur is not None:
            sim.seam('plt:figure')
        return real_figure(*a, **k)
    plt.figure = figure

    # every single drawing call of the library: the client may do something right after it
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D

    def after(real):
        @functools.wraps(real)
        def draw(*a, **k):
            r = real(*a, **k)
            if sim.cur is not None and sys._getframe(1).f_globals.get('__name__', '').startswith('intvalpy'):
                sim.seam('plt:art')
            return r
        return draw
    for cls, names in ((Axes, 'scatter fill fill_between plot add_patch add_collection set_title text'),
                       (Axes3D, 'scatter plot add_collection3d add_collection plot_trisurf text')):
        for n in names.split():
            if n in vars(cls) or cls is Axes:
                setattr(cls, n, after(getattr(cls, n)))


# ---- observation ----------------------------------------------------------------------------
def snap(op):
    from sim import codec, values
    out = {}
    for k, v in op['a'].items():
        b = BUILT[id(op)][k]
        out[k] = codec.enc(b, ip)
    return out


def spoil(op, r, what):
    """the caller reuses the arrays it holds for something else"""
    import numpy as np
    from sim import ops
    seen = set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, ip.ArrayInterval):
            d = x._data
            for i in range(d.size):
                d.flat[i] = ip.Interval(41.5, 43.5)
        elif type(x) is np.ndarray:
            if x.flags.writeable and x.dtype.kind in 'fiu':
                x[...] = 42
            elif x.flags.writeable and x.dtype == object:
                for i in range(x.size):
                    x.flat[i] = ip.Interval(41.5, 43.5)
        elif type(x) is list:
            for v in x:
                go(v)
            x.clear()
        elif type(x) is tuple:
            for v in x:
                go(v)
        elif type(x) is dict:
            for v in x.values():
                go(v)
            x.clear()
    if 'r' in what and r is not None:
        if 'model' in op['a']:
            r = r[1]                        # the rest is the live state of the model, it is the user's to change
        go(r)
    if 'a' in what:
        for k, v in sorted(BUILT[id(op)].items()):
            if k not in ('f', 'J', 'root', 'model'):
                go(v)


def envsnap():
    import numpy as np, warnings, matplotlib, mpmath, cvxopt, locale, decimal
    import matplotlib.pyplot as plt
    st = np.random.get_state(legacy=True)
    cur = sim.cur
    return {
        'np.random': hashlib.sha1(st[1].tobytes() + repr((st[2], st[3], st[4])).encode()).hexdigest()[:12],
        'random': hashlib.sha1(repr(random.getstate()).encode()).hexdigest()[:12],
        'np.seterr': repr(sorted(np.geterr().items())) + repr(np.geterrcall()),
        'np.printoptions': repr(sorted(np.get_printoptions().items())),
        'mpmath': [mpmath.mp.dps, mpmath.mp.prec],
        'cvxopt.options': repr(sorted(cvxopt.solvers.options.items(), key=str)),
        'warnings.filters': hashlib.sha1(repr(warnings.filters).encode()).hexdigest()[:12],
        'warnings.showwarning': warnings.showwarning.__name__,
        'figures': plt.get_fignums(),
        'current figure': plt.gcf().number if plt.get_fignums() else None,
        'rcParams': hashlib.sha1(repr(dict.items(matplotlib.rcParams)).encode()).hexdigest()[:12],
        'backend': matplotlib.get_backend(),
        'cwd': os.getcwd(),
        'environ': hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest()[:12],
        'recursionlimit': sys.getrecursionlimit(),
        'switchinterval': sys.getswitchinterval(),
        'signals': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal': repr(decimal.getcontext()),
        'gc': gc.isenabled(),
        'sys.path': hashlib.sha1(repr(sys.path).encode()).hexdigest()[:12],
        'stdio': [sys.stdout is STDIO[0], sys.stderr is STDIO[1], sys.excepthook is sys.__excepthook__],
        'trace': [sys.gettrace() is None, sys.getprofile() is None],
        'files': sorted(os.listdir('.')),
        'numpy ufunc': [np.getbufsize()],
        'pandas': pandas_conf(),
        'cvxopt.printing': repr(sorted(cvxopt.printing.options.items())) if hasattr(cvxopt, 'printing') else None,
        'logging': [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        'matplotlib': [matplotlib.is_interactive(), repr(matplotlib.units.registry.__len__())],
        'umask': umask(),
        'warnings': [repr(warnings.defaultaction), len(warnings.filters)],
        'builtins': hashlib.sha1(repr(sorted(builtins.__dict__)).encode()).hexdigest()[:8],
        'atexit': atexit._ncallbacks(),
        'threads': threading.active_count() if len(sim.threads) < 2 else None,
    }


SAVED = {}          # which picture each file holds


def figart(fig):
    """what is drawn in a figure"""
    import numpy as np
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection, Path3DCollection, Line3D

    def nums(x):
        return [[float.hex(float(v)) for v in row] for row in np.atleast_2d(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)).tolist()]

    def col(c):
        return nums(c) if len(np.ravel(c)) else []
    axes = []
    for ax in fig.axes:
        art = []
        for p in ax.patches:
            art.append([type(p).__name__, nums(p.get_xy()) if hasattr(p, 'get_xy') and type(p).__name__ == 'Polygon' else [], col(p.get_facecolor()), col(p.get_edgecolor()), p.get_alpha(), p.get_fill()])
        for c in ax.collections:
            if isinstance(c, Poly3DCollection):
                pts = nums(np.ma.filled(np.ma.asarray(c._faces if hasattr(c, '_faces') else c._vec[:3].T, dtype=float), np.nan).reshape(-1, 3))
            elif isinstance(c, Path3DCollection):
                pts = nums(np.array([np.ma.filled(v, np.nan) for v in c._offsets3d]).T)
            else:
                pts = nums(c.get_offsets())
            art.append([type(c).__name__, pts, col(c.get_facecolor()) if type(c).__name__ != 'Path3DCollection' else [], c.get_alpha(),
                        nums(c.get_sizes()) if hasattr(c, 'get_sizes') and type(c).__name__ == 'PathCollection' else []])
        for l in ax.lines:
            art.append([type(l).__name__, nums(np.array(l.get_data_3d() if isinstance(l, Line3D) else l.get_data())), str(l.get_color()), l.get_alpha()])
        art += [['text', t.get_text()] for t in ax.texts]
        lims = [[round(float(v), 6) for v in g()] for g in (ax.get_xlim, ax.get_ylim, ax.get_zlim)] if ax.name == '3d' else []
        axes.append([ax.name, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), art, lims])
    return [[round(float(v), 6) for v in fig.get_size_inches()], axes]


def figsnap():
    """every open figure and what is drawn in it, and every file in the working directory"""
    from matplotlib._pylab_helpers import Gcf
    figs = {str(num): figart(Gcf.figs[num].canvas.figure) for num in sorted(Gcf.figs)}
    files = {}
    for root, dirs, names in os.walk('.'):
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                b = f.read()
            q = os.path.relpath(p, '.')
            files[q] = [b[:8] == b'\x89PNG\r\n\x1a\n' and b[-8:-4] == b'IEND', len(b) > 0, SAVED.get(q)]
    return {'figs': figs, 'files': files}


def pandas_conf():
    try:
        from pandas._config.config import _global_config as c
        return hashlib.sha1(repr(c).encode()).hexdigest()[:8]
    except Exception:
        return None


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


STDIO = [sys.stdout, sys.stderr]


# ---- executing specs ------------------------------------------------------------------------
def build_arg(v, pool):
    from sim import codec, values, ops
    if isinstance(v, list) and v:
        if v[0] == 'enc':
            return codec.dec(v[1], ip)
        if v[0] == 'M':                       # a model, with the last successful fit of its history
            m = values.build(v[1])
            if v[2]:
                a = {k: build_arg(x, pool) for k, x in v[2]['a'].items()}
                a['model'] = m
                try:
                    ops.execute(v[2], a)
                except Exception:             # a fit that failed in the history too
                    pass
            return m
    return values.build(v, pool)


def build_all(spec):
    from sim import values
    BUILT.clear()
    values.STORE.clear()
    pool = [build_arg(v, None) for v in spec.get('pool', ())]
    spec['_keep'] = pool

    def one(op):
        BUILT[id(op)] = {k: build_arg(v, pool) for k, v in op['a'].items()}
    for t in spec['threads']:
        for op in t:
            one(op)
    for f in spec.get('faults', ()):
        if f.get('act') == 'nest':
            one(f['call'])
    return pool


def ambient(spec):
    import numpy as np, warnings
    warnings.filterwarnings('ignore', message='(?s).*')     # not the filter simplefilter('ignore') would add
    a = spec.get('ambient') or {}
    np.random.seed(a.get('npseed', 12345))
    random.seed(a.get('pyseed', 54321))
    if 'err' in a:
        np.seterr(**a['err'])
    if 'dps' in a:
        import mpmath
        mpmath.mp.dps = a['dps']
    if a.get('figure'):
        import matplotlib.pyplot as plt
        for k in range(a['figure']):
            plt.figure(num=k + 1, figsize=(1, 1)).add_subplot().plot([0, 1])
    if a.get('cvx'):
        import cvxopt
        cvxopt.solvers.options.update(a['cvx'])
    if a.get('print'):
        np.set_printoptions(**a['print'])
    for k, v in (a.get('rc') or {}).items():
        import matplotlib
        matplotlib.rcParams[k] = v
    if a.get('bufsize'):
        np.setbufsize(a['bufsize'])
    if a.get('prec'):
        import decimal
        decimal.getcontext().prec = a['prec']
    if a.get('recursion'):
        sys.setrecursionlimit(a['recursion'])
    if a.get('gc'):
        gc.enable()
    if a.get('environ'):
        os.environ.update(a['environ'])
    if a.get('chdir'):
        os.mkdir(a['chdir'])
        os.chdir(a['chdir'])


def run_here(spec):
    """in a child: build everything, run, return the record"""
    import faulthandler
    ambient(spec)
    build_all(spec)
    extra = {}
    hook = spec.get('hook')
    if hook:
        from sim import props
        props.HOOKS[hook](sim, spec, extra)
    out = sim.run(spec)
    out['extra'] = extra
    spec.pop('_keep', None)
    return out


def forked(fn, wall=CHILD_WALL, scratch=False):
    """run fn() in a forked child; returns its JSON-able result or {'timeout'|'crash': ...}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            d = None
            if scratch:
                d = os.path.join(SCRATCH, 's%d' % os.getpid())
                os.mkdir(d)
                os.chdir(d)
            try:
                data = json.dumps(fn()).encode()
            except BaseException:
                data = json.dumps({'harness': traceback.format_exc()[-1500:]}).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            if d:
                os.chdir('/')
                shutil.rmtree(d, ignore_errors=True)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + wall
    res = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            res = {'timeout': wall}
            break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if res is not None or not buf:
        d = os.path.join(SCRATCH, 's%d' % pid)
        if scratch and os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
    if res is not None:
        return res
    if not buf:
        return {'crash': st}
    return json.loads(b''.join(buf))


SCRATCH = None


class RefServer:
    """reference executions in an interpreter with a different hash seed"""

    def __init__(self, lib):
        env = dict(os.environ, PYTHONHASHSEED=str((int(os.environ.get('PYTHONHASHSEED', '0') or 0) * 7 + 4242) % 4294967295))
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--lib', lib, '--ref', '--scratch', SCRATCH],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.k = 0

    def call(self, spec):
        self.k = k = (os.getpid() << 20) + (self.k & 0xfffff) + 1
        self.p.stdin.write((json.dumps([k, spec]) + '\n').encode())
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('reference server died')
            k2, out = json.loads(line)
            if k2 == k:
                return out


class Ctx:
    """what a property's runner may do"""

    def __init__(self, refserver):
        self.rs = refserver
        self.nref = 0
        self.children = 0

    def run(self, spec, wall=CHILD_WALL):
        self.children += 1
        return forked(lambda: run_here(spec), wall, scratch=True)

    def ref(self, spec):
        self.nref += 1
        return self.rs.call(spec)


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument('--lib')
    ap.add_argument('--ref', action='store_true')
    ap.add_argument('--scratch')
    a = ap.parse_args()
    SCRATCH = a.scratch
    proto_in = os.fdopen(os.dup(0), 'rb')
    proto_out = os.fdopen(os.dup(1), 'wb')
    null = os.open('/dev/null', os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get('SIM_DEBUG'):
        os.dup2(null, 2)
    load(a.lib)

    def send(x):
        proto_out.write((json.dumps(x) + '\n').encode())
        proto_out.flush()
    if a.ref:
        for line in proto_in:
            k, spec = json.loads(line)
            send([k, forked(lambda: run_here(spec), scratch=True)])
        return
    from sim import props
    rs = RefServer(a.lib)
    send({'ready': True})
    for line in proto_in:
        task = json.loads(line)
        t0 = time.monotonic()
        ctx = Ctx(rs)

        def go():
            return props.execute(ctx, task)
        r = forked(go, wall=task.get('wall', 170))
        r['task'] = task
        r['wall'] = round(time.monotonic() - t0, 4)
        send(r)


if __name__ == '__main__':
    main()
