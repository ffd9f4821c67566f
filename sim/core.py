"""The simulator: one process, one baton, one integer.

* Every thread of the simulated program is a real Python thread that may only run while it holds
  the baton.  The baton changes hands at points the simulator owns: every executed source line (or
  bytecode instruction) of the library (sys.monitoring local events), every call through a seam
  (numpy.linalg, cvxopt LP, user callbacks, number-like operands, file output, library locks) and
  operation boundaries.
* A run is a pure function of its JSON spec: operands, operations, context switches (each as
  "thread t, operation i, point n -> thread u") and faults are all explicit in it.
* sim.h is a rolling hash of every point passed, in order: equal hashes mean equal executions.
"""
import asyncio, ctypes, os, sys, threading, types, ast, importlib.machinery, collections, zlib

MASK = (1 << 61) - 1
ROUND = {'near': 0x000, 'down': 0x400, 'up': 0x800, 'zero': 0xC00}
RNAME = {v: k for k, v in ROUND.items()}
_libm = ctypes.CDLL('libm.so.6')
_fget, _fset = _libm.fegetround, _libm.fesetround


class SimCancel(BaseException):
    """a cancellation no library code can have a reason to know about"""


class SimFault(Exception):
    """a failure of user code or of a backend"""


class StepLimit(BaseException):
    """raised by the simulator when a run exceeds its step budget"""


class Deadlock(BaseException):
    pass


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit,
    'CancelledError': asyncio.CancelledError, 'SimCancel': SimCancel, 'SimFault': SimFault,
    'MemoryError': MemoryError, 'ZeroDivisionError': ZeroDivisionError, 'ValueError': ValueError,
    'OSError': OSError, 'RuntimeError': RuntimeError, 'ArithmeticError': ArithmeticError,
    'TypeError': TypeError, 'IndexError': IndexError, 'KeyError': KeyError, 'OverflowError': OverflowError,
    'StopIteration': StopIteration, 'AttributeError': AttributeError, 'FloatingPointError': FloatingPointError,
    'RecursionError': RecursionError, 'AssertionError': AssertionError, 'LookupError': LookupError,
}


def make_exc(name):
    if name == 'LinAlgError':
        import numpy as np
        cls = np.linalg.LinAlgError
    else:
        cls = EXC[name]
    e = cls('injected') if name != 'OSError' else OSError(28, 'injected: no space left')
    e.sim_tag = 'injected'
    return e


# ---------------------------------------------------------------------------------------------
class TCtx:
    def __init__(self, tid, ops):
        self.id, self.ops = tid, ops
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked = None
        self.opi = -1
        self.n = 0
        self.mute = 0
        self.fl = {}           # line point -> [fault]
        self.fs = {}           # (seam, k) -> [fault]
        self.sw = {}           # line point -> target
        self.ssw = {}          # (seam,k) -> target
        self.pending = None
        self.seamn = collections.Counter()
        self.res = []


class Sim:
    TOOL = 3

    def __init__(self):
        self.codes = {}           # code -> index
        self.cblog = None
        self.unsafe = {}          # filename -> set of lines where an injected exception is not fair
        self.cur = None
        self.main = threading.current_thread()
        self.gran = None
        self.reset()

    def reset(self):
        self.h = 1469598103934665603
        self.total = 0
        self.cap = 4_000_000
        self.stats = collections.Counter()
        self.events = []
        self.nswitch = self.nend = 0
        self.threads = []
        self.cur = None
        self.swallow = []
        self.running = False
        self.lib = None
        self.abort = None

    # ---- library loading ------------------------------------------------------------------
    def record_codes(self, import_fn, package='intvalpy'):
        got = []
        L = importlib.machinery.SourceFileLoader
        orig = L.get_code

        def get_code(loader, fullname):
            c = orig(loader, fullname)
            if c is not None and (fullname == package or fullname.startswith(package + '.')):
                got.append((fullname, c, loader.get_filename(fullname)))
            return c
        L.get_code = get_code
        try:
            import_fn()
        finally:
            L.get_code = orig

        def walk(c):
            self.codes[c] = len(self.codes)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
        for name, c, path in sorted(got, key=lambda x: x[0]):
            walk(c)
            self.unsafe[path] = unsafe_lines(path)
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'dst')
        mon.register_callback(self.TOOL, mon.events.LINE, self._on_line)
        mon.register_callback(self.TOOL, mon.events.INSTRUCTION, self._on_ins)
        mon.register_callback(self.TOOL, mon.events.EXCEPTION_HANDLED, self._on_handled)

    def instrument(self, gran):
        mon = sys.monitoring
        ev = {None: 0, 'line': mon.events.LINE, 'ins': mon.events.INSTRUCTION}[gran]
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, ev)
        self.gran = gran

    # ---- points ---------------------------------------------------------------------------
    def _on_line(self, code, line):
        t = self.cur
        if t is None or t.mute or threading.current_thread() is not t.thread:
            return
        t.n += 1
        self.total += 1
        n = t.n
        self.h = (self.h * 1000003 ^ (self.codes[code] << 24) ^ (t.id << 16) ^ line) & MASK
        if self.total > self.cap:
            self.limit()
        if n in t.fl or t.pending:
            self._line_fault(t, code, line, n)
        if n in t.sw:
            self.switch(t, t.sw[n])

    def _on_ins(self, code, off):
        t = self.cur
        if t is None or t.mute or threading.current_thread() is not t.thread:
            return
        t.n += 1
        self.total += 1
        self.h = (self.h * 1000003 ^ (self.codes[code] << 24) ^ (t.id << 16) ^ off) & MASK
        if self.total > self.cap:
            self.limit()
        if t.n in t.sw:
            self.switch(t, t.sw[t.n])

    def limit(self):
        self.stats['steplimit'] += 1
        self.cap = self.total + 100000     # room to unwind; hit again if the exception is swallowed
        raise StepLimit('step budget exhausted')

    def _line_fault(self, t, code, line, n):
        fs = t.fl.pop(n, [])
        if t.pending:
            fs = [t.pending] + fs
            t.pending = None
        for i, f in enumerate(fs):
            if f['act'] == 'raise' and line in self.unsafe.get(code.co_filename, ()):
                t.pending = f          # postponed to the next fair line
                continue
            self.fire(t, f, 'line:%s' % code.co_name)

    def _on_handled(self, code, off, exc):
        if getattr(exc, 'sim_tag', None) and len(self.swallow) < 50:
            self.swallow.append((code in self.codes, code.co_name))

    def seam(self, name, detail=0):
        """a call leaves the library through a seam; returns an override action or None"""
        t = self.cur
        if t is None or t.mute or threading.current_thread() is not t.thread:
            return None
        self.total += 1
        t.seamn[name] += 1
        t.seamn['*'] += 1
        self.h = (self.h * 1000003 ^ zlib.crc32(name.encode()) ^ (t.id << 33) ^ t.seamn[name]) & MASK
        if self.total > self.cap:
            self.limit()
        r = None
        for f in t.sticky:
            if f['seam'] == name:
                r = self.fire(t, f, name) or r
        for key in ((name, t.seamn[name]), ('*', t.seamn['*'])):
            if key in t.fs:
                for f in t.fs.pop(key):
                    if f.get('sticky'):
                        t.sticky.append(f)
                    r = self.fire(t, f, name) or r
            if key in t.ssw:
                self.switch(t, t.ssw[key])
        return r

    def fire(self, t, f, where):
        act = f['act']
        self.stats['fault:' + act + (':' + f['exc'] if act == 'raise' else '') +
                   (':' + f['status'] if act == 'status' else '')] += 1
        self.ev('fault', t.id, t.opi, t.n, act, where, f.get('exc', ''))
        f['fired'] = True
        if act == 'raise':
            e = make_exc(f['exc'])
            t.injected = e
            raise e
        if act == 'nest':
            self.nested(t, f)
            return None
        if act == 'mode':                     # somebody changes the ambient rounding mode
            _fset(ROUND[f['mode']])
            return None
        return f                              # override, interpreted by the seam

    def nested(self, t, f):
        t.mute += 1
        mode = _fget()
        if f.get('round') is not None:
            _fset(ROUND[f['round']])
        before = _fget()
        try:
            out = self.call_op(f['call'])
        finally:
            after = _fget()
            _fset(mode)
            t.mute -= 1
        t.nested.append({'op': f['call'], 'out': out, 'mode': [RNAME[before], RNAME[after]]})

    # ---- scheduling -----------------------------------------------------------------------
    def ev(self, *a):
        if len(self.events) < 2000:
            self.events.append((self.total,) + a)
        self.h = (self.h * 1000003 ^ zlib.crc32(repr(a).encode())) & MASK

    def pick(self, want, me):
        ts = self.threads
        n = len(ts)
        for d in range(n):
            c = ts[(want + d) % n]
            if not c.done and (c.blocked is None or not c.blocked.locked()):
                return c
        return None

    def switch(self, t, want):
        c = self.pick(want, t)
        if c is None or c is t:
            return
        self.nswitch += 1
        self.stats['switch'] += 1
        self.ev('switch', t.id, t.opi, t.n, c.id)
        self.hand(t, c)

    def hand(self, t, c):
        self.cur = c
        c.sem.release()
        t.sem.acquire()
        if self.abort:
            raise self.abort
        self.cur = t

    def block_on(self, lock):
        """a library lock is contended: run somebody else"""
        t = self.cur
        t.blocked = lock
        c = self.pick(t.id + 1, t)
        if c is None or c is t:
            t.blocked = None
            self.stats['deadlock'] += 1
            raise Deadlock('all simulated threads are blocked')
        self.stats['lock-contention'] += 1
        self.ev('blocked', t.id, t.opi, t.n, c.id)
        self.hand(t, c)
        t.blocked = None

    # ---- running --------------------------------------------------------------------------
    def call_op(self, op):
        ip = self.ip
        try:
            r = self.opfn(op)
            return ['ok', self.enc(r, ip)]
        except BaseException as e:
            return self.exc_out(e)

    def exc_out(self, e):
        tag = getattr(e, 'sim_tag', None)
        return ['exc', type(e).__name__, 'injected' if tag else None]

    def run_op(self, t, i, op, spec):
        t.opi, t.n = i, 0
        t.seamn = collections.Counter()
        t.fl, t.fs, t.sw, t.ssw, t.pending, t.nested, t.injected, t.sticky = {}, {}, {}, {}, None, [], None, []
        for f in spec.get('faults', ()):
            if f['t'] == t.id and f['op'] == i:
                if 'n' in f:
                    t.fl.setdefault(f['n'], []).append(f)
                else:
                    t.fs.setdefault((f['seam'], f['k']), []).append(f)
        for s in spec.get('sched', ()):
            if s[0] == t.id and s[1] == i:
                if s[2] == 0:
                    continue
                if isinstance(s[2], int):
                    t.sw[s[2]] = s[3]
                elif s[2][0] == 'span':           # every step-th point of a window
                    for p in range(s[2][1], s[2][2], s[2][3]):
                        t.sw.setdefault(p, s[3])
                else:
                    t.ssw[(s[2][0], s[2][1])] = s[3]
        rec = {'t': t.id, 'i': i}
        want = spec.get('observe', ())
        t.mute += 1
        if 'args' in want:
            rec['pre'] = self.snap(op)
        if 'env' in want:
            rec['env0'] = self.envsnap()
        if 'figs' in want:
            rec['figs0'] = self.figsnap()
        mode = ROUND[op.get('round', 'near')]
        self.swallow = []
        t.alloc = None
        self.ev('start', t.id, i, op['f'])
        t.mute -= 1
        exc = None
        _fset(mode)
        try:
            try:
                if op.get('nomem') is not None:
                    r = self.alloc_call(t, op)
                else:
                    r = self.opfn(op)
            finally:
                after = _fget()
                _fset(0)
                t.mute += 1
            rec['out'] = ['ok', self.enc(r, self.ip)]
            if 'keep' in want:
                t.keep = r
        except BaseException as e:
            exc = e
            rec['out'] = self.exc_out(e)
            rec['msg'] = ('%s: %s' % (type(e).__name__, e))[:200]
            if isinstance(e, (StepLimit, Deadlock)):
                rec['limit'] = True
            # does the exception that came out carry the one we put in?
            if t.injected is not None:
                rec['same'] = e is t.injected
        rec['round'] = [RNAME[mode], RNAME.get(after, str(after))]
        rec['n'], rec['seams'], rec['at'] = t.n, dict(t.seamn), self.nend
        self.nend += 1
        if t.injected is not None:
            rec['injected'] = type(t.injected).__name__
            rec['swallow'] = self.swallow[-6:]
        if t.nested:
            rec['nested'] = t.nested
        if 'args' in want:
            rec['post'] = self.snap(op)
        if 'env' in want:
            rec['env1'] = self.envsnap()
        if 'figs' in want:
            rec['figs1'] = self.figsnap()
        if 'store' in want:
            rec['store'] = self.storesnap('views' in want)
        if op.get('spoil'):
            # the client overwrites what it got back (and passed in) before its next call
            self.spoil(op, r if exc is None else None, op['spoil'])
        if op.get('_extra'):
            rec['extra'] = op.pop('_extra')
        self.ev('end', t.id, i, rec['out'][0])
        t.res.append(rec)
        t.mute -= 1
        for s in spec.get('sched', ()):
            if s[0] == t.id and s[1] == i and s[2] == 0:
                self.switch(t, s[3])
        return exc

    def alloc_call(self, t, op):
        import _testcapi
        a, b = op['nomem']
        fn, fset = self.opfn_raw(op), _fset
        _testcapi.set_nomemory(a, b)
        try:
            r = fn()
        finally:
            _testcapi.remove_mem_hooks()
        return r

    def run(self, spec):
        self.reset()
        self.cap = spec.get('cap', 4_000_000)
        self.spec = spec
        self.instrument(spec.get('gran', 'line'))
        mon = sys.monitoring
        mon.set_events(self.TOOL, mon.events.EXCEPTION_HANDLED if spec.get('watch_handled') else 0)
        self.threads = [TCtx(k, ops) for k, ops in enumerate(spec['threads'])]
        for f in spec.get('faults', ()):
            f.pop('fired', None)
        err = []
        if len(self.threads) == 1:
            t = self.threads[0]
            t.thread = threading.current_thread()
            self.cur = t
            for i, op in enumerate(t.ops):
                self.run_op(t, i, op, spec)
            self.cur = None
        else:
            fin = threading.Semaphore(0)

            def body(t):
                t.sem.acquire()
                try:
                    if not self.abort:
                        self.cur = t
                        for i, op in enumerate(t.ops):
                            self.run_op(t, i, op, spec)
                except BaseException as e:           # harness error
                    err.append(repr(e))
                    self.abort = self.abort or e
                t.done = True
                t.mute += 1
                c = self.pick(t.id + 1, t)
                if c is None:
                    left = [x for x in self.threads if not x.done]
                    if left:
                        self.abort = Deadlock('threads left blocked')
                        self.stats['deadlock'] += 1
                        left[0].blocked = None
                        self.cur = left[0]
                        left[0].sem.release()
                    else:
                        self.cur = None
                        fin.release()
                else:
                    self.cur = c
                    c.sem.release()
            for t in self.threads:
                t.thread = threading.Thread(target=body, args=(t,), daemon=True)
                t.thread.start()
            self.cur = self.threads[0]
            self.threads[0].sem.release()
            fin.acquire()
            for t in self.threads:
                t.thread.join()
        self.instrument(None)
        return {
            'ops': [t.res for t in self.threads], 'h': '%016x' % self.h, 'steps': self.total,
            'switches': self.nswitch, 'stats': dict(self.stats), 'err': err,
            'events': self.events[-200:] if spec.get('trace') else [],
            'fired': [bool(f.get('fired')) for f in spec.get('faults', ())],
        }


class SimLock:
    """stands in for threading.Lock/RLock objects created by the library"""
    sim = None

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner, self._count = None, 0

    def locked(self):
        return self._owner is not None

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            s = SimLock.sim
            if s is None or s.cur is None:
                raise Deadlock('lock held and no simulation is running')
            s.block_on(self)

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def unsafe_lines(path):
    """lines where raising asynchronously is not a fair test: Python gives no code a way to clean up
    after an exception that arrives while its own finally/except/with machinery is running"""
    out = set()
    try:
        with open(path, encoding='utf-8-sig') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return out
    for node in ast.walk(tree):
        if isinstance(node, ast.Try) or node.__class__.__name__ == 'TryStar':
            out.add(node.lineno)
            for part in [node.finalbody] + [h.body for h in node.handlers]:
                for s in part:
                    out.update(range(s.lineno, (s.end_lineno or s.lineno) + 1))
            for h in node.handlers:
                out.add(h.lineno)
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
    return out
