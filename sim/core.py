"""Simulation core: seeds, the I/O seam, the step clock, the random seam.

One case (a JSON document) plus the code under test determines one execution.
"""
import ctypes, errno, hashlib, json, os, random, shutil, sys, threading, gc, warnings
from collections import Counter

warnings.simplefilter('ignore')
OPN = {1: 'open', 2: 'read', 3: 'write', 4: 'close', 5: 'seek', 6: 'trunc', 7: 'sync', 8: 'rename', 9: 'unlink'}
REPO = os.environ.get('RSB_REPO', '/repo')


class Violation(Exception):
    """The property does not hold in this execution."""
    def __init__(self, kind, msg, **tags):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg, self.tags = kind, msg, tags


class SimHang(BaseException):
    """The step budget of one execution is used up."""


class SimKill(BaseException):
    """Unwinds a simulated thread."""


def rng(*parts):
    """A PRNG determined by its arguments only (not by PYTHONHASHSEED)."""
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def frac(r, digits=6):
    """A short decimal fraction in [0, 1)."""
    return int(r.random() * 10**digits) / 10**digits


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- I/O seam
class _Lib:
    lib = None
    cb = None


def _shim():
    if _Lib.lib is None:
        lib = ctypes.CDLL(None)
        try:
            lib.sim_config
        except AttributeError:
            raise RuntimeError('the I/O seam is not preloaded; start through /verif/check')
        lib.sim_entropy.argtypes = [ctypes.c_int, ctypes.c_uint64]
        lib.sim_open_tracked.restype = ctypes.c_long
        _Lib.lib = lib
    return _Lib.lib


CBT = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int)


def entropy(on, seed=0):
    _shim().sim_entropy(1 if on else 0, seed & (2**64 - 1))


class IO:
    """The simulated operating-system file interface of one scratch directory.

    plan: list of fault descriptors
      {'k':'eio','op':'read'|'write','nth':n[, 'sticky':1]}   n-th transfer of that kind fails with EIO
      {'k':'enospc','cap':b[,'free':n]}   the disk accepts b more bytes, then ENOSPC (after a short write)
      {'k':'close','nth':n,'err':name,'lost':b}    n-th close of a written file fails; b bytes are lost
      {'k':'open','nth':n,'err':name}     n-th open fails
      {'k':'sync'|'rename','nth':n,'err':name}
      {'k':'short','s':seed,'p':prob,'max':m}     transfers are cut to a random shorter length
      {'k':'eintr','s':seed,'p':prob}     transfers are interrupted before moving data (fd level only)
    """

    def __init__(self, path):
        self.dir = path
        self.lib = _shim()
        self._cb = CBT(self._callback)
        _Lib.cb = self._cb
        self.lib.sim_config((path + '/').encode(), self._cb)
        self.reset()

    def reset(self, plan=(), before=None, max_ops=200000):
        self.lib.sim_enable(0)
        self.plan = [dict(p) for p in plan]
        for p in self.plan:
            if 's' in p:
                p['rng'] = random.Random(p['s'])
            p['streak'] = 0
        self.log = []
        self.count = Counter()
        self.fired = Counter()
        self.written = Counter()      # fid -> bytes
        self.total_written = 0
        self.before = before
        self.max_ops = max_ops
        self.hang = False
        self.lib.sim_reset()

    def __enter__(self):
        self.lib.sim_enable(1)
        return self

    def __exit__(self, *a):
        self.lib.sim_enable(0)
        return False

    def open_handles(self):
        return self.lib.sim_open_tracked()

    def _callback(self, op, fid, size, pos, flags):
        try:
            return self._decide(op, fid, size, pos, flags)
        except BaseException as e:           # harness bug: make it loud, never silent
            self.log.append(('HARNESS', repr(e)))
            self.harness_error = e
            return -errno.EIO

    harness_error = None

    def _decide(self, op, fid, size, pos, flags):
        name = OPN[op]
        if len(self.log) >= self.max_ops:
            self.hang = True
            return -errno.EIO
        if self.before is not None:
            self.before(self, name, fid, size, pos)
        n = self.count[name]
        self.count[name] += 1
        res = size if name in ('read', 'write') else 0
        for p in self.plan:
            k = p['k']
            if k == 'eio' and name == p['op']:
                if n == p['nth'] or (p.get('sticky') and n > p['nth']):
                    res = -errno.EIO
                    self.fired['eio_' + name] += 1
                    break
            elif k == 'enospc' and name == 'write':
                if p.get('free') is not None and n >= p['free']:
                    continue
                left = p['cap'] - self.total_written
                if size > left:
                    res = left if left > 0 else -errno.ENOSPC
                    self.fired['enospc_short' if left > 0 else 'enospc'] += 1
                    break
            elif k == 'close' and name == 'close':
                if n == p['nth'] and self.written[fid]:
                    e = getattr(errno, p.get('err', 'EIO'))
                    lost = min(int(p.get('lost', 0)), self.written[fid])
                    res = -((lost + 1) * 100000 + e) if lost else -e
                    self.fired['close_' + p.get('err', 'EIO') + ('_lost' if lost else '')] += 1
                    break
            elif k in ('open', 'sync', 'rename') and name == k:
                if n == p['nth']:
                    res = -getattr(errno, p.get('err', 'EIO'))
                    self.fired[k + '_' + p.get('err', 'EIO')] += 1
                    break
            elif k == 'short' and name in ('read', 'write') and size > 1:
                if p['rng'].random() < p['p']:
                    m = min(size - 1, p.get('max') or size)
                    res = p['rng'].randint(1, m)
                    self.fired['short_' + name] += 1
                    break
            elif k == 'eintr' and name in ('read', 'write') and not flags:
                if p['streak'] < 3 and p['rng'].random() < p['p']:
                    p['streak'] += 1
                    res = -errno.EINTR
                    self.fired['eintr_' + name] += 1
                    break
                p['streak'] = 0
        if name == 'write' and res > 0:
            self.written[fid] += res
            self.total_written += res
        self.log.append((name, fid, size, pos, res))
        return res


# ---------------------------------------------------------------- step clock
_MON = 3
_hook = None
_prefix = None


def _on_line(code, line):
    if not code.co_filename.startswith(_prefix):
        return sys.monitoring.DISABLE
    h = _hook
    if h is not None:
        h(code, line)


def install_monitor():
    global _prefix
    if _prefix is not None:
        return
    import rsbeams
    _prefix = os.path.join(os.path.dirname(os.path.abspath(rsbeams.__file__)), '')
    mon = sys.monitoring
    mon.use_tool_id(_MON, 'rsbsim')
    mon.register_callback(_MON, mon.events.LINE, _on_line)
    mon.set_events(_MON, mon.events.LINE)


def set_line_hook(h):
    global _hook
    _hook = h


class Steps:
    """Counts executed source lines of the library; the simulated clock."""
    def __init__(self, budget, io=None):
        self.n, self.budget, self.io = 0, budget, io

    def __call__(self, code, line):
        self.n += 1
        if self.n > self.budget or (self.io is not None and self.io.hang):
            raise SimHang('no termination within %d steps' % self.n)

    def __enter__(self):
        self.prev = _hook
        set_line_hook(self)
        return self

    def __exit__(self, *a):
        set_line_hook(self.prev)
        return False


# ---------------------------------------------------------------- outcomes
def attempt(fn, io=None, budget=3_000_000, gc_after=True):
    """Run fn under the seam.  -> ('ok', value) | ('raise', exception)
    A run that does not terminate within its budget is a violation."""
    steps = Steps(budget, io)
    try:
        with steps:
            if io is not None:
                with io:
                    v = fn()
            else:
                v = fn()
        out = ('ok', v)
    except SimHang as e:
        raise Violation('hang', 'the call does not terminate (%s)' % e)
    except RecursionError as e:
        out = ('raise', _strip(e))
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except Violation:
        raise
    except SystemExit as e:
        out = ('raise', e)
    except Exception as e:
        out = ('raise', _strip(e))
    finally:
        STAT['steps'] += steps.n
    if io is not None:
        if io.hang:
            raise Violation('hang', 'the call does not terminate (more than %d file operations)' % io.max_ops)
        if io.harness_error is not None:
            e, io.harness_error = io.harness_error, None
            raise RuntimeError('harness error in the I/O seam: %r' % (e,))
        if gc_after and out[0] == 'raise':
            gc.collect()
    return out


def _strip(e):
    e.__traceback__ = None
    c = e
    for _ in range(20):
        c = c.__context__
        if c is None:
            break
        c.__traceback__ = None
    return e


STAT = Counter()          # per-process accounting used for the evidence
FIRED = Counter()
STATES = set()
PROBES = Counter()


def note_io(io):
    STAT['io_ops'] += len(io.log)
    for k, v in io.fired.items():
        FIRED[k] += v


def fired(kind, n=1):
    FIRED[kind] += n


def probe(name, n=1):
    PROBES[name] += n


def state(*parts):
    STATES.add(digest(parts))


# ---------------------------------------------------------------- scratch
class Scratch:
    """The run's scratch directory; emptied between cases."""
    base = None

    @classmethod
    def setup(cls, base):
        cls.base = base
        os.makedirs(base, exist_ok=True)
        cls.io = IO(base)

    @classmethod
    def clean(cls):
        for n in os.listdir(cls.base):
            p = os.path.join(cls.base, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)


def path(name):
    return os.path.join(Scratch.base, name)


def io():
    return Scratch.io


def put(name, data):
    p = path(name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def get(name):
    try:
        with open(path(name), 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


# ---------------------------------------------------------------- comparisons
def same_float(a, b):
    """Bit-level equality up to NaN payload, distinguishing -0.0."""
    import math
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def same_array(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        a = a.astype(float)
        b = b.astype(float)
        return bool(np.all(((a == b) & (np.signbit(a) == np.signbit(b))) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def first_diff(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
        if not same_array(x, y):
            return 'element %d is %r, expected %r' % (i, x, y)
    return 'equal'


def choose(r, pairs):
    """Weighted choice; pairs = [(weight, value), ...]"""
    t = r.random() * sum(w for w, _ in pairs)
    for w, v in pairs:
        t -= w
        if t < 0:
            return v
    return pairs[-1][1]


# ---------------------------------------------------------------- shrinking helpers
def drop_items(case, *paths):
    """Candidates with one chunk or one item dropped from the list at each path (tuple of keys)."""
    for pth in paths:
        lst = case
        for k in pth:
            lst = lst[k] if not isinstance(lst, dict) else lst.get(k)
            if lst is None:
                break
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        chunk = n
        while chunk >= 1:
            for i in range(0, n, chunk):
                c = json.loads(json.dumps(case))
                t = c
                for k in pth:
                    t = t[k]
                del t[i:i + chunk]
                yield c
            if chunk == 1:
                break
            chunk = max(1, chunk // 2)


def set_at(case, pth, value):
    c = json.loads(json.dumps(case))
    t = c
    for k in pth[:-1]:
        t = t[k]
    t[pth[-1]] = value
    return c


def shrink_int(case, pth, lo=0):
    v = case
    for k in pth:
        v = v[k]
    if not isinstance(v, int) or isinstance(v, bool):
        return
    seen = set()
    for cand in (lo, lo + 1, lo + 2, v // 2, v - (v - lo) // 4, v - 1):
        if lo <= cand < v and cand not in seen:
            seen.add(cand)
            yield set_at(case, pth, cand)


# ---------------------------------------------------------------- isolation
def isolated(fn):
    """Run fn in a forked child, so that nothing it leaves behind in the process reaches later runs.
    fn returns something JSON can carry.  Violations and accounting come back to this process."""
    import pickle, traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            STAT.clear(), FIRED.clear(), PROBES.clear(), STATES.clear()
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('violation', (v.kind, v.msg, v.tags))
            except BaseException as e:
                t, inside = e.__traceback__, None
                while t is not None:
                    if t.tb_frame.f_code.co_filename.startswith(_prefix):
                        inside = t.tb_frame.f_code.co_filename
                    t = t.tb_next
                out = ('library' if inside and isinstance(e, Exception) else 'error', traceback.format_exc()[-1500:])
            data = pickle.dumps((out, dict(STAT), dict(FIRED), dict(PROBES), set(STATES)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status):
            raise Violation('crash', 'the process dies with signal %d' % os.WTERMSIG(status))
        raise RuntimeError('isolated run failed with status %d' % status)
    (how, v), st, fi, pr, ss = pickle.loads(data)
    STAT.update(st), FIRED.update(fi), PROBES.update(pr), STATES.update(ss)
    if how == 'ok':
        return v
    if how == 'violation':
        raise Violation(v[0], v[1], **v[2])
    if how == 'library':
        raise Violation('raises', 'a call that has to succeed raises: ' + v.strip().splitlines()[-1])
    raise RuntimeError(v)
