"""The simulated world pyodrx runs in.

One World is one simulated run: its clock, disk, console, process launcher, numeric kernel,
environment and thread scheduler.  Everything is decided by the scenario (JSON) it is given;
nothing here draws from a random generator except the scheduler in *recording* mode, whose
decisions are written down and can be replayed.

pyodrx itself is executed unmodified from the sources under REPO; every simulated process gets
freshly executed modules (so module- and class-level state starts as in a new interpreter).
"""
import _thread
import builtins
import collections
import datetime as _datetime_mod
import errno
import functools
import gc
import hashlib
import importlib.abc
import importlib.util
import io
import json
import locale
import os
import pathlib
import random
import shlex
import shutil
import subprocess
import sys
import tempfile
import threading
import time as _time_mod
import uuid

REPO = os.path.realpath(os.environ.get('PYODRX_REPO', '/repo'))
PKG = os.path.join(REPO, 'pyodrx')

real_open = io.open
real_datetime = _datetime_mod.datetime
real_time = _time_mod.time
real_time_ns = _time_mod.time_ns
real_monotonic = _time_mod.monotonic
real_system = os.system
real_stdout = sys.stdout
real_popen = subprocess.Popen
alloc_lock = _thread.allocate_lock
real_Lock = threading.Lock
real_RLock = threading.RLock
real_os = {n: getattr(os, n) for n in ('replace', 'rename', 'remove', 'unlink', 'open', 'fsync', 'truncate', 'link', 'write', 'writev', 'pwrite', 'close')
           if hasattr(os, n)}

W = None            # the current world (one at a time per worker process)


class SimKill(BaseException):
    """the simulated process dies here"""


class SimAbort(BaseException):
    """unwinds a simulated thread when the run is being torn down"""


class StepLimit(BaseException):
    """the operation used more steps than its budget"""


EXC = {
    'BrokenPipeError': lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe (simulated)'),
    'ValueError': lambda: ValueError('I/O operation on closed file. (simulated)'),
    'UnicodeEncodeError': lambda: UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128) (simulated)'),
    'OSError': lambda: OSError(errno.EIO, 'Input/output error (simulated)'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('simulated'),
    'MemoryError': lambda: MemoryError('simulated'),
    'FloatingPointError': lambda: FloatingPointError('simulated'),
}


def oserr(name, path=None):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e) + ' (simulated)', path)


# ----------------------------------------------------------------------------- fresh processes
_code_cache = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        st = os.stat(self.path)
        key = (self.path, st.st_mtime_ns, st.st_size)
        code = _code_cache.get(key)
        if code is None:
            with real_open(self.path, 'rb') as f:
                code = compile(f.read(), self.path, 'exec', dont_inherit=True)
            _code_cache[key] = code
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'pyodrx' and not name.startswith('pyodrx.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(p), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(p))
        return None


sys.meta_path.insert(0, _Finder())
sys.dont_write_bytecode = True


def fresh_pyodrx():
    """a new simulated process: all pyodrx modules executed anew"""
    for m in [m for m in sys.modules if m == 'pyodrx' or m.startswith('pyodrx.')]:
        del sys.modules[m]
    import pyodrx
    if not os.path.realpath(pyodrx.__file__).startswith(PKG + os.sep):
        raise RuntimeError('pyodrx imported from %s' % pyodrx.__file__)
    g = sys.modules.get('pyodrx.geometry')
    if g is not None:
        for n in ('fresnel', 'quad'):
            f = getattr(g, n, None)
            if f is not None:
                setattr(g, n, _kernel(f))
    return pyodrx


def _kernel(f):
    def call(*a, **k):
        w = W
        if w is not None:
            w.kernel_call()
        return f(*a, **k)
    return call


# ----------------------------------------------------------------------------- clock
class _SimDTMeta(type(real_datetime)):
    def __instancecheck__(cls, o):
        return isinstance(o, real_datetime)

    def __subclasscheck__(cls, o):
        return issubclass(o, real_datetime)


class SimDateTime(real_datetime, metaclass=_SimDTMeta):
    @classmethod
    def now(cls, tz=None):
        if W is None:
            return real_datetime.now(tz)
        t = W.read_clock()
        return t if tz is None else t.astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now() if W is None else W.read_clock().astimezone(_datetime_mod.timezone.utc).replace(tzinfo=None)


class SimDate(_datetime_mod.date, metaclass=type('M', (type(_datetime_mod.date),), {
        '__instancecheck__': lambda c, o: isinstance(o, _real_date)})):
    @classmethod
    def today(cls):
        return _real_date.today() if W is None else W.read_clock().date()


_real_date = SimDate.__mro__[1]


def _sim_time():
    return real_time() if W is None else W.read_clock().timestamp()     # the simulated clock is the local wall clock


_real_localtime, _real_gmtime, _real_strftime, _real_ctime = (_time_mod.localtime, _time_mod.gmtime, _time_mod.strftime, _time_mod.ctime)


def _sim_gm(secs=None):
    if W is None:
        return _real_gmtime() if secs is None else _real_gmtime(secs)
    return _real_gmtime(_sim_time() if secs is None else secs)


def _sim_local(secs=None):
    if W is None:
        return _real_localtime() if secs is None else _real_localtime(secs)
    return _real_localtime(_sim_time() if secs is None else secs)


def _sim_strftime(fmt, t=None):
    return _real_strftime(fmt, _sim_local() if t is None else t)


def _sim_ctime(secs=None):
    return _time_mod.asctime(_sim_local(secs))


def _sim_sleep(s):
    if W is None:
        return _real_sleep(s)
    W.now += _datetime_mod.timedelta(seconds=float(s))


_real_sleep = _time_mod.sleep


# ----------------------------------------------------------------------------- disk
def _raw_write(w, tid, path, b, put):
    """one write system call of b; put(bytes) does the real one"""
    if w.dead:
        return len(b)
    b = bytes(b)
    lim = len(b)
    w.fs_ops += 1
    w.io_point()
    for f in w.faults_for(tid):
        if f['k'] == 'short' and lim > f['chunk']:
            lim = f['chunk']
            w.fire(f, 'short write', once=False)
    for f in w.faults_for(tid):
        if f['k'] in ('write', 'kill') and not f.get('_off'):
            done = w.op_bytes(tid)
            room = f['at'] - done
            if room < lim or (f['k'] == 'kill' and room <= lim):
                if room > 0:
                    put(b[:room])
                    w.add_bytes(tid, room)
                if f['k'] == 'kill':
                    w.fire(f, 'kill@write')
                    w.kill()
                if room > 0:
                    return room                    # a torn write; the next one fails
                w.fire(f, f['err'] + '@write', sticky=f.get('sticky'))
                raise oserr(f['err'], path)
    r = put(b[:lim])
    w.add_bytes(tid, r)
    return r


def _raw_close(w, tid, path, wr):
    """after the real close of a file that was written"""
    if not wr or w.dead:
        return
    for f in w.faults_for(tid):
        if f['k'] == 'kill_close' and not f.get('_off'):
            w.fire(f, 'kill@close')
            w.kill()
        if f['k'] == 'close' and not f.get('_off'):
            if f.get('lose'):
                try:
                    sz = os.path.getsize(path)
                    real_os['truncate'](path, max(0, sz - f['lose']))
                except OSError:
                    pass
            w.fire(f, f['err'] + '@close')
            raise oserr(f['err'], path)


class SimRaw(io.FileIO):
    """raw file layer: the faults and the kill point are decided here, below Python's own buffering"""
    def __init__(self, w, path, mode, fd=None):
        self._w = w
        self._p = path
        self._tid = w.tid()
        self._done = False
        self._zombie = False
        super().__init__(path if fd is None else fd, mode)
        w.open_files.add(self)
        if self.writable():
            w.fds[self.fileno()] = path

    def write(self, b):
        if self._zombie:
            return len(b)
        return _raw_write(self._w, self._tid, self._p, b, super().write)

    def close(self):
        if self._done:
            return
        w = self._w
        self._done = True
        w.open_files.discard(self)
        try:
            w.fds.pop(self.fileno(), None)
            wr = self.writable()
        except ValueError:
            wr = False
        super().close()
        _raw_close(w, self._tid, self._p, wr)

    def __del__(self):
        # a handle nobody closed: the simulated process never flushes it, on any interpreter
        pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    if w is None or w.tid() is None or (isinstance(file, int) and file not in w.fds):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fd = None
    if isinstance(file, int):
        fd = file
        path = w.fds[fd]
    else:
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
    writing = any(c in mode for c in 'wax+')
    if not w.inside(path):
        if not writing:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        w.escapes.append(path)
        raise PermissionError(errno.EACCES, 'outside the simulated disk', path)
    if w.dead:
        raise SimKill()
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
    if writing and fd is None:
        w.fs_ops += 1
        w.io_point()
        for f in w.faults_for(w.tid()):
            if f['k'] == 'open' and not f.get('_off'):
                f['n'] -= 1
                if f['n'] <= 0:
                    w.fire(f, f['err'] + '@open', sticky=f.get('sticky'))
                    raise oserr(f['err'], path)
    raw = SimRaw(w, path, rawmode, fd)
    if writing and fd is None:
        w.log('open', os.path.relpath(path, w.root), mode)
        for f in w.faults_for(w.tid()):
            if f['k'] == 'kill_open' and not f.get('_off'):
                w.fire(f, 'kill@open')
                w.kill()
    if buffering == 0 and binary:
        return raw
    bs = buffering if buffering > 1 else w.env.get('buffer', io.DEFAULT_BUFFER_SIZE)
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, bs)
    elif writing:
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    if encoding is None or encoding == 'locale':
        encoding = w.env.get('encoding', 'utf-8')
    if newline is None and writing and '+' not in rawmode:
        newline = w.env.get('linesep', '\n')
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = W
    if w is None or w.tid() is None or dir_fd is not None:
        return real_os['open'](path, flags, mode, dir_fd=dir_fd)
    if w.dead:
        raise SimKill()
    p = os.path.abspath(os.fsdecode(os.fspath(path)))
    wr = bool(flags & 3)
    if not w.inside(p):
        if not wr:
            return real_os['open'](path, flags, mode)
        w.escapes.append(p)
        raise PermissionError(errno.EACCES, 'outside the simulated disk', p)
    if wr:
        w.fs_ops += 1
        w.io_point()
        for f in w.faults_for(w.tid()):
            if f['k'] == 'open' and not f.get('_off'):
                f['n'] -= 1
                if f['n'] <= 0:
                    w.fire(f, f['err'] + '@open', sticky=f.get('sticky'))
                    raise oserr(f['err'], p)
    fd = real_os['open'](path, flags, mode)
    if wr:
        w.fds[fd] = p
        w.log('open', os.path.relpath(p, w.root), flags)
        for f in w.faults_for(w.tid()):
            if f['k'] == 'kill_open' and not f.get('_off'):
                w.fire(f, 'kill@open')
                w.kill()
    return fd


def _sim_os_write(fd, b):
    w = W
    if w is None or w.tid() is None or fd not in w.fds:
        return real_os['write'](fd, b)
    if w.dead:
        raise SimKill()
    return _raw_write(w, w.tid(), w.fds[fd], b, lambda x: real_os['write'](fd, x))


def _sim_os_writev(fd, bs):
    if W is None or W.tid() is None or fd not in W.fds:
        return real_os['writev'](fd, bs)
    return _sim_os_write(fd, b''.join(bs))


def _sim_os_pwrite(fd, b, offset):
    w = W
    if w is None or w.tid() is None or fd not in w.fds:
        return real_os['pwrite'](fd, b, offset)
    if w.dead:
        raise SimKill()
    return _raw_write(w, w.tid(), w.fds[fd], b, lambda x: real_os['pwrite'](fd, x, offset))


def _sim_os_close(fd):
    w = W
    if w is None or w.tid() is None or fd not in w.fds:
        return real_os['close'](fd)
    p = w.fds.pop(fd)
    real_os['close'](fd)
    _raw_close(w, w.tid(), p, True)


def _fs_call(name):
    f0 = real_os[name]

    def call(*a, **k):
        w = W
        if w is None or w.tid() is None:
            return f0(*a, **k)
        if w.dead:
            raise SimKill()
        for p in a[:2] if name in ('replace', 'rename', 'link') else a[:1]:
            if isinstance(p, (str, bytes, os.PathLike)):
                ap = os.path.abspath(os.fsdecode(os.fspath(p)))
                if not w.inside(ap) and not (name == 'open' and (len(a) < 2 or a[1] & 3 == 0)):
                    w.escapes.append(ap)
                    raise PermissionError(errno.EACCES, 'outside the simulated disk', ap)
        w.fs_ops += 1
        for f in w.faults_for(w.tid()):
            if f['k'] == 'meta' and not f.get('_off') and name in ('replace', 'rename', 'link', 'remove', 'unlink', 'fsync'):
                f['n'] -= 1
                if f['n'] <= 0:
                    w.fire(f, f['err'] + '@' + name)
                    raise oserr(f['err'])
        return f0(*a, **k)
    call.__name__ = name
    return call


# ----------------------------------------------------------------------------- process launches
def _launch(kind):
    def call(*a, **k):
        if W is None:
            raise RuntimeError('process launch outside a simulated run: %r' % (a,))
        return W.launch(kind, a, k)
    return call


class _SimPopen:
    def __init__(self, *a, **k):
        self.args = a[0] if a else k.get('args')
        self.returncode = W.launch('Popen', a, k)
        self.pid = 4242

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, *a, **k):
        return (b'', b'')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _sim_run(*a, **k):
    chk = k.pop('check', False)
    rc = W.launch('run', a, k)
    if chk and rc:
        raise subprocess.CalledProcessError(rc, a[0])
    return subprocess.CompletedProcess(a[0] if a else k.get('args'), rc)


def _sim_check_call(*a, **k):
    rc = W.launch('check_call', a, k)
    if rc:
        raise subprocess.CalledProcessError(rc, a[0])
    return 0


# ----------------------------------------------------------------------------- console
class SimConsole(io.TextIOBase):
    def __init__(self, w):
        self.w = w
        self.buf = []

    errors = 'strict'

    @property
    def encoding(self):
        return self.w.env.get('console_encoding') or 'utf-8'

    def writable(self):
        return True

    def write(self, s):
        w = self.w
        if w.dead:
            return len(s)
        w.console_write(s)
        if w.keep_console:
            self.buf.append((w.tid(), s))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return bool(self.w.env.get('tty'))


# ----------------------------------------------------------------------------- locks and scheduler
class SimLock:
    """threading.Lock/RLock whose waiting is decided by the simulated scheduler"""
    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def _me(self):
        w = W
        t = w.tid() if w is not None else None
        return ('t', t) if t is not None else ('real', _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            w = W
            if w is None or w.sched is None or me[0] != 't':
                raise RuntimeError('simulated deadlock: lock held and nobody else to run')
            if timeout is not None and timeout >= 0:
                return False
            w.sched.block(me[1], self)

    __enter__ = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            w = W
            if w is not None and w.sched is not None:
                w.sched.unblock(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == self._me()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")


def sim_Lock():
    return SimLock(False)


def sim_RLock():
    return SimLock(True)


class Sched:
    """exactly one simulated thread runs at any time; who, is decided here and recorded"""
    def __init__(self, w, n, switches=None, rng=None, p=0.0, pboundary=0.0, first=0):
        self.w = w
        self.n = n
        self.rng = rng
        self.p = p
        self.pb = pboundary
        self.replay = None if switches is None else {s: t for s, t in switches}
        self.trace = []
        self.state = ['ready'] * n
        self.waiting = [None] * n
        self.gate = [alloc_lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.main = alloc_lock()
        self.main.acquire()
        self.abort = False
        self.deadlock = False
        self.first = first
        self.ctx_switches = 0
        self.next = self._gap() if self.replay is None else None

    def _gap(self):
        if self.p <= 0:
            return None
        import math
        u = 1.0 - self.rng.random()
        return self.w.steps + 1 + int(math.log(u) / math.log(1.0 - self.p)) if self.p < 1 else self.w.steps + 1

    def point(self, tid, boundary=False):
        """a scheduling point inside running thread tid"""
        if self.abort:
            raise SimAbort()
        s = self.w.steps
        if self.replay is not None:
            t = self.replay.get(s)
            if t is not None and t != tid and t < self.n and self.state[t] == 'ready':
                self._go(tid, t)
            return
        hit = False
        if self.next is not None and s >= self.next:
            hit = True
            self.next = self._gap()
        elif boundary and self.pb and self.rng.random() < self.pb:
            hit = True
        if hit:
            c = [i for i in range(self.n) if i != tid and self.state[i] == 'ready']
            if c:
                t = self.rng.choice(c)
                self.trace.append([s, t])
                self._go(tid, t)

    def _go(self, tid, t):
        self.ctx_switches += 1
        self.gate[t].release()
        self.gate[tid].acquire()
        if self.abort:
            raise SimAbort()

    def _pick(self, tid):
        for d in range(1, self.n + 1):
            t = (tid + d) % self.n
            if self.state[t] == 'ready':
                return t
        return None

    def block(self, tid, lock):
        self.w.counts['lock waits'] += 1
        self.state[tid] = 'blocked'
        self.waiting[tid] = lock
        t = self._pick(tid)
        if t is None:
            self.deadlock = True
            self.abort = True
            self.state[tid] = 'ready'
            raise SimAbort()
        self._go(tid, t)

    def unblock(self, lock):
        for i in range(self.n):
            if self.state[i] == 'blocked' and self.waiting[i] is lock:
                self.state[i] = 'ready'
                self.waiting[i] = None

    def run(self, funcs):
        w = self.w
        errs = [None] * self.n

        def body(i):
            self.gate[i].acquire()
            w.idents[_thread.get_ident()] = i
            try:
                if not self.abort:
                    funcs[i]()
            except SimAbort:
                pass
            except BaseException as e:      # harness bug or uncaught library exception
                errs[i] = e
            finally:
                sys.settrace(None)
                w.idents.pop(_thread.get_ident(), None)
                self.state[i] = 'done'
                t = self._pick(i)
                if t is None and self.abort:
                    b = [j for j in range(self.n) if self.state[j] == 'blocked']
                    t = b[0] if b else None
                if t is None and any(s == 'blocked' for s in self.state):
                    self.deadlock = True
                    self.abort = True
                    t = self.state.index('blocked')
                if t is not None:
                    self.gate[t].release()
                else:
                    self.main.release()
        for i in range(self.n):
            _thread.start_new_thread(body, (i,))
        me = _thread.get_ident()
        old = w.idents.pop(me, None)
        w.sched = self
        self.gate[self.first].release()
        self.main.acquire()
        w.sched = None
        if old is not None:
            w.idents[me] = old
        return errs


# ----------------------------------------------------------------------------- the world
class World:
    def __init__(self, env, root):
        self.env = env
        self.root = root
        self.now = real_datetime.fromisoformat(env.get('now', '2021-03-02T10:11:12.131415'))
        self.t0 = self.now
        self.tick = _datetime_mod.timedelta(microseconds=env.get('tick_us', 7))
        self.elapsed = _datetime_mod.timedelta(0)
        self.counts = collections.Counter()     # faults fired and events by kind
        self.fired = []
        self.fired_by = collections.Counter()
        self.armed = {}
        self.bytes = collections.Counter()
        self.open_files = set()
        self.fds = {}
        self.dead = False
        self.escapes = []
        self.launches = []
        self.launch_plan = None
        self.fs_ops = 0
        self.steps = 0
        self.op_steps = {}
        self.step_limit = env.get('step_limit', 400000)
        self.max_op_steps = 0
        self.idents = {_thread.get_ident(): 0}
        self.sched = None
        self.opcodes = bool(env.get('opcodes'))
        self.keep_console = False
        self.console = SimConsole(self)
        self.events = hashlib.sha256()
        self.nevents = 0
        self.eventlog = [] if env.get('keep_log') else None
        self.tracing = True
        self.kernel_calls = 0
        self.clock_log = []
        self.clock_by = []

    # -- log
    def log(self, *a):
        self.nevents += 1
        s = repr((self.steps,) + a)
        self.events.update(s.encode('utf-8', 'backslashreplace'))
        if self.eventlog is not None:
            self.eventlog.append(s)

    def digest(self):
        return self.events.hexdigest()[:16]

    # -- identity
    def tid(self):
        return self.idents.get(_thread.get_ident())

    # -- clock
    def read_clock(self):
        self.advance(self.tick)
        self.counts['clock reads'] += 1
        self.clock_log.append(self.now)
        self.clock_by.append(self.tid())
        return self.now

    def advance(self, d):
        self.now += d
        self.elapsed += abs(d)

    def jump(self, seconds):
        d = _datetime_mod.timedelta(seconds=seconds)
        try:
            n = self.now + d
        except OverflowError:
            return
        if not (1900 <= n.year <= 9000):
            return
        self.counts['clock jump back' if seconds < 0 else 'clock jump forward'] += 1
        self.now = n
        self.elapsed += abs(d)

    # -- faults
    def arm(self, tid, faults):
        self.armed[tid] = [dict(f) for f in (faults or [])]
        self.bytes[tid] = 0
        self.op_steps[tid] = 0

    def disarm(self, tid):
        self.armed[tid] = []

    def faults_for(self, tid):
        return self.armed.get(tid, ())

    def fire(self, f, label, once=True, sticky=False):
        self.counts['fault ' + label] += 1
        self.log('fault', label)
        if once:
            self.fired.append(label)
            self.fired_by[self.tid()] += 1
            if not sticky:
                f['_off'] = True

    def op_bytes(self, tid):
        return self.bytes[tid]

    def add_bytes(self, tid, n):
        self.bytes[tid] += n

    def io_point(self):
        """system calls are scheduling points too (the real ones release the interpreter lock)"""
        if self.sched is not None:
            self.steps += 1
            self.sched.point(self.tid())

    def kill(self):
        self.dead = True
        raise SimKill()

    def console_write(self, s):
        t = self.tid()
        self.counts['console writes'] += 1
        self.io_point()
        for f in self.faults_for(t):
            if f['k'] == 'stdout' and not f.get('_off'):
                f['n'] -= 1
                if f['n'] <= 0:
                    self.fire(f, 'console ' + f['exc'], sticky=f.get('sticky'))
                    raise EXC[f['exc']]()
        enc = self.env.get('console_encoding')
        if enc:
            s.encode(enc)

    def kernel_call(self):
        t = self.tid()
        self.kernel_calls += 1
        self.io_point()
        for f in self.faults_for(t):
            if f['k'] == 'kernel' and not f.get('_off'):
                f['n'] -= 1
                if f['n'] <= 0:
                    self.fire(f, 'kernel ' + f['exc'])
                    raise EXC[f['exc']]()

    # -- steps
    def step(self, tid):
        self.steps += 1
        n = self.op_steps.get(tid, 0) + 1
        self.op_steps[tid] = n
        if n > self.step_limit:
            raise StepLimit()
        for f in self.armed.get(tid, ()):
            if f['k'] == 'line' and not f.get('_off'):
                f['n'] -= 1
                if f['n'] <= 0:
                    self.fire(f, 'interrupt ' + f['exc'])
                    raise EXC[f['exc']]()
        if self.sched is not None:
            self.sched.point(tid)

    def boundary(self):
        """scheduling point between operations"""
        if self.sched is not None:
            self.steps += 1
            self.sched.point(self.tid(), True)

    def tracer(self, tid):
        opc = self.opcodes
        pkg = PKG + os.sep
        step = self.step

        def ltr(frame, event, arg):
            if event == 'line' or event == 'opcode':
                step(tid)
            return ltr

        def gtr(frame, event, arg):
            if not frame.f_code.co_filename.startswith(pkg):
                return None
            if opc:
                frame.f_trace_opcodes = True
            return ltr
        return gtr

    def op(self, fn, faults=None):
        """run one library call as one traced, fault-armed operation.
        returns (status, value): ok/exc/killed/limit"""
        tid = self.tid()
        self.boundary()
        self.arm(tid, faults)
        n0 = len(self.fired)
        if self.tracing:
            sys.settrace(self.tracer(tid))
        try:
            try:
                v = fn()
                r = ('ok', v)
            finally:
                sys.settrace(None)
        except SimKill:
            r = ('killed', None)
        except StepLimit:
            r = ('limit', None)
        except SimAbort:
            raise
        except Exception as e:
            e.__traceback__ = None
            r = ('exc', e)
        except KeyboardInterrupt as e:
            e.__traceback__ = None
            r = ('exc', e)
        if self.dead:
            r = ('killed', None)
        self.max_op_steps = max(self.max_op_steps, self.op_steps.get(tid, 0))
        self.disarm(tid)
        return r

    # -- disk
    def inside(self, p):
        return p == self.root or p.startswith(self.root + os.sep)

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                with real_open(p, 'rb') as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out

    def restart(self):
        """after a kill: a new process over the same disk"""
        self.dead = False
        self.drop_handles()
        self.counts['process restarts'] += 1
        os.chdir(self.root)

    def drop_handles(self):
        """what a process end does to its handles: buffered data is gone"""
        for f in list(self.open_files):
            f._zombie = f._done = True
            try:
                self.fds.pop(f.fileno(), None)
                io.FileIO.close(f)
            except Exception:
                pass
        self.open_files.clear()
        for fd in list(self.fds):
            try:
                real_os['close'](fd)
            except OSError:
                pass
        self.fds.clear()

    def leaked(self):
        return sorted({os.path.relpath(f._p, self.root) for f in self.open_files} |
                      {os.path.relpath(p, self.root) for p in self.fds.values()})

    # -- launches
    def launch(self, kind, a, k):
        if self.dead:
            raise SimKill()
        cmd = a[0] if a else k.get('args')
        self.counts['process launches'] += 1
        self.log('launch', kind, str(cmd))
        cwd = os.path.join(os.getcwd(), os.fspath(k.get('cwd') or '.'))
        self.launches.append({'cmd': cmd, 'kind': kind, 'disk': self.snapshot(), 'cwd': os.path.relpath(cwd, self.root), 'root': self.root, 'tid': self.tid(),
                              'open': self.leaked()})
        plan = self.launch_plan or {}
        if plan.get('exc'):
            self.counts['fault launch ' + plan['exc']] += 1
            raise EXC[plan['exc']]()
        rc = plan.get('status', 0)
        if rc:
            self.counts['fault viewer exit status'] += 1
        return rc


_installed = False


def install():
    """put the seams in place (once per worker process)"""
    global _installed
    if _installed:
        return
    _installed = True
    import numpy, scipy.integrate, scipy.special, xml.dom.minidom, xml.etree.ElementTree, xml.parsers.expat  # noqa: real, unsimulated
    import pathlib, copy, itertools, warnings, logging, xml.dom.expatbuilder, tempfile, codecs  # noqa
    import encodings.latin_1, encodings.cp1252, encodings.ascii, encodings.utf_8, encodings.utf_16, encodings.cp932, encodings.koi8_r  # noqa
    warnings.simplefilter('ignore')
    builtins.open = sim_open
    io.open = sim_open
    _datetime_mod.datetime = SimDateTime
    _datetime_mod.date = SimDate
    _time_mod.time = _sim_time
    _time_mod.time_ns = lambda: real_time_ns() if W is None else int(_sim_time() * 1e9)
    _time_mod.localtime = _sim_local
    _time_mod.gmtime = _sim_gm
    _time_mod.strftime = _sim_strftime
    _time_mod.ctime = _sim_ctime
    _time_mod.sleep = _sim_sleep
    os.system = _launch('system')
    os.popen = _launch('popen')
    for n in ('startfile', 'spawnl', 'spawnv', 'spawnvp', 'spawnlp', 'execv', 'execvp', 'execl', 'execlp', 'posix_spawn'):
        if hasattr(os, n):
            setattr(os, n, _launch(n))
    subprocess.Popen = _SimPopen
    subprocess.run = _sim_run
    subprocess.call = _launch('call')
    subprocess.check_call = _sim_check_call
    subprocess.check_output = _launch('check_output')
    for n in ('replace', 'rename', 'remove', 'unlink', 'link', 'fsync'):
        setattr(os, n, _fs_call(n))
    os.open, os.write, os.close = _sim_os_open, _sim_os_write, _sim_os_close
    if 'writev' in real_os:
        os.writev = _sim_os_writev
    if 'pwrite' in real_os:
        os.pwrite = _sim_os_pwrite
    shutil._USE_CP_SENDFILE = False     # copies go through open and write
    shutil._USE_CP_COPY_FILE_RANGE = False
    try:
        import _io
        _io.open = sim_open
    except Exception:
        pass
    threading.Lock = sim_Lock
    threading.RLock = sim_RLock
    functools.RLock = sim_RLock
    enc0 = locale.getpreferredencoding
    locale.getpreferredencoding = lambda do_setlocale=True: enc0(do_setlocale) if W is None else W.env.get('encoding', 'utf-8')
    os.urandom = lambda n: bytes(random.getrandbits(8) for _ in range(n))
    uuid.uuid4 = lambda: uuid.UUID(int=random.getrandbits(128), version=4)
    uuid.uuid1 = uuid.uuid4


def _names():
    n = 0
    while True:
        n += 1
        yield 'n%06d' % n


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        _scratch = os.path.realpath(tempfile.mkdtemp(prefix='dst-', dir=base))
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_runno = 0


class session:
    """one simulated run: `with session(env) as w:`"""
    def __init__(self, env, cwd='run'):
        self.env = env
        self.cwd = cwd

    def __enter__(self):
        global W, _runno
        install()
        self.dir = os.path.join(scratch(), self.cwd)
        if os.path.lexists(self.dir):
            shutil.rmtree(self.dir)
        for d in ('sub', '~', 'out0', 'out1', 'out2', 'out3'):
            os.makedirs(os.path.join(self.dir, d))
        self.old = os.getcwd()
        os.chdir(self.dir)
        W = World(self.env, self.dir)
        os.environ['HOME'] = self.dir       # whatever is written by way of it stays in the scratch directory
        os.environ['DST_V'] = 'w'
        random.seed(self.env.get('rs', 1))
        tempfile._name_sequence = _names()
        try:
            import numpy
            numpy.random.seed(self.env.get('rs', 1) % (2 ** 32))
        except Exception:
            pass
        self.out = sys.stdout
        sys.stdout = W.console
        return W

    def __exit__(self, *a):
        global W
        sys.settrace(None)
        sys.stdout = self.out
        W.drop_handles()
        W = None
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False
