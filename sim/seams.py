"""Seams between CommPy and the simulator.

Everything nondeterministic that CommPy touches goes through this module: the NumPy global random generator, freshly
allocated (uninitialised) memory and allocation failures, file I/O, locks and the choice of which thread runs, and
asynchronous interrupts.  install() must run before commpy is imported; with no simulation active every seam behaves
exactly like what it replaces.  Nothing in /repo is changed.
"""
import builtins
import errno
import io
import os
import random as _pyrandom
import sys
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')

_real_open = io.open
_real_Lock = threading.Lock
_real_RLock = threading.RLock


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimInterrupt(KeyboardInterrupt):
    """Asynchronous interrupt injected by the simulator."""


class SimMemoryError(MemoryError):
    """Failed allocation injected by the simulator."""


class CallbackFault(RuntimeError):
    """Failure raised by a plugged-in component of the simulation."""


class NoProgress(BaseException):
    """A run used up its step budget."""


class Sim:
    """State of the current simulated execution (one per forked child)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.alloc = None          # AllocPolicy
        self.draws = None          # DrawPolicy
        self.disk = None           # Disk
        self.sched = None          # Sched
        self.counts = {}           # fault kind -> times actually fired
        self.steps = 0             # traced source lines of commpy executed
        self.log = []

    def fired(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n


SIM = Sim()
_tls = threading.local()


# ---------------------------------------------------------------------------------------------------- allocator
class AllocPolicy:
    """What np.empty hands out, and which allocation fails."""

    def __init__(self, fill='junk', seed=0, fail_at=None):
        self.fill = fill
        self.seed = seed
        self.fail_at = fail_at
        self.n_empty = 0
        self.n_alloc = 0

    def on_alloc(self):
        self.n_alloc += 1
        if self.fail_at is not None and self.n_alloc == self.fail_at:
            SIM.fired('alloc-failure')
            raise SimMemoryError('simulated allocation failure')

    def poison(self, np, arr):
        self.n_empty += 1
        if arr.size == 0 or arr.dtype.kind not in 'iufcb':
            return arr
        SIM.fired('poisoned-allocation')
        if self.fill == 'zero':
            arr.view()[...] = 0
            return arr
        r = _pyrandom.Random(self.seed * 1000003 + self.n_empty)
        k = arr.dtype.kind
        if k == 'f':
            pick = [float('nan'), 1e300, -7.25e11, 3.5, float('inf'), -1.0][r.randrange(6)]
        elif k == 'c':
            pick = [complex('nan'), 1e300 + 1j, -7.25e11 + 2j, 3.5 - 1j][r.randrange(4)]
        elif k == 'b':
            pick = bool(r.randrange(2))
        else:
            info = np.iinfo(arr.dtype)
            pick = [info.max, info.min, 1, 77, 2 % (info.max + 1)][r.randrange(5)]
        arr[...] = pick
        if arr.size > 1 and k in 'iu':
            arr.reshape(-1)[r.randrange(arr.size)] = 1
        return arr


def _from_commpy(depth=2):
    return sys._getframe(depth).f_globals.get('__name__', '').startswith('commpy')


def _install_alloc(np):
    def wrap_empty(orig):
        def empty(*a, **k):
            pol = SIM.alloc
            if pol is None or not _from_commpy():
                return orig(*a, **k)
            pol.on_alloc()
            return pol.poison(np, orig(*a, **k))
        empty.__wrapped__ = orig
        return empty

    def wrap_alloc(orig):
        def alloc(*a, **k):
            pol = SIM.alloc
            if pol is not None and pol.fail_at is not None and _from_commpy():
                pol.on_alloc()
            return orig(*a, **k)
        alloc.__wrapped__ = orig
        return alloc

    for name in ('empty', 'empty_like'):
        setattr(np, name, wrap_empty(getattr(np, name)))
    for name in ('zeros', 'ones', 'full', 'zeros_like', 'ones_like', 'full_like', 'tile', 'repeat'):
        setattr(np, name, wrap_alloc(getattr(np, name)))


# ---------------------------------------------------------------------------------------------------- randomness
class DrawPolicy:
    """Biases some uniform/normal draws towards rare but legal values."""

    def __init__(self, seed=0, edge_rate=0.0, normal_edge_rate=0.0):
        self.r = _pyrandom.Random(seed)
        self.edge_rate = edge_rate
        self.normal_edge_rate = normal_edge_rate

    def uniform(self, np, out):
        if not self.edge_rate:
            return out
        arr = np.array(out, dtype=float, ndmin=1)
        flat = arr.reshape(-1)
        for i in range(flat.size):
            if self.r.random() < self.edge_rate:
                SIM.fired('edge-uniform-draw')
                flat[i] = (0.0, 1.0 - 2.0 ** -53)[self.r.randrange(2)]
        return arr if getattr(out, 'shape', ()) else float(flat[0])

    def normal(self, np, out):
        if not self.normal_edge_rate:
            return out
        arr = np.array(out, dtype=float, ndmin=1)
        flat = arr.reshape(-1)
        for i in range(flat.size):
            if self.r.random() < self.normal_edge_rate:
                SIM.fired('edge-normal-draw')
                flat[i] = (0.0, 6.5, -6.5, 1e-12)[self.r.randrange(4)]
        return arr if getattr(out, 'shape', ()) else float(flat[0])


def stream(np):
    """The random stream of the current simulated thread (the NumPy global one by default)."""
    return getattr(_tls, 'stream', None) or np.random.mtrand._rand


def set_thread_stream(s):
    _tls.stream = s


def _install_random(np):
    rnd = np.random
    glob = rnd.mtrand._rand
    uniform_names = {'random', 'random_sample', 'rand', 'ranf', 'sample'}
    normal_names = {'standard_normal', 'randn'}

    def make(name, target):
        def draw(*a, **k):
            out = getattr(stream(np), target)(*a, **k)
            pol = SIM.draws
            if pol is not None:
                if name in uniform_names:
                    return pol.uniform(np, out)
                if name in normal_names:
                    return pol.normal(np, out)
            return out
        draw.__name__ = name
        return draw

    for name in list(rnd.__all__):
        obj = getattr(rnd, name, None)
        if obj is None or isinstance(obj, type) or not callable(obj):
            continue
        target = {'ranf': 'random_sample', 'sample': 'random_sample'}.get(name, name)
        if hasattr(glob, target):
            setattr(rnd, name, make(name, target))
    # An unseeded new-style generator would escape the seed: tie it to the global stream.
    orig_default_rng = rnd.default_rng

    def default_rng(seed=None):
        if seed is None and SIM.active:
            seed = int(stream(np).randint(0, 2 ** 31 - 1))
        return orig_default_rng(seed)
    rnd.default_rng = default_rng


# ---------------------------------------------------------------------------------------------------- files
class Disk:
    """Files under `root` are opened through raw handles whose operations the simulator decides.

    plan: dict raw-operation index -> ('short', n) | ('enospc',) | ('eio',) | ('crash', n)
    A crash lets the first n bytes of that write reach the file and kills the process: nothing written by handles of
    that life reaches the file any more.  Page cache survives (process crash, not power loss).
    """

    def __init__(self, root, bufsize=None):
        self.root = os.path.realpath(root)
        self.bufsize = bufsize
        self.life = 0
        self.plan = {}
        self.ops = 0
        self.trace = []
        self.dead = False
        self.fds = {}              # descriptors opened below root through os.open -> life

    def owns(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    def restart(self):
        self.life += 1
        self.dead = False
        self.plan = {}
        self.ops = 0

    def next_op(self, what):
        if self.dead:
            raise SimCrash('dead process did I/O')
        if SIM.sched is not None:
            SIM.sched.io_point(what)
        self.ops += 1
        self.trace.append(what)
        return self.plan.get(self.ops)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        raw_mode = mode.replace('t', '').replace('b', '')
        if not isinstance(file, int):
            self.next_op('open')
        raw = FaultyRaw(self, file, raw_mode, closefd)
        binary = 'b' in mode
        if binary and buffering == 0:
            return raw
        size = self.bufsize or io.DEFAULT_BUFFER_SIZE
        try:
            if '+' in raw_mode:
                buf = io.BufferedRandom(raw, size)
            elif raw_mode[0] == 'r':
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
            text.mode = mode
            if self.bufsize:
                text._CHUNK_SIZE = max(1, self.bufsize)
            return text
        except BaseException:
            raw.close()
            raise


class FaultyRaw(io.FileIO):
    def __init__(self, disk, path, mode, closefd=True):
        io.FileIO.__init__(self, path, mode, closefd)
        self.disk = disk
        self.life = disk.life

    def write(self, b):
        d = self.disk
        b = bytes(b)
        if self.life != d.life or d.dead:
            return len(b)           # the process is gone: nothing of this reaches the file
        act = d.next_op('write')
        if act is None:
            return io.FileIO.write(self, b)
        kind = act[0]
        if kind == 'short':
            n = max(1, min(len(b), act[1]))
            if n < len(b):
                SIM.fired('short-write')
            return io.FileIO.write(self, b[:n])
        if kind == 'enospc':
            SIM.fired('disk-full')
            d.plan = {k: act for k in range(d.ops, d.ops + 10000)}     # stays full
            raise OSError(errno.ENOSPC, 'simulated disk full')
        if kind == 'eio':
            SIM.fired('write-error')
            raise OSError(errno.EIO, 'simulated I/O error')
        if kind == 'crash':
            SIM.fired('crash-in-write')
            n = min(len(b), act[1])
            if n:
                io.FileIO.write(self, b[:n])
            d.dead = True
            raise SimCrash('crash during write')
        raise AssertionError(act)

    def readinto(self, buf):
        d = self.disk
        if self.life != d.life or d.dead:
            return 0
        act = d.next_op('read')
        if act is not None:
            if act[0] == 'eio':
                SIM.fired('read-error')
                raise OSError(errno.EIO, 'simulated I/O error')
            if act[0] == 'crash':
                SIM.fired('crash-in-read')
                d.dead = True
                raise SimCrash('crash during read')
            if act[0] == 'short' and len(buf) > act[1] > 0:
                SIM.fired('short-read')
                return io.FileIO.readinto(self, memoryview(buf)[:act[1]])
        return io.FileIO.readinto(self, buf)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = b''
        while True:
            chunk = self.read(8192)
            if not chunk:
                return out
            out += chunk


def _sim_open(file, *a, **k):
    d = SIM.disk
    if d is not None and d.owns(file):
        return d.open(file, *a, **k)
    return _real_open(file, *a, **k)


def _install_os():
    """os-level file functions on paths and descriptors owned by the simulated disk."""
    real = {n: getattr(os, n) for n in ('open', 'close', 'write', 'read', 'rename', 'replace', 'link', 'unlink', 'remove', 'truncate', 'ftruncate')}

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        d = SIM.disk
        if d is None or dir_fd is not None or not d.owns(path):
            return real['open'](path, flags, mode, dir_fd=dir_fd)
        d.next_op('open')
        fd = real['open'](path, flags, mode)
        d.fds[fd] = d.life
        return fd

    def os_close(fd):
        d = SIM.disk
        if d is not None:
            d.fds.pop(fd, None)
        return real['close'](fd)

    def os_write(fd, data):
        d = SIM.disk
        if d is None or fd not in d.fds:
            return real['write'](fd, data)
        raw = FaultyRaw(d, fd, 'w', closefd=False)
        raw.life = d.fds[fd]
        return raw.write(data)

    def os_read(fd, n):
        d = SIM.disk
        if d is None or fd not in d.fds:
            return real['read'](fd, n)
        raw = FaultyRaw(d, fd, 'r', closefd=False)
        raw.life = d.fds[fd]
        return raw.read(n)

    def path_op(name):
        def f(path, *a, **k):
            d = SIM.disk
            if d is None or not d.owns(path):
                return real[name](path, *a, **k)
            act = d.next_op(name)
            if act is not None and act[0] == 'eio':
                SIM.fired('%s-error' % name)
                raise OSError(errno.EIO, 'simulated I/O error')
            if act is not None and act[0] == 'crash':
                SIM.fired('crash-in-%s' % name)
                if act[1]:
                    real[name](path, *a, **k)
                d.dead = True
                raise SimCrash('crash during %s' % name)
            return real[name](path, *a, **k)
        return f
    os.open, os.close, os.write, os.read = os_open, os_close, os_write, os_read
    for n in ('rename', 'replace', 'link', 'unlink', 'remove', 'truncate', 'ftruncate'):
        setattr(os, n, path_op(n))


# ---------------------------------------------------------------------------------------------------- threads
class SimLock:
    """Replacement for threading.Lock/RLock in code imported after install(): cooperative under the scheduler."""

    def __init__(self, reentrant=False):
        self._real = _real_RLock() if reentrant else _real_Lock()
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = SIM.sched
        me = s.current_id() if s is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout) if timeout != -1 else self._real.acquire(blocking)
        while True:
            if self.owner is None:
                self.owner = me
                self.depth = 1
                return True
            if self.reentrant and self.owner == me:
                self.depth += 1
                return True
            if not blocking:
                return False
            s.block(me, self)

    def release(self):
        s = SIM.sched
        me = s.current_id() if s is not None else None
        if me is None:
            return self._real.release()
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class Deadlock(Exception):
    pass


class Sched:
    """Runs n caller threads one at a time.  The plan - a list of [gap, pick] - decides every preemption: after `gap`
    further steps (traced source lines of commpy, or raw I/O operations) the baton goes to runnable[pick % len]."""

    def __init__(self, bodies, plan, streams=None, budget=2000000, aborts=None, novel=()):
        self.bodies = bodies
        self.novel = [tuple(p) for p in novel]   # like plan, but counted in lines the thread executes for the first time
        self.ni = 0
        self.nleft = self.novel[0][0] if self.novel else None
        self.seen = [set() for _ in bodies]
        self.aborts = aborts or {}          # thread -> [own step, exception] of an asynchronous abort
        self.own_steps = {}
        self.n = len(bodies)
        self.plan = [tuple(p) for p in plan]
        self.pi = 0
        self.left = self.plan[0][0] if self.plan else None
        self.sem = [threading.Semaphore(0) for _ in range(self.n)]
        self.all_done = threading.Semaphore(0)
        self.alive = list(range(self.n))
        self.blocked = {}
        self.ids = {}
        self.steps = 0
        self.switches = []
        self.results = [None] * self.n
        self.streams = streams
        self.budget = budget
        self.failure = None

    def current_id(self):
        return self.ids.get(threading.get_ident())

    def runnable(self):
        return [t for t in self.alive if t not in self.blocked]

    def _switch(self, me, to, where):
        self.switches.append((me, to, where))
        self.sem[to].release()
        self.sem[me].acquire()

    def point(self, me, where):
        self.steps += 1
        SIM.steps += 1
        if self.steps > self.budget:
            raise NoProgress('step budget exhausted')
        new = where not in self.seen[me]
        if new:
            self.seen[me].add(where)
        if me in self.aborts:
            by_novelty = len(self.aborts[me]) > 2 and self.aborts[me][2]
            if new or not by_novelty:
                n = self.own_steps[me] = self.own_steps.get(me, 0) + 1
                if n == self.aborts[me][0]:
                    SIM.fired('interrupt')
                    raise self.aborts[me][1]
        pick = None
        if new and self.nleft is not None:
            self.nleft -= 1
            if self.nleft <= 0:
                pick = self.novel[self.ni][1]
                self.ni += 1
                self.nleft = self.novel[self.ni][0] if self.ni < len(self.novel) else None
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                pick = self.plan[self.pi][1]
                self.pi += 1
                self.left = self.plan[self.pi][0] if self.pi < len(self.plan) else None
        if pick is None:
            return
        run = [t for t in self.runnable() if t != me]
        if run:
            SIM.fired('preemption')
            self._switch(me, run[pick % len(run)], where)

    def io_point(self, what):
        me = self.current_id()
        if me is not None:
            self.point(me, 'io-' + what)

    def block(self, me, lock):
        self.blocked[me] = lock
        run = self.runnable()
        if not run:
            del self.blocked[me]
            raise Deadlock('every thread waits for a lock')
        SIM.fired('lock-wait')
        self._switch(me, run[0], 'lock')

    def unblock(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    def _body(self, i):
        self.ids[threading.get_ident()] = i
        if self.streams is not None:
            set_thread_stream(self.streams[i])
        self.sem[i].acquire()
        root = os.path.join(REPO, 'commpy') + os.sep

        def local(frame, event, arg):
            if event == 'line':
                self.point(i, (frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None
        try:
            sys.settrace(tracer)
            try:
                self.results[i] = ('ok', self.bodies[i]())
            finally:
                sys.settrace(None)
        except BaseException as e:       # noqa: handed to the harness
            self.results[i] = ('exc', e)
        self.alive.remove(i)
        self.unblock_finished(i)
        run = self.runnable()
        if run:
            self.sem[run[0]].release()
        elif self.alive:
            # only blocked threads are left: release one so that it reports the deadlock
            t = self.alive[0]
            self.blocked.pop(t, None)
            self.sem[t].release()
        else:
            self.all_done.release()

    def unblock_finished(self, i):
        pass

    def run(self):
        SIM.sched = self
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        self.sem[0].release()
        self.all_done.acquire()
        for t in threads:
            t.join()
        SIM.sched = None
        return self.results


# ---------------------------------------------------------------------------------------------------- tracing
class Tracer:
    """Counts source lines of commpy executed in this thread; raises `exc` at line number `at`; enforces a budget."""

    def __init__(self, at=None, exc=None, budget=None, record=None):
        self.record = record
        self.at = at
        self.exc = exc
        self.budget = budget
        self.n = 0
        self.where = None
        self.root = os.path.join(REPO, 'commpy') + os.sep
        self.hit = False

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            SIM.steps += 1
            if self.record is not None:
                self.record.append((frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
            if self.at is not None and self.n == self.at:
                self.where = (frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
                self.hit = True
                raise self.exc
            if self.budget is not None and self.n > self.budget:
                raise NoProgress('step budget exhausted in %s' % frame.f_code.co_name)
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(self.root) else None

    def __enter__(self):
        self.outer = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.outer)


_installed = False


def install():
    """Put the seams in place, then import commpy from REPO's working tree."""
    global _installed
    if _installed:
        return
    _installed = True
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    import scipy.linalg, scipy.sparse, scipy.sparse.linalg  # noqa: real locks for the dependencies
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot, matplotlib.collections  # noqa
    import sympy.combinatorics.graycode  # noqa
    _install_alloc(np)
    _install_random(np)
    builtins.open = _sim_open
    io.open = _sim_open
    _install_os()
    threading.Lock = lambda: SimLock(False) if _from_commpy() else _real_Lock()
    threading.RLock = lambda: SimLock(True) if _from_commpy() else _real_RLock()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import commpy, commpy.channelcoding, commpy.links, commpy.wifi80211, commpy.utilities  # noqa
    root = os.path.realpath(os.path.join(REPO, 'commpy'))
    assert os.path.realpath(commpy.__file__).startswith(root), commpy.__file__
    np.seterr(all='ignore')
