"""
Everything nondeterministic that bathygrid touches, behind seams owned by the simulator.

Must be imported (and `install()` called) before bathygrid is imported.  All decisions come from the
random.Random streams of the current Sim, which are seeded from the trace being executed.
"""
import builtins
import errno
import io
import os
import random
import re
import shutil
import sys
import threading
import time
import uuid
import datetime as _dtmod
import pickle

# real functions, for the simulator's own use -------------------------------------------------------
REAL = {
    'open': builtins.open, 'mkdir': os.mkdir, 'rename': os.rename, 'replace': os.replace,
    'remove': os.remove, 'unlink': os.unlink, 'rmdir': os.rmdir, 'listdir': os.listdir,
    'scandir': os.scandir, 'os_open': os.open, 'link': os.link, 'symlink': os.symlink,
    'truncate': os.truncate, 'time': time.time, 'sleep': time.sleep, 'monotonic': time.monotonic,
    'perf_counter': time.perf_counter, 'datetime': _dtmod.datetime, 'fsync': os.fsync,
    'uuid4': uuid.uuid4, 'uuid1': uuid.uuid1,
}


class SimCrash(BaseException):
    """The simulated process has died."""


class SimStuck(BaseException):
    """No end in sight: too many steps, or too much simulated waiting."""


class WorkerLost(BaseException):
    """The simulated dask worker running this task has died."""


class HarnessError(Exception):
    """The simulator itself is broken."""


ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EPERM': errno.EPERM,
          'EROFS': errno.EROFS, 'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT, 'EBUSY': errno.EBUSY}

READ_KINDS = ('open_r', 'list')
WRITE_KINDS = ('create', 'write', 'close', 'mkdir', 'rename', 'truncate', 'fsync')
DELETE_KINDS = ('unlink', 'rmdir')
ALL_KINDS = READ_KINDS + WRITE_KINDS + DELETE_KINDS
MAX_STEPS = 200000
MAX_SLEPT = 3600.0


class Sim:
    """One simulated execution: clock, storage faults, cluster schedule, event log."""

    def __init__(self, sched_seed, root, knobs=None):
        self.root = os.path.abspath(root)
        self.rng = random.Random('sched-%s' % (sched_seed,))
        self.list_rng = random.Random('list-%s' % (sched_seed,))
        self.uuid_rng = random.Random('uuid-%s' % (sched_seed,))
        self.lat_rng = random.Random('lat-%s' % (sched_seed,))
        self.graph_rng = random.Random('graph-%s' % (sched_seed,))
        self.knobs = dict(knobs or {})
        os.environ['TZ'] = self.knobs.get('tz', 'UTC')
        time.tzset()
        # clock
        self.now = 1600000000.0 + (self.lat_rng.random() * 1e7)
        self.start = self.now
        self.mono = 1000.0
        self.slept = 0.0
        self.sleeps = 0
        self.clock_mode = self.knobs.get('clock', 'run')    # run | stall | jump
        self.clock_reads = None
        self.actors = None           # list: whose code took each step
        # storage
        self.steps = 0
        self.crashed = False
        self.fault = None            # active fault plan: object with .at_step(sim, kind, path) -> action
        self.log = []                # event log (strings)
        self.loghash = 0
        self.fired = {}              # fault kind -> count
        self.kind_counts = {}
        self.active = True
        self.interleavings = []      # cluster: sequence of (task) switches
        self.switches = 0
        self.cluster = None
        self.probes = {}

    # -- log --------------------------------------------------------------------------------------
    def event(self, s):
        self.loghash = hash_str(self.loghash, s)
        if len(self.log) < 20000:
            self.log.append(s)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- clock ------------------------------------------------------------------------------------
    def advance(self, dt):
        self.mono += dt
        if self.clock_mode == 'stall':
            return
        self.now += dt
        if self.clock_mode == 'jump' and self.lat_rng.random() < 0.02:
            j = self.lat_rng.choice([-3600.0, -5.0, -1.0, 1.0, 60.0, 86400.0])
            self.now += j
            self.fired['clock_jump'] = self.fired.get('clock_jump', 0) + 1

    def sleep(self, dt):
        self.slept += dt
        self.sleeps += 1
        self.event('sleep %.3f' % dt)
        self.mono += dt
        if self.clock_mode != 'stall':
            self.now += dt
        if self.slept > MAX_SLEPT:
            raise SimStuck('still waiting after %d simulated seconds' % MAX_SLEPT)
        self.yield_point()

    # -- storage ----------------------------------------------------------------------------------
    def rel(self, path):
        p = os.path.abspath(path)
        if p == self.root:
            return '.'
        return p[len(self.root) + 1:]

    def owns(self, path):
        if not self.active or isinstance(path, int):
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def step(self, kind, path, data=None):
        """
        One storage step.  Returns None to go ahead, or the number of bytes to write before failing;
        raises for injected errors and crashes.
        """
        self.yield_point()
        if self.crashed:
            raise SimCrash()
        lost = getattr(_tls, 'lost', False)
        if lost:
            raise WorkerLost()
        rel = self.rel(path)
        n = self.steps
        self.steps += 1
        if n > MAX_STEPS:
            raise SimStuck('no end after %d storage steps' % MAX_STEPS)
        self.kind_counts[kind] = self.kind_counts.get(kind, 0) + 1
        self.advance(self.lat_rng.random() * 0.002)
        self.event('%s %s' % (kind, rel))
        if self.actors is not None:
            self.actors.append(actor())
        if self.fault is not None:
            return self.fault.at_step(self, n, kind, rel, data)
        return None

    def do_crash(self, label='crash'):
        self.crashed = True
        self.fire(label)
        self.event(label)
        raise SimCrash()

    def revive(self):
        self.crashed = False
        self.fault = None

    # -- cluster ----------------------------------------------------------------------------------
    def yield_point(self):
        c = self.cluster
        if c is not None and getattr(_tls, 'task', None) is not None:
            c.yield_from_task()


def actor():
    """The package whose code does this storage step: the nearest caller that is neither ours nor the standard library."""
    f = sys._getframe(1)
    while f is not None:
        n = f.f_code.co_filename
        if 'site-packages' in n:
            return n.split('site-packages')[-1].strip(os.sep).split(os.sep)[0]
        if f.f_globals.get('__name__', '').split('.')[0] == 'bathygrid':
            return 'bathygrid'
        f = f.f_back
    return ''


def hash_str(h, s):
    import zlib
    return zlib.crc32(s.encode('utf-8', 'replace'), h)


_tls = threading.local()
CUR = None      # the current Sim


def set_current(sim):
    global CUR
    CUR = sim


def _own(path):
    s = CUR
    return s is not None and s.owns(path)


# -- patched storage functions ------------------------------------------------------------------------

def _err(name, path):
    e = ERRNOS[name]
    return OSError(e, os.strerror(e), path)       # OSError() picks the PermissionError etc subclass


class SimFile:
    """
    Write-mode file: content is buffered and reaches the (real tmpfs) file in one or more write steps,
    each of which may be torn or fail.
    """
    LIMIT = 1 << 16

    def __init__(self, path, mode, encoding=None, newline=None, buffering=-1):
        self._path = path
        self.name = path
        self.mode = mode
        self._text = 'b' not in mode
        self._enc = encoding or 'utf-8'
        CUR.step('create', path)
        self._f = REAL['open'](path, mode.replace('t', '').replace('b', '') + 'b', buffering=0)
        self._buf = bytearray()
        self.closed = False

    def write(self, data):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        n = len(data) if not isinstance(data, memoryview) else data.nbytes
        if self._text:
            if not isinstance(data, str):
                raise TypeError('write() argument must be str')
            b = data.encode(self._enc)
        else:
            if isinstance(data, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            b = bytes(data)
        self._buf += b
        while len(self._buf) >= self.LIMIT:
            self._flush(self.LIMIT)
        return n

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def _flush(self, n=None):
        if n is None:
            n = len(self._buf)
        if n == 0:
            return
        chunk = bytes(self._buf[:n])
        try:
            CUR.step('write', self._path, _Torn(self._f, chunk))
        except BaseException:
            self._buf.clear()    # what the process had buffered is gone
            raise
        self._f.write(chunk)
        del self._buf[:n]

    def flush(self):
        self._flush()

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self._flush()
            CUR.step('close', self._path)
        finally:
            self._f.close()

    def fileno(self):
        self._flush()
        return self._f.fileno()

    def tell(self):
        self._flush()
        return self._f.tell()

    def seek(self, *a):
        self._flush()
        return self._f.seek(*a)

    def truncate(self, *a):
        self._flush()
        return self._f.truncate(*a)

    def read(self, *a):
        self._flush()
        d = self._f.read(*a)
        return d.decode(self._enc) if self._text else d

    def readable(self):
        return '+' in self.mode

    def writable(self):
        return True

    def seekable(self):
        return True

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        self._flush()
        return iter(self._f)

    def __del__(self):
        try:
            self._f.close()
        except Exception:
            pass


class _Torn:
    """Lets a fault plan write a prefix of the chunk before failing or crashing."""
    def __init__(self, f, chunk):
        self.f = f
        self.size = len(chunk)
        self.chunk = chunk

    def partial(self, n):
        n = max(0, min(n, self.size))
        if n:
            self.f.write(self.chunk[:n])


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _own(file):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.abspath(os.fspath(file))
    if any(c in mode for c in 'wax+'):
        return SimFile(path, mode, encoding, newline)
    if os.path.exists(path):
        CUR.step('open_r', path)
    return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)


def _wrap1(name, kind):
    real = REAL[name]

    def f(path, *a, **k):
        if _own(path):
            CUR.step(kind, path)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _wrap_rename(name):
    real = REAL[name]

    def f(src, dst, *a, **k):
        if _own(src) or _own(dst):
            CUR.step('rename', dst if _own(dst) else src)
        return real(src, dst, *a, **k)
    f.__name__ = name
    return f


def sim_listdir(path='.'):
    if not _own(path):
        return REAL['listdir'](path)
    if os.path.isdir(path):
        CUR.step('list', path)
    r = sorted(REAL['listdir'](path))
    CUR.list_rng.shuffle(r)
    return r


class _ScanIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path='.'):
    if not _own(path):
        return REAL['scandir'](path)
    CUR.step('list', path)
    with REAL['scandir'](path) as it:
        r = sorted(it, key=lambda e: e.name)
    CUR.list_rng.shuffle(r)
    return _ScanIter(r)


def sim_os_open(path, flags, *a, **k):
    if _own(path):
        CUR.step('create' if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else 'open_r', path)
    return REAL['os_open'](path, flags, *a, **k)


def sim_uuid4():
    s = CUR
    if s is None or not s.active:
        return REAL['uuid4']()
    return uuid.UUID(int=s.uuid_rng.getrandbits(128), version=4)


def sim_uuid1(*a, **k):
    s = CUR
    if s is None or not s.active:
        return REAL['uuid1'](*a, **k)
    return uuid.UUID(int=s.uuid_rng.getrandbits(128), version=1)


# -- clock ----------------------------------------------------------------------------------------------

def _clock():
    s = CUR
    if s is None or not s.active:
        return REAL['time']()
    if s.clock_reads is not None:
        s.clock_reads.append(s.now)
    return s.now


def sim_time():
    return _clock()


def sim_monotonic():
    s = CUR
    return s.mono if s is not None and s.active else REAL['monotonic']()


def sim_sleep(dt):
    s = CUR
    if s is not None and s.active:
        s.sleep(dt)
        if s.crashed:
            raise SimCrash()
        if getattr(_tls, 'lost', False):
            raise WorkerLost()
    else:
        REAL['sleep'](dt)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL['datetime'])

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL['datetime'])


class SimDatetime(REAL['datetime'], metaclass=_DTMeta):
    @classmethod
    def utcnow(cls):
        t = _clock()
        d = REAL['datetime'].fromtimestamp(t, _dtmod.timezone.utc).replace(tzinfo=None)
        return d

    @classmethod
    def now(cls, tz=None):
        t = _clock()
        if tz is None:
            return REAL['datetime'].fromtimestamp(t)        # in the time zone of this case
        return REAL['datetime'].fromtimestamp(t, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcfromtimestamp(cls, t):
        return REAL['datetime'].fromtimestamp(t, _dtmod.timezone.utc).replace(tzinfo=None)


# -- dask graph execution ---------------------------------------------------------------------------------

_token_order = {}
_token = re.compile('[0-9a-f]{32}')


def _note_tokens(tokenize):
    def noted(*args, **kwargs):
        t = tokenize(*args, **kwargs)
        _token_order.setdefault(t, len(_token_order))
        return t
    return noted


def graph_order(key):
    """Keys of a graph are ordered by when their tokens were made, not by the tokens, which depend on the path of the scratch folder."""
    return _token.sub(lambda m: '%08d' % _token_order[m.group()] if m.group() in _token_order else m.group(), str(key))


def sim_get(dsk, keys, **kwargs):
    """Single threaded dask scheduler, seeded random topological order."""
    from dask._task_spec import convert_legacy_graph, DataNode
    if hasattr(dsk, '__dask_graph__'):
        dsk = dsk.__dask_graph__()
    if hasattr(dsk, 'to_dict') and not isinstance(dsk, dict):
        dsk = dsk.to_dict()
    dsk = convert_legacy_graph(dict(dsk))
    deps = {k: set(d for d in v.dependencies if d in dsk) for k, v in dsk.items()}
    users = {k: [] for k in dsk}
    for k, ds in deps.items():
        for d in ds:
            users[d].append(k)
    # cull to what is needed
    need = set()
    stack = [k for k in _flatten(keys)]
    while stack:
        k = stack.pop()
        if k in need:
            continue
        need.add(k)
        stack.extend(deps[k])
    ready = sorted([k for k in need if not deps[k]], key=graph_order)
    waiting = {k: len(deps[k]) for k in need}
    vals = {}
    rng = CUR.graph_rng if CUR is not None and not kwargs.get('fixed') else None
    while ready:
        i = rng.randrange(len(ready)) if len(ready) > 1 and rng is not None else 0
        k = ready[i]
        ready[i] = ready[-1]
        ready.pop()
        vals[k] = dsk[k](vals)
        for u in sorted((u for u in users[k] if u in need), key=graph_order):
            waiting[u] -= 1
            if waiting[u] == 0:
                ready.append(u)

    def fill(kk):
        if isinstance(kk, list):
            return tuple(fill(x) for x in kk)
        return vals[kk]
    if isinstance(keys, list):
        return [fill(x) for x in keys]
    return vals[keys]


def _flatten(keys):
    if isinstance(keys, list):
        for k in keys:
            yield from _flatten(k)
    else:
        yield keys


# -- simulated dask.distributed cluster ---------------------------------------------------------------------

class SimFuture:
    _n = 0

    def __init__(self, client, fn=None, blob=None, value=None, done=False):
        SimFuture._n += 1
        self.client = client
        self.key = 'fut-%d' % SimFuture._n
        self.fn = fn
        self.blob = blob
        self.value = value
        self.exc = None
        self._done = done
        self.attempts = 0

    @property
    def status(self):
        return 'pending' if not self._done else ('error' if self.exc is not None else 'finished')

    def done(self):
        return self._done

    def result(self, timeout=None):
        self.client._run_pending()
        if self.exc is not None:
            raise self.exc
        return pickle.loads(self.value) if isinstance(self.value, bytes) else self.value

    def exception(self, timeout=None):
        self.client._run_pending()
        return self.exc

    def cancel(self, *a, **k):
        pass

    def release(self, *a, **k):
        pass

    def __reduce__(self):
        return (_load_fut, (self.value if isinstance(self.value, bytes) else None,))


def _load_fut(b):
    return pickle.loads(b) if b is not None else None


class SimClient:
    """
    Stand-in for distributed.Client.  Task arguments and results cross a pickle boundary; the order in
    which tasks start, how they interleave at storage steps, worker loss and duplicate execution are
    drawn from the simulation's stream.
    """
    def __init__(self, *a, **k):
        self.pending = []
        self.closed = False
        self._tasks = 0
        self.hold = False
        if CUR is not None:
            CUR.probe('clients')

    # a client may outlive a simulation run on copies of a grid: always belongs to the current one
    @property
    def sim(self):
        return CUR

    def _knob(self, k, default):
        return CUR.knobs.get(k, default) if CUR is not None else default

    nworkers = property(lambda self: self._knob('workers', 3))
    p_switch = property(lambda self: self._knob('p_switch', 0.3))
    p_lost = property(lambda self: self._knob('p_lost', 0.0))
    p_dup = property(lambda self: self._knob('p_dup', 0.0))
    p_fail = property(lambda self: self._knob('p_fail', 0.0))
    defer = property(lambda self: 2.0 if self.hold else self._knob('defer', 0.5))

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def __repr__(self):
        return '<SimClient workers=%d>' % self.nworkers

    def __bool__(self):
        return True

    # api used by bathygrid, and its likely alternatives
    def ncores(self, *a, **k):
        return {'tcp://127.0.0.1:%d' % (40000 + i): 1 for i in range(self.nworkers)}

    nthreads = ncores

    def scheduler_info(self, *a, **k):
        return {'workers': {w: {'nthreads': 1} for w in self.ncores()}}

    def scatter(self, data, *a, **k):
        def one(d):
            f = SimFuture(self, value=_dumps(d), done=True)
            return f
        if isinstance(data, dict):
            return {kk: one(v) for kk, v in data.items()}
        if isinstance(data, (list, tuple, set)):
            return type(data)(one(d) for d in data)
        return one(data)

    def submit(self, fn, *args, **kwargs):
        for kk in ('key', 'workers', 'resources', 'retries', 'priority', 'fifo_timeout', 'allow_other_workers',
                   'actor', 'actors', 'pure'):
            kwargs.pop(kk, None)
        args = [self._resolve(a) for a in args]
        kwargs = {kk: self._resolve(v) for kk, v in kwargs.items()}
        f = SimFuture(self, fn=fn, blob=_dumps((fn, args, kwargs)))
        self._tasks += 1
        f.tid = self._tasks
        self.pending.append(f)
        if self.sim.rng.random() > self.defer:
            self._run_pending()
        return f

    def map(self, fn, *iterables, **kwargs):
        for kk in ('key', 'workers', 'retries', 'resources', 'priority', 'allow_other_workers', 'fifo_timeout',
                   'actor', 'actors', 'pure', 'batch_size'):
            kwargs.pop(kk, None)
        self.hold = True
        try:
            out = [self.submit(fn, *args, **kwargs) for args in zip(*iterables)]
        finally:
            self.hold = False
        if self.sim.rng.random() > self.defer:
            self._run_pending()
        return out

    def gather(self, futs, errors='raise', **k):
        self._run_pending()

        def g(x):
            if isinstance(x, SimFuture):
                if errors == 'skip' and x.exc is not None:
                    return None
                return x.result()
            if isinstance(x, (list, tuple, set)):  # the real one drops failed futures when they are skipped
                return type(x)(g(i) for i in x if not (errors == 'skip' and isinstance(i, SimFuture) and i.exc is not None))
            if isinstance(x, dict):
                return {kk: g(v) for kk, v in x.items()}
            return x
        return g(futs)

    def compute(self, coll, *a, **k):
        return coll

    def _resolve(self, a):
        if isinstance(a, SimFuture):
            if not a._done:
                self._run_pending()
            return a.result()
        if isinstance(a, list):
            return [self._resolve(x) for x in a]
        return a

    def cancel(self, *a, **k):
        pass

    def close(self, *a, **k):
        self.closed = True

    shutdown = close
    restart = close

    def wait_for_workers(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # execution
    def _run_pending(self):
        if not self.pending or getattr(_tls, 'task', None) is not None:
            return
        futs, self.pending = self.pending, []
        sim = self.sim
        rng = sim.rng
        queue = list(futs)
        rng.shuffle(queue)
        prev = sim.cluster
        sim.cluster = self
        self._main = threading.Semaphore(0)
        active = []
        seq = []
        try:
            while queue or active:
                while queue and len(active) < max(1, self.nworkers):
                    f = queue.pop()
                    active.append(self._start(f))
                t = active[rng.randrange(len(active))]
                seq.append(t.fut.tid)
                self._current = t
                t.sem.release()
                self._main.acquire()
                if t.finished:
                    active.remove(t)
                    t.thread.join()
                    self._finish(t, queue)
            sim.interleavings.append(tuple(seq))
        finally:
            sim.cluster = prev
            self._current = None

    def _start(self, f):
        f.attempts += 1
        t = _Task(self, f)
        t.thread = threading.Thread(target=t.run, daemon=True)
        sim = self.sim
        t.lost_at = None
        if f.attempts <= 2 and self.p_lost and sim.rng.random() < self.p_lost:
            t.lost_at = int(sim.rng.expovariate(1 / 12.0))
        elif self.p_fail and sim.rng.random() < self.p_fail:
            t.fail = True
        t.thread.start()
        return t

    def _finish(self, t, queue):
        sim = self.sim
        f = t.fut
        if isinstance(t.exc, WorkerLost):
            sim.fire('worker_lost')
            sim.event('worker lost task %d' % f.tid)
            queue.append(f)
            return
        if isinstance(t.exc, BaseException):
            f.exc = t.exc
            f._done = True
            return
        if self.p_dup and f.attempts <= 2 and sim.rng.random() < self.p_dup and not sim.crashed:
            # the scheduler lost the result (or believed the worker dead): the task runs again
            sim.fire('task_rerun')
            sim.event('rerun task %d' % f.tid)
            queue.append(f)
            return
        f.value = t.value
        f._done = True

    def yield_from_task(self):
        t = _tls.task
        t.count += 1
        if t.lost_at is not None and t.count > t.lost_at:
            _tls.lost = True
            raise WorkerLost()
        sim = self.sim
        if sim.rng.random() < self.p_switch:
            sim.switches += 1
            self._main.release()
            t.sem.acquire()


class _Task:
    def __init__(self, client, fut):
        self.client = client
        self.fut = fut
        self.sem = threading.Semaphore(0)
        self.finished = False
        self.value = None
        self.exc = None
        self.fail = False
        self.count = 0

    def run(self):
        self.sem.acquire()
        _tls.task = self
        _tls.lost = False
        import dask
        try:
            with dask.config.set(scheduler=sim_get, array_optimize=False):
                fn, args, kwargs = pickle.loads(self.fut.blob)
                if self.fail:
                    CUR.fire('task_memory_error')
                    raise MemoryError('out of memory in a worker')
                self.value = _dumps(fn(*args, **kwargs))
                if self.lost_at is not None:     # dies before the result is delivered
                    raise WorkerLost()
        except BaseException as e:
            self.exc = e
            if getattr(_tls, 'lost', False):
                self.exc = WorkerLost()
        finally:
            _tls.task = None
            self.finished = True
            self.client._main.release()


def _dumps(o):
    import cloudpickle
    return cloudpickle.dumps(o)


def sim_get_client(address=None, timeout=None, resolve_address=True):
    s = CUR
    if s is not None and s.knobs.get('existing_client'):
        c = getattr(s, '_existing_client', None)
        if c is None:
            c = s._existing_client = SimClient()
        return c
    raise ValueError('No global client found and no address provided')


class _DoneNotDone:
    def __init__(self, done):
        self.done = done
        self.not_done = set()


def _collect(fs, out):
    if isinstance(fs, SimFuture):
        out.append(fs)
    elif isinstance(fs, (list, tuple, set)):
        for x in fs:
            _collect(x, out)
    return out


def sim_wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fl = _collect(fs, [])
    for f in fl:
        f.client._run_pending()
    return _DoneNotDone(set(fl))


def sim_progress(*fs, **k):
    # outside of notebooks it waits for the futures
    sim_wait(fs)


def sim_as_completed(fs, with_results=False, **k):
    fl = _collect(fs, [])
    for f in fl:
        f.client._run_pending()
    order = list(fl)
    if fl:
        fl[0].client.sim.rng.shuffle(order)
    for f in order:
        yield (f, f.result()) if with_results else f


def sim_fire_and_forget(fs):
    return None


class SimLocalCluster:
    def __init__(self, *a, **k):
        pass

    def close(self):
        pass


# -- install -------------------------------------------------------------------------------------------------

_installed = False


def install(repo):
    """Import third parties for real, then patch, then import bathygrid from `repo`."""
    global _installed
    if _installed:
        return
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.filterwarnings('ignore')
    import numpy, dask, dask.array, dask.distributed, distributed, zarr, xarray, h5py, numba     # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot, psutil, pyproj                                     # noqa
    from osgeo import gdal
    gdal.UseExceptions() if False else None
    import json, tempfile, multiprocessing, subprocess, traceback, logging        # noqa
    import numcodecs.blosc
    numcodecs.blosc.use_threads = False
    try:
        numcodecs.blosc.set_nthreads(1)
    except Exception:
        pass
    import cloudpickle   # noqa
    # graphs are run unoptimised: the optimiser is pure and costs more than the rest of the simulation
    dask.config.set(scheduler=sim_get, array_optimize=False)

    builtins.open = sim_open
    io.open = sim_open
    os.mkdir = _wrap1('mkdir', 'mkdir')
    os.remove = _wrap1('remove', 'unlink')
    os.unlink = _wrap1('unlink', 'unlink')
    os.rmdir = _wrap1('rmdir', 'rmdir')
    os.truncate = _wrap1('truncate', 'truncate')
    os.rename = _wrap_rename('rename')
    os.replace = _wrap_rename('replace')
    os.link = _wrap_rename('link')
    os.symlink = _wrap_rename('symlink')
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.open = sim_os_open
    shutil._use_fd_functions = False
    import dask.tokenize
    dask.tokenize._tokenize = _note_tokens(dask.tokenize._tokenize)
    uuid.uuid4 = sim_uuid4
    uuid.uuid1 = sim_uuid1
    time.time = sim_time
    time.sleep = sim_sleep
    time.monotonic = sim_monotonic
    _dtmod.datetime = SimDatetime
    for mod in (dask.distributed, distributed):
        mod.Client = SimClient
        mod.get_client = sim_get_client
        mod.default_client = sim_get_client
        mod.wait = sim_wait
        mod.progress = sim_progress
        mod.as_completed = sim_as_completed
        mod.fire_and_forget = sim_fire_and_forget
        mod.LocalCluster = SimLocalCluster
        mod.Future = SimFuture
    if repo not in sys.path:
        sys.path.insert(0, repo)
    from . import cube
    cube.install()
    import bathygrid.convenience    # noqa
    import bathygrid
    where = os.path.dirname(os.path.abspath(bathygrid.__file__))
    if os.path.dirname(where) != os.path.abspath(repo):
        raise HarnessError('bathygrid was imported from %s, not from %s' % (where, repo))
    _installed = True
