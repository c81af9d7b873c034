"""
The simulator kernel: one seeded source of decisions, a virtual clock, a
cooperative scheduler over real threads (one runs at a time, the kernel decides
which), and the locks those threads use.

Install with ``install()`` BEFORE importing ZODB / the code under test: it
replaces the lock factories of ``threading``, the clock functions of ``time``
and the entropy source, each of which behaves as the original while no
simulation is active (``SIM is None``).
"""
import hashlib
import os
import random
import re
import sys
import threading
import time
import _thread

SIM = None          # the active Sim of this process, or None

_real_lock = _thread.allocate_lock
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_real_urandom = os.urandom
_ident = _thread.get_ident


def _real_lock_forever():
    lock = _real_lock()
    lock.acquire()
    lock.acquire()


class Violation(Exception):
    """A property is broken.  ``kind`` classifies it (used while minimising)."""

    def __init__(self, kind, message):
        # addresses differ between runs that are otherwise the same
        message = re.sub(r'0x[0-9a-f]{6,}|\b1[0-9]{14}\b', 'ADDR', message)
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """The machinery itself is at fault."""


class Task:
    __slots__ = ('name', 'index', 'sem', 'state', 'wake', 'label', 'fn',
                 'error', 'thread', 'ident', 'waits', 'quiet', 'timed_out',
                 'daemon', 'joiners', 'spawned')

    def __init__(self, name, index, fn, daemon=False):
        self.name = name
        self.index = index
        self.fn = fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = 'run'       # run | wait | sleep | done
        self.wake = None
        self.label = name
        self.error = None
        self.thread = None
        self.ident = None
        self.waits = None
        self.quiet = 0
        self.timed_out = False
        self.daemon = daemon
        self.joiners = []
        self.spawned = False


class Sim:
    """One simulated process (one incarnation between crashes)."""

    def __init__(self, seed, choices=None, knobs=None, phase=0, emit=None,
                 start=None):
        self.phase = phase
        self.rng = random.Random(f'{seed}/{phase}')
        self.replay = choices            # None: draw; dict: replay exactly
        self.recorded = {}
        self.counters = {}
        self.knobs = knobs or {}
        self.emit = emit                 # called as emit(violation) -> exits
        self.now = 1_700_000_000.0 if start is None else start
        self.mono0 = self.now
        self.clock_skew = 0.0            # wall clock offset against mono
        self.steps = 0
        self.max_steps = self.knobs.get('max_steps', 3_000_000)
        self.stats = {}
        self.digest = hashlib.sha256()
        self.trace = []
        self.keep_trace = bool(self.knobs.get('keep_trace'))
        self.sched_digest = hashlib.sha256()
        self.switches = 0
        self.tasks = []
        self.main = Task('main', 0, None)
        self.main.ident = _ident()
        self.current = self.main
        self.by_ident = {self.main.ident: self.main}
        self.in_sched = False
        self.p = dict(self.knobs.get('preempt', {}))
        self.entropy = random.Random(f'{seed}/{phase}/entropy')
        self.on_point = None
        self.quiet = 0
        self.disk = None
        self.net = None
        self.fault_hook = None

    # ------------------------------------------------------------ bookkeeping
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def log(self, *event):
        """An event of the history: hashed (determinism) and kept on demand."""
        text = repr(event)
        self.digest.update(text.encode('utf-8', 'backslashreplace'))
        if self.keep_trace:
            self.trace.append(f'{self.now - self.mono0:.6f} '
                              f'[{self.task().label}] {text}')

    def task(self):
        return self.by_ident.get(_ident(), self.main)

    # ---------------------------------------------------------------- choices
    def choose(self, kind, draw, default=None, label=None):
        """
        One decision.  ``draw(rng)`` returns it in search mode; in replay mode
        it comes from the recorded choices.  Keyed by the operation in which
        it happens so that it stays meaningful when other operations are
        dropped.
        """
        label = label if label is not None else self.task().label
        base = f'{self.phase}/{label}/{kind}'
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        key = f'{base}/{n}'
        if self.replay is not None:
            value = self.replay.get(key, default)
        else:
            value = draw(self.rng)
        if value != default:
            self.recorded[key] = value
        return value

    def chance(self, kind, p, label=None):
        if p <= 0 and self.replay is None:
            return False
        return bool(self.choose(kind, lambda r: r.random() < p, False, label))

    # -------------------------------------------------------------- scheduler
    def point(self, kind):
        """A place where another task may run."""
        me = self.by_ident.get(_ident())
        if me is None or me is not self.current:
            return
        self.steps += 1
        self.now += 1e-6
        if self.steps > self.max_steps:
            self.fail(Violation('no-progress',
                                f'no end after {self.steps} steps in '
                                f'{me.label}'))
        if len(self.tasks) < 2 or me.quiet or me is self.main:
            return
        p = self.p.get(kind, 0.0)
        if p <= 0.0 and self.replay is None:
            return
        if self.replay is None and self.rng.random() >= p:
            # keep the counter in step with replay mode
            base = f'{self.phase}/{me.label}/s:{kind}'
            self.counters[base] = self.counters.get(base, 0) + 1
            return
        name = self.choose('s:' + kind, self._draw_other, None)
        if name is None:
            return
        other = next((t for t in self.tasks if t.name == name), None)
        if other is None or other is me or not self._runnable(other):
            return
        self._note_switch(me, other, kind)
        if self.chance('stall', self.p.get('stall', 0.0)):
            # a slow thread: the others get far meanwhile
            self.count('fault:stall')
            me.state = 'sleep'
            me.wake = self.now + self.choose(
                'stall-for', lambda r: 10 ** r.uniform(-4, -.5), .001)
        self._switch(me, other)

    def yield_to(self, name):
        """Lets the named task run now (used by scripted plans)."""
        me = self.task()
        other = next((t for t in self.tasks if t.name == name), None)
        if other is not None and other is not me and self._runnable(other):
            self._switch(me, other)

    def _draw_other(self, rng):
        me = self.current
        names = [t.name for t in self.tasks
                 if t is not me and self._runnable(t)]
        return rng.choice(names) if names else None

    def _runnable(self, t):
        return t.state == 'run' or (t.state == 'sleep' and t.wake <= self.now)

    def _note_switch(self, a, b, kind):
        self.switches += 1
        self.count('preempt:' + kind)
        self.sched_digest.update(f'{a.label}>{b.name}:{kind};'.encode())
        if self.keep_trace:
            self.trace.append(f'{self.now - self.mono0:.6f} switch '
                              f'{a.label} -> {b.name} at {kind}')

    def _switch(self, me, other):
        if other.state == 'sleep':
            other.state = 'run'
        self.current = other
        other.sem.release()
        if me is not None:
            me.sem.acquire()

    def _next(self, me):
        """Hands over because ``me`` cannot continue (blocked, asleep, done)."""
        while True:
            if all(t.state == 'done' or t.daemon for t in self.tasks):
                # what still runs in the background is left where it is
                self.current = self.main
                self.main.sem.release()
                if me is not None and me.state != 'done':
                    me.sem.acquire()
                return
            ready = [t for t in self.tasks if self._runnable(t)]
            if ready:
                break
            timers = sorted((t.wake, t.index) for t in self.tasks
                            if t.state in ('sleep', 'wait')
                            and t.wake is not None)
            if timers:
                self.now = max(self.now, timers[0][0])
                for t in self.tasks:
                    if t.state == 'wait' and t.wake is not None \
                            and t.wake <= self.now:
                        t.timed_out = True
                        t.state = 'run'
                        t.wake = None
                continue
            stuck = ', '.join(f'{t.label} on {t.waits}' for t in self.tasks
                              if t.state != 'done')
            self.fail(Violation('deadlock', f'no task can run: {stuck}'))
        if len(ready) == 1:
            other = ready[0]
        else:
            default = ready[0].name
            name = self.choose('n', lambda r: r.choice(ready).name, default,
                               label=(me.label if me is not None else 'main'))
            other = next((t for t in ready if t.name == name), ready[0])
        if other is me:
            other.state = 'run'
            return
        self.sched_digest.update(
            f'{me.label if me else "-"}>>{other.name};'.encode())
        if me is not None and me.state == 'done':
            self._switch(None, other)
        else:
            self._switch(me, other)

    def run(self, fns):
        """Runs the named functions as concurrent tasks until all are done."""
        me = self.by_ident.get(_ident())
        if me is not self.main or self.in_sched:
            raise HarnessError('run() is for the main task, not nested')
        self.in_sched = True
        self.tasks = []
        for i, (name, fn) in enumerate(fns):
            self.tasks.append(Task(name, i + 1, fn))
        for t in list(self.tasks):
            self._start(t)
        self._next(None)
        self.main.sem.acquire()
        self.in_sched = False
        errors = [(t, t.error) for t in self.tasks if t.error is not None]
        self.tasks = []
        self.current = self.main
        for t, e in errors:
            raise e

    def _start(self, t):
        ready = _real_lock()
        ready.acquire()
        _thread.start_new_thread(self._body, (t, ready))
        ready.acquire()

    def spawn(self, name, fn, daemon=False):
        """One more task, from a running one."""
        if not self.in_sched:
            raise HarnessError('spawn() needs a running simulation')
        if any(t.name == name for t in self.tasks):
            raise HarnessError(f'two tasks called {name}')
        t = Task(name, len(self.tasks) + 1, fn, daemon)
        t.spawned = True
        self.tasks.append(t)
        self._start(t)
        return t

    def join(self, task, timeout=None):
        """Waits for a task; False if it has not ended in time."""
        me = self.task()
        end = None if timeout is None else self.now + timeout
        while task.state != 'done':
            left = None if end is None else end - self.now
            if left is not None and left <= 0:
                return False
            task.joiners.append(me)
            self.wait_on('join ' + task.name, left)
            if me in task.joiners:
                task.joiners.remove(me)
        return True

    def abandon(self, task):
        """A task that never runs again, wherever it is."""
        me = self.by_ident.get(_ident())
        task.state = 'done'
        for j in task.joiners:
            self.wake(j)
        if task is me:
            self._next(me)
            _real_lock_forever()

    def _body(self, t, ready):
        t.ident = _ident()
        self.by_ident[t.ident] = t
        t.thread = threading.current_thread()
        ready.release()
        t.sem.acquire()
        try:
            t.fn()
        except Violation as v:
            self.fail(v)
        except BaseException as e:      # noqa: harness or scenario error
            t.error = e
            if t.spawned:
                self.run_failed(e)
        t.state = 'done'
        for j in t.joiners:
            self.wake(j)
        self._next(t)

    def run_failed(self, e):
        import traceback
        text = ''.join(traceback.format_exception(e))
        if isinstance(e, HarnessError):
            self.emit('harness: ' + text)
        self.fail(Violation('exception', text[-1500:]))

    def fail(self, violation):
        """Ends this simulated process with a violation, from any task."""
        if self.emit is None:
            raise violation
        self.emit(violation)
        raise HarnessError('emit returned')

    # ------------------------------------------------------ blocking and time
    def wait_on(self, what, timeout=None):
        """Blocks the calling task until ``wake`` is called for it."""
        me = self.task()
        if not self.in_sched or me is self.main:
            if timeout is not None:
                self.now += timeout
                return False
            self.fail(Violation('deadlock',
                                f'{me.label} waits for {what} forever'))
        me.state = 'wait'
        me.waits = what
        me.timed_out = False
        me.wake = None if timeout is None else self.now + timeout
        self._next(me)
        me.waits = None
        me.wake = None
        return not me.timed_out

    def wake(self, task):
        if task.state == 'wait':
            task.state = 'run'
            task.wake = None

    def sleep(self, dt):
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        me = self.task()
        self.count('sleep')
        if not self.in_sched or me is self.main:
            self.now += dt
            return
        me.state = 'sleep'
        me.wake = self.now + dt
        me.waits = 'timer'
        self._next(me)
        me.state = 'run'
        me.wake = None

    def wall(self):
        self.now += 1e-6
        return self.now + self.clock_skew


# --------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock under the kernel; also fine outside a simulation."""
    _kind = 'Lock'

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []
        self._real = None

    def _want(self, me):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        me = _ident()
        if sim is None:
            # outside a simulation the workers are single-threaded
            if self._owner is not None and not self._reenter(me):
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError('deadlock outside simulation')
            self._take(me)
            return True
        sim.point('lock')
        while self._owner is not None and not self._reenter(me):
            if not blocking:
                return False
            t = sim.task()
            self._waiters.append(t)
            sim.count('lock-wait')
            ok = sim.wait_on(self._kind, None if timeout < 0 else timeout)
            if t in self._waiters:
                self._waiters.remove(t)
            if not ok:
                return False
        self._take(me)
        return True

    def _reenter(self, me):
        return False

    def _take(self, me):
        self._owner = me
        self._count += 1

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count:
            return
        self._owner = None
        sim = SIM
        if sim is not None:
            for t in self._waiters:
                sim.wake(t)
            self._waiters.clear()
            sim.point('unlock')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    _kind = 'RLock'

    def _reenter(self, me):
        return self._owner == me

    def release(self):
        if self._owner != _ident():
            raise RuntimeError('cannot release un-acquired lock')
        super().release()

    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        count, owner = self._count, self._owner
        self._count = 1
        self.release()
        return count, owner

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiting = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        sim = SIM
        if sim is None:
            if timeout is not None:
                return False
            raise RuntimeError('condition wait outside simulation')
        t = sim.task()
        self._waiting.append(t)
        if hasattr(self._lock, '_release_save'):
            state = self._lock._release_save()
        else:
            self._lock.release()
            state = None
        ok = t not in self._waiting or sim.wait_on('Condition', timeout)
        if t in self._waiting:
            self._waiting.remove(t)
        if state is not None:
            self._lock._acquire_restore(state)
        else:
            self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        sim = SIM
        end = None if timeout is None else sim.now + timeout
        result = predicate()
        while not result:
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        sim = SIM
        for t in self._waiting[:n]:
            self._waiting.remove(t)
            if sim is not None:
                sim.wake(t)

    def notify_all(self):
        self.notify(len(self._waiting))

    notifyAll = notify_all


# ------------------------------------------------------------------- patches
def _time():
    return SIM.wall() if SIM is not None else _real_time()


def _time_ns():
    return int(_time() * 1e9)


def _monotonic():
    if SIM is not None:
        SIM.now += 1e-6
        return SIM.now - SIM.mono0 + 1000.0
    return _real_monotonic()


def _perf():
    return _monotonic() if SIM is not None else _real_perf()


def _sleep(dt):
    if SIM is not None:
        return SIM.sleep(dt)
    return _real_sleep(dt)


def _urandom(n):
    if SIM is not None:
        return SIM.entropy.randbytes(n)
    return _real_urandom(n)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading.Condition = SimCondition
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.perf_counter = _perf
    time.sleep = _sleep
    os.urandom = _urandom


# ------------------------------------------------- line points in the target
_TOOL = 2


def _code_objects(prefixes):
    import gc
    import types
    seen = {}

    def walk(code):
        if id(code) in seen or not code.co_filename.startswith(prefixes):
            return
        seen[id(code)] = code
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                walk(const)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            walk(obj.__code__)
        elif isinstance(obj, types.CodeType):
            walk(obj)
    return list(seen.values())


def trace_lines(prefixes, instr=False):
    """Makes every line (or bytecode) of the target's functions a point."""
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'sim')
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instr)
    events = mon.events.LINE | (mon.events.INSTRUCTION if instr else 0)
    codes = _code_objects(prefixes)
    for code in codes:
        mon.set_local_events(_TOOL, code, events)
    return len(codes)


def _on_line(code, line):
    if SIM is not None:
        SIM.point('line')


def _on_instr(code, offset):
    if SIM is not None:
        SIM.point('instr')
