"""
C11: creating and opening databases, cut off by crashes and disk errors.

The reference is a list of possible states of the file: 'none' (nothing that
counts as a database: no file, or what an interrupted creation left) or a
database with its contents, capacity and strictness.  A failed or interrupted
step adds possibilities, an observation removes those it contradicts.
"""
import gc
import os

from sim import kernel
from sim.base import Gen, Scenario
from sim.values import make, obs, want

Violation = kernel.Violation
PATH = '/simdisk/db.fs'
PLAIN = '/simdisk/plain.fs'
IDS = ['a', 'b', 'c', 'https://x/1']
NONE = {'kind': 'none'}
VIA = {'create': 3, 'create+load': 3, 'create+ctor': 2, 'new': 3}
OPEN = {'load-path': 2, 'load-storage': 2, 'ctor-path': 2, 'ctor-storage': 2}


def fresh(capacity, strict):
    return {'kind': 'db', 'map': {}, 'cap': capacity, 'strict': strict}


class Creation(Scenario):
    def generate(self, prop, seed):
        g = Gen(seed, prop)
        r = g.r
        phases = []
        plain = r.random() < .3
        for _ in range(r.randint(1, 4)):
            ops = []
            for _ in range(r.randint(1, 6)):
                k = g.pick({'create': 4, 'open': 3, 'put': 4, 'del': 1,
                            'close': 2, 'locked': 1,
                            'plain': 2 if plain else 0,
                            'readonly': 1, 'old': 1, 'pair': .7})
                op = {'n': g.n(), 'op': k}
                if k in ('create', 'locked'):
                    op.update(cap=r.choice([1, 2, 7, 10, 10, 100, 100, 1000, 1000,
                                            3000, 100000]),
                              strict=r.random() < .4, via=g.pick(VIA))
                    if k == 'create' and r.random() < .12:
                        op['wipe'] = True
                    if k == 'create' and r.random() < .2:
                        op['default'] = True
                    if k == 'create' and r.random() < .4:
                        op['again'] = True
                elif k == 'pair':
                    op['n'] = g.n()
                    op['file'] = r.random() < .6
                    op['puts'] = [r.randint(0, 3) for _ in range(
                        r.choice([2, 2, 3]))]
                    op['via'] = r.choice(['ctor', 'load'])
                elif k in ('open', 'plain'):
                    op['via'] = g.pick(OPEN)
                elif k == 'readonly':
                    op.update(via=r.choice(['new', 'create', 'load']),
                              cap=r.choice([1, 10, 1000]))
                    if r.random() < .5:
                        g.serial += 1
                        op.update(stop=True, v=['t', g.serial],
                                  id=r.choice(IDS))
                elif k == 'put':
                    g.serial += 1
                    op.update(id=r.choice(IDS), v=r.choice(
                        [['t', g.serial], ['m', g.serial], ['e', 'zero'],
                         ['big', g.serial, 3000]]))
                elif k == 'del':
                    op.update(id=r.choice(IDS))
                ops.append(op)
            f, ok = g.io_faults(.35, .65)
            if f.get('crash') and r.random() < .6:
                f['crash'] = 1 / r.choice([8, 15, 25])
            ph = {'ops': ops, 'faults': f, 'crash_ok': ok,
                  'end': r.choice(['close', 'kill', 'power'])}
            if r.random() < .12:
                ph['room'] = r.choice([0, 3, 50, 300, 1000, 3000])
            phases.append(ph)
        return g.plan('creation', phases, {
            'knobs': {'preempt': g.preempt()},
            'plain': plain, 'pool': r.choice([1, 7]),
            'cache': r.choice([0, 400])})

    def start(self, plan):
        return {'cands': [dict(NONE)], 'plain': None, 'volatile': []}

    # ------------------------------------------------------------- execution
    def run_phase(self, sim, plan, carry, k):
        Run(sim, plan, carry).phase(k)


class Run:
    def __init__(self, sim, plan, carry):
        self.sim = sim
        self.plan = plan
        self.carry = carry
        self.db = None
        self.storage = None
        self.fault = None
        sim.fault_hook = self.on_fault
        sim.disk.one_per_op = lambda: bool(self.fault)

    def on_fault(self, kind, what, path):
        self.fault = f'{kind}:{what}'

    # ------------------------------------------------------ possible states
    def states(self):
        return self.carry['cands']

    def allow(self, *more):
        """From here on these states are possible as well."""
        c = self.carry['cands']
        for s in more:
            if s not in c:
                c.append(s)

    def settle(self, states):
        n = self.sim.disk.names.get(PATH)
        if n is not None and not n.pending and PATH in \
                self.sim.disk.durable_names:
            self.carry['volatile'] = []
        out = []
        for s in states:
            if s not in out:
                out.append(s)
        self.carry['cands'] = out

    # ---------------------------------------------------------------- driver
    def phase(self, k):
        sim, plan = self.sim, self.plan
        # what was seen in the page cache after a failed fsync may be gone
        self.allow(*self.carry['volatile'])
        self.carry['volatile'] = []
        if k == 0 and plan['config'].get('plain'):
            self.make_plain()
        disk = sim.disk
        if k >= len(plan['phases']):
            self.last()
            return
        ph = plan['phases'][k]
        disk.faults = dict(ph.get('faults', {}))
        disk.crash_ok = tuple(ph.get('crash_ok', ()))
        if ph.get('room') is not None:
            disk.capacity = disk.total() + ph['room']
        for op in ph['ops']:
            sim.main.label = f'c.{op["n"]}'
            self.fault = None
            sim.count('op:' + op['op'])
            getattr(self, 'op_' + op['op'])(op)
            sim.log('done', op['n'], self.fault, len(self.states()))
        sim.main.label = 'main'
        disk.faults = {}
        disk.capacity = None
        mode = ph.get('end', 'close')
        if mode == 'close':
            self.close()
        elif mode == 'kill':
            disk.crash(['kill'], 'end')
        else:
            disk.crash_ok = ('power',)
            how = sim.choose('end', lambda r: disk._draw_crash(r, 1.1),
                             ['power', 1, [1], 0])
            disk.crash(how, 'end')

    def last(self):
        """Without faults, what is left can be opened or created again."""
        sim = self.sim
        sim.main.label = 'last'
        self.check_plain()
        if any(s['kind'] == 'none' for s in self.states()):
            self.op_create({'n': 'last', 'op': 'create', 'cap': 10,
                            'strict': True, 'via': 'new'})
        else:
            self.op_open({'n': 'last', 'op': 'open', 'via': 'load-path'})
        self.op_put({'id': 'a', 'v': ['t', 999999]})
        self.close()
        self.op_open({'n': 'last2', 'op': 'open', 'via': 'load-path'})
        self.close()
        self.check_plain()

    # ------------------------------------------------------------ operations
    def op_close(self, op):
        self.close()

    def close(self):
        db, storage = self.db, self.storage
        self.db = self.storage = None
        self.sim.quiet += 1
        if db is not None:
            db.close()
        elif storage is not None:
            storage.close()
        del db, storage
        gc.collect()
        self.sim.quiet -= 1

    def kwargs(self):
        c = self.plan['config']
        return {'pool_size': c.get('pool', 7), 'cache_size':
                c.get('cache', 400)}

    def op_create(self, op):
        from citrine.database.containerdb import ContainerDb
        self.close()
        cap, strict = op['cap'], op['strict']
        kw = {'capacity': cap, 'strict': strict}
        if op.get('default'):
            from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
            kw, cap, strict = {}, DEFAULT_CONTAINER_SIZE, False
        new = fresh(cap, strict)
        before = [dict(s) for s in self.states()]
        if op.get('wipe'):
            kw['create'] = True
            after = [new]
            # cut off, the old or the new one or neither may be there
            self.allow(dict(NONE), new)
        else:
            after = [new if s['kind'] == 'none' else s for s in before]
            self.allow(*after)
        try:
            if op.get('again'):
                fault = self.tried(op, kw)
                if fault:
                    # at once again: nothing but the disk may be in its way
                    self.sim.count('created-again')
                    self.sim.disk.spare.add(self.sim.main.label)
                    self.made(op, kw)
                    self.sim.disk.spare.discard(self.sim.main.label)
            elif op['via'] == 'new':
                self.db = ContainerDb.new(PATH, **kw, **self.kwargs())
            else:
                self.storage = ContainerDb.create(PATH, **kw)
                if op['via'] == 'create+load':
                    self.settle(after)
                    before = after
                    self.db = ContainerDb.load(self.storage, **self.kwargs())
                elif op['via'] == 'create+ctor':
                    self.settle(after)
                    before = after
                    self.db = ContainerDb(self.storage, **self.kwargs())
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            self.failed('create', op, e, before)
            return
        self.settle(after)
        if self.db is not None:
            self.verify(op)

    def tried(self, op, kw):
        try:
            self.made(op, kw)
        except kernel.Violation:
            raise
        except Exception as e:
            if self.fault is None:
                raise
            e.__traceback__ = None
            self.carry['volatile'] += self.states()
            fault, self.fault = self.fault, None
            return fault

    def made(self, op, kw):
        from citrine.database.containerdb import ContainerDb
        if op['via'] == 'new':
            self.db = ContainerDb.new(PATH, **kw, **self.kwargs())
            return
        storage = ContainerDb.create(PATH, **kw)
        if op['via'] != 'create':
            try:
                self.db = (ContainerDb.load if op['via'] == 'create+load' else
                           ContainerDb)(storage, **self.kwargs())
            except BaseException:
                storage.close()          # it is the caller's
                raise
        else:
            self.storage = storage

    def op_pair(self, op):
        """Threads that open a new database on one storage at once."""
        from citrine.database.containerdb import ContainerDb
        from ZODB.FileStorage import FileStorage
        from ZODB.MappingStorage import MappingStorage
        from sim.kv import is_conflict
        sim, disk = self.sim, self.sim.disk
        faults, disk.faults = disk.faults, {}
        capacity, disk.capacity = disk.capacity, None
        n = f'/simdisk/pair{op["n"]}.fs'
        storage = FileStorage(n) if op['file'] else MappingStorage()
        done = {}
        make_db = ContainerDb.load if op['via'] == 'load' else ContainerDb

        def client(i, puts):
            sim.task().label = f't{i}.{op["n"]}'
            db = None
            for attempt in range(30):
                try:
                    db = make_db(storage)
                    break
                except Exception as e:
                    # refused: the other one has not completed it yet
                    if not is_conflict(e) and type(e).__name__ != \
                            'IncompatibleDatabaseError':
                        raise Violation('open-together', 'threads that open '
                                        'a new database on one storage: '
                                        f'{e!r}')
                    sim.count('pair-conflict')
                    sim.sleep(.1)
            if db is None:
                raise Violation('open-together', 'a new database could not '
                                'be opened')
            for k in range(puts):
                id = f'{i}-{k}'
                for attempt in range(50):
                    conn = db.open()
                    try:
                        conn.create(id, f'v{id}')
                        done[id] = f'v{id}'
                        break
                    except Exception as e:
                        if not is_conflict(e):
                            raise Violation('open-together', f'{e!r}')
                    finally:
                        conn.close()
        sim.run([(f't{i}', lambda i=i, p=p: client(i, p))
                 for i, p in enumerate(op['puts'])])
        db = ContainerDb(storage)
        conn = db.open()
        got = {k: v for g in conn.container.groups for k, v in g.items()}
        conn.close()
        storage.close()
        if got != done:
            raise Violation('open-together', f'stored {done}, the database '
                            f'holds {got}')
        disk.faults, disk.capacity = faults, capacity
        sim.count('pair')

    def failed(self, what, op, e, before):
        e.__traceback__ = None
        self.carry['volatile'] += self.states()
        if self.fault is None and self.sim.disk.capacity is None:
            raise Violation(what + '-failed', f'{op} failed although nothing '
                            f'went wrong: {e!r}; before: {before}')
        self.close()

    def op_open(self, op):
        from citrine.exceptions import IncompatibleDatabaseError
        self.close()
        from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
        before = [dict(s) for s in self.states()]
        new = fresh(DEFAULT_CONTAINER_SIZE, False)
        after = [new if s['kind'] == 'none' else s for s in before]
        self.allow(*after)
        try:
            self.open_path(op['via'], PATH)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except IncompatibleDatabaseError as e:
            e.__traceback__ = None
            left = [s for s in before if s['kind'] == 'none']
            if not left:
                raise Violation('open-refused', f'{op}: {e!r} although the '
                                f'database is complete: {before}')
            # refused because it was never completed: that is known now,
            # unless the fallback got an error on its way
            if self.fault is None:
                self.settle(left)
            else:
                self.carry['volatile'] += self.states()
            self.close()
            return
        except Exception as e:
            self.failed('open', op, e, before)
            return
        self.settle(after)
        self.verify(op)

    def open_path(self, via, path, **kw):
        from citrine.database.containerdb import ContainerDb
        from ZODB.FileStorage import FileStorage
        if via.endswith('storage'):
            self.storage = FileStorage(path, **kw)
            if kw:
                self.fault = None
        if via == 'load-path':
            self.db = ContainerDb.load(path, **self.kwargs())
        elif via == 'load-storage':
            self.db = ContainerDb.load(self.storage, **self.kwargs())
        elif via == 'ctor-path':
            self.db = ContainerDb(path, **self.kwargs())
        else:
            self.db = ContainerDb(self.storage, **self.kwargs())

    def op_readonly(self, op):
        """Opened read-only, nothing in the directory may change."""
        if any(s['kind'] == 'none' for s in self.states()):
            return
        self.close()
        self.sim.quiet += 1
        files = self.sim.disk.image()
        files.pop(PATH + '.index', None)
        from citrine.database.containerdb import ContainerDb
        via = op['via'] if all(s['kind'] == 'db' for s in self.states()) \
            else 'load'
        try:
            if via == 'new':
                self.db = ContainerDb.new(PATH, capacity=op['cap'],
                                          read_only=True)
                self.storage = self.db.storage
            elif via == 'create':
                self.storage = ContainerDb.create(
                    PATH, capacity=op['cap'], read_only=True)
                self.db = ContainerDb.load(self.storage)
            else:
                self.open_path('load-storage', PATH, read_only=True)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            raise Violation('open-failed', f'read-only: {e!r}')
        self.fault = None
        self.verify(op)
        conn = self.db.open()
        try:
            conn.update(IDS[0], f'not to be stored {op["n"]}')
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            e.__traceback__ = None
        else:
            raise Violation('changed', 'a write through a read-only storage '
                            f'({via}) was acknowledged')
        conn.close()
        self.verify(op)
        self.close()
        now = self.sim.disk.image()
        now.pop(PATH + '.index', None)
        if now != files:
            raise Violation('changed', 'reading through a read-only storage '
                            'changed the files')
        if op.get('stop') and [s['kind'] for s in self.states()] == ['db']:
            self.look_back(op)
        self.sim.quiet -= 1

    def look_back(self, op):
        """Opened up to a transaction, the database is as it was then."""
        from ZODB.utils import p64, u64
        from citrine.database.containerdb import ContainerDb
        then = [dict(s) for s in self.states()]
        self.open_path('load-storage', PATH)
        self.fault = None
        tid = self.storage.lastTransaction()
        self.put(op['id'], op['v'])
        now = self.states()
        self.close()
        try:
            # FileStorage does not look at `stop` where it has an index
            os.remove(PATH + '.index')
        except FileNotFoundError:
            pass
        stop = p64(u64(tid) + 1)
        if op['via'] == 'new':
            self.db = ContainerDb.new(PATH, read_only=True, stop=stop)
        else:
            self.db = ContainerDb.load(ContainerDb.create(
                PATH, read_only=True, stop=stop))
        self.storage = self.db.storage
        self.settle(then)
        self.verify(dict(op, stop=stop.hex()))
        self.close()
        self.settle(now)
        self.open_path('load-storage', PATH)
        self.verify(op)
        self.close()

    def op_old(self, op):
        """Opening again and again changes nothing."""
        if any(s['kind'] == 'none' for s in self.states()):
            return
        self.close()
        self.sim.quiet += 1
        size = len(self.sim.disk.image().get(PATH, b''))
        for via in ('load-path', 'ctor-storage', 'load-storage'):
            self.op_open({'via': via, 'n': op['n'], 'op': 'open'})
            self.close()
        self.sim.quiet -= 1

    def op_locked(self, op):
        """A second creation or opening of a database in use."""
        from citrine.database.containerdb import ContainerDb
        if self.db is None:
            return
        before = [dict(s) for s in self.states()]
        storage = None
        try:
            if op['via'] == 'new':
                storage = ContainerDb.new(PATH, capacity=op['cap'])
            elif op['via'] == 'create':
                storage = ContainerDb.create(PATH, capacity=op['cap'])
            else:
                storage = ContainerDb(PATH)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            e.__traceback__ = None
        else:
            raise Violation('not-locked', 'a database in use was opened '
                            f'again: {op} gave {storage!r}')
        self.settle(before)
        self.verify(op)

    def op_put(self, op):
        self.put(op['id'], op['v'])

    def put(self, id, v):
        self.change(id, want(v), lambda c: c.update(id, make(v)))

    def op_del(self, op):
        self.change(op['id'], None, lambda c: c.delete(op['id']))

    def change(self, id, value, fn):
        if self.db is None:
            return
        before = [dict(s) for s in self.states()]
        after = []
        for s in before:
            if s['kind'] != 'db':
                continue
            m = dict(s['map'])
            if value is None:
                m.pop(id, None)
            else:
                m[id] = value
            after.append(dict(s, map=m))
        self.allow(*after)
        conn = None
        try:
            conn = self.db.open()
            fn(conn)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            from sim.kv import is_capacity
            if is_capacity(e) and all(s.get('strict') for s in before):
                self.settle(before)
            elif self.fault is None and self.sim.disk.capacity is None:
                raise Violation('write-failed', f'{e!r}')
            e.__traceback__ = None
            self.fault = self.fault or 'full'
            self.carry['volatile'] += self.states()
            conn = None
            # whether it arrived is seen when it is opened again
            self.reopen_after_failure()
            return
        conn.close()
        self.settle(after)

    def reopen_after_failure(self):
        try:
            self.close()
        except Exception:
            self.sim.disk.crash(['kill'], 'unclosable')

    # --------------------------------------------------------- observations
    def verify(self, op):
        """The open database must be one of the possible states."""
        from citrine.storage.container import Container
        self.sim.quiet += 1
        try:
            conn = self.db.open()
            got = {}
            marker = object()
            for id in IDS:
                v = conn.read(id, marker)
                if v is not marker:
                    got[id] = obs(v)
            listed = {}
            for grp in conn.container.groups:
                for id, v in grp.items():
                    listed.setdefault(id, obs(v))
            cap, strict = conn.capacity, conn.strict
            groups = len(conn.container.groups)
            size = conn.container.size
            with conn:
                pass
            conn.close()
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            raise Violation('unusable', f'after {op}: {e!r}')
        match = [s for s in self.states() if s['kind'] == 'db' and
                 s['map'] == got and s['strict'] == strict and
                 cap == Container.new(capacity=s['cap']).capacity]
        if not match or listed != got or groups != 1 or size != len(got):
            raise Violation('wrong-contents', f'after {op}: contents {got}, '
                            f'listed {listed}, capacity {cap}, strict '
                            f'{strict}, {groups} groups, size {size}; '
                            f'possible: {self.states()}')
        if any(cap < s['cap'] for s in match):
            raise Violation('capacity', f'{cap} < {match[0]["cap"]}')
        self.settle(match)
        self.sim.count('verified')
        self.sim.quiet -= 1

    # ------------------------------------------- a file without a container
    def make_plain(self):
        from ZODB import DB
        from ZODB.FileStorage import FileStorage
        self.sim.quiet += 1
        db = DB(FileStorage(PLAIN))
        conn = db.open()
        conn.root.other = 'something else'
        conn.transaction_manager.commit()
        conn.close()
        db.close()
        self.sim.disk.sync_all()
        self.carry['plain'] = self.sim.disk.image()[PLAIN]
        self.sim.quiet -= 1

    def check_plain(self):
        if self.carry['plain'] is not None and \
                self.sim.disk.image().get(PLAIN) != self.carry['plain']:
            raise Violation('plain-altered', 'a file that holds no container '
                            'was changed by opening it')

    def op_plain(self, op):
        from citrine.exceptions import IncompatibleDatabaseError
        if self.carry['plain'] is None:
            return
        self.close()
        try:
            self.open_path(op['via'], PLAIN)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except IncompatibleDatabaseError as e:
            e.__traceback__ = None
        except Exception as e:
            e.__traceback__ = None
            if self.fault is None and self.sim.disk.capacity is None:
                raise Violation('plain-error', f'{op}: not a clear error: '
                                f'{e!r}')
        else:
            raise Violation('plain-opened', f'{op} opened a file without a '
                            'container')
        self.close()
        self.check_plain()
