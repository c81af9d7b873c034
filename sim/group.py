"""
C15: reading through a group of databases.

Several ContainerDbs on the simulated disk, readers that go through
GroupReadConnection (on a virtual-time event loop), writers that change the
databases meanwhile, stalls and I/O errors in the disk reads of any of them.
The reference is one versioned map per database.
"""
import datetime

from sim import aio, kernel, kv as kvmod
from sim.base import Gen, Scenario
from sim.values import ABSENT, make, obs, want

Violation = kernel.Violation
IDS = ['a', 'b', 'c', 'https://x/1', '']
TIMES = [0, .02, .3, .5, .999, 1, 1.5, 2, 5, 60, 90, 86400, 90000, 172800.5]
STALLS = [.001, .01, .1, .3, .6, .9, 1.2, 3, 10, 100, 5000, 100000]
EMPTY = (ABSENT, 'None')


class Group(Scenario):
    def generate(self, prop, seed):
        g = Gen(seed, prop)
        r = g.r
        n = r.choice([0, 1, 2, 2, 3, 3, 4])
        ids = r.sample(IDS, r.randint(1, 4))
        multi = r.random() < .45

        def val():
            g.serial += 1
            x = r.random()
            if x < .3 and not multi:
                return ['e', r.choice(['zero', 'empty', 'list', 'dict',
                                       'false', 'float0', 'bytes0', 'tuple0',
                                       'none'])]
            return r.choice([['t', g.serial], ['m', g.serial],
                             ['i', g.serial], ['big', g.serial, 3000]])
        p = r.choice([.1, .3, .5, .8])
        fills = [[[i, val()] for i in ids if r.random() < p]
                 for _ in range(n)]

        def write():
            op = {'n': g.n(), 'op': g.pick({'update': 3, 'delete': 2}),
                  'db': r.randrange(max(n, 1)), 'id': r.choice(ids)}
            if op['op'] == 'update':
                op['v'] = val()
            return op

        def opening():
            return {'n': g.n(), 'op': 'open',
                    'dbs': [i for i in range(n) if r.random() < .85],
                    'how': g.pick({'plain': 4, 'shared': 2, 'own': 1,
                                   'past': 1}),
                    'pick': r.random(), 'as': r.choice(['list', 'tuple'])}

        def reader(k):
            ops = [opening()]
            for _ in range(k):
                x = r.random()
                if x < .66:
                    op = {'n': g.n(), 'op': 'read', 'id': r.choice(ids),
                          'multiple': r.random() < .4}
                    if r.random() < .55:
                        op['timeout'] = r.choice(TIMES)
                    if r.random() < .55:
                        op['cold'] = True
                    if r.random() < .35:
                        op['stalls'] = [
                            [i, r.choice(STALLS)] for i in range(n)
                            if r.random() < .6]
                    if r.random() < .22 and n:
                        op['fail'] = [r.randrange(n), r.choice([0, 0, 1, 2]),
                                      r.choice(['eio', 'eio', *FAILURES])]
                    ops.append(op)
                elif x < .8:
                    ops.append({'n': g.n(), 'op': 'sync'})
                elif x < .9 and n:
                    ops.append(write())
                else:
                    ops.append(opening())
            return ops
        clients = [{'name': 'r0', 'ops': reader(r.randint(2, 10))}]
        if multi:
            if r.random() < .5:
                clients.append({'name': 'r1', 'ops': reader(r.randint(2, 6))})
            for w in range(r.randint(1, 2)):
                clients.append({'name': f'w{w}', 'ops': [
                    write() for _ in range(r.randint(1, 6))] if n else []})
        return g.plan('group', [{'clients': clients}],
                      {'n': n, 'fills': fills, 'ids': ids,
                       'cache': r.choice([0, 2, 400]),
                       # how long things take is what is looked at here
                       'knobs': {'preempt': {**g.preempt(), 'stall': 0}}})

    def run_phase(self, sim, plan, carry, k):
        if k:
            return
        Run(sim, plan).phase(plan['phases'][0])

    def next_phase(self, plan, carry, k, crash):
        return k < 1


class Run:
    def __init__(self, sim, plan):
        self.sim = sim
        self.cfg = plan['config']
        self.n = self.cfg['n']
        self.pending = {}              # label -> (db, id, value)
        self.stalled = self.over = 0   # seconds begun, seconds ended
        self.reading = {}              # label -> state of a group read
        aio.install()

    def phase(self, ph):
        from ZODB.FileStorage import FileStorage
        from citrine.database.containerdb import ContainerDb
        sim = self.sim
        sim.quiet += 1
        self.dbs = []
        self.versions = []
        self.tids = []
        for i in range(self.n):
            path = f'/simdisk/g{i}.fs'
            ContainerDb.create(path, capacity=20).close()
            db = ContainerDb.load(FileStorage(path), database_name=f'g{i}',
                                  cache_size=self.cfg['cache'])
            conn = db.open()
            m = {}
            for id, v in self.cfg['fills'][i]:
                conn.create(id, make(v))
                m[id] = want(v)
            conn.close()
            self.dbs.append(db)
            self.versions.append([m])
            self.tids.append([db.lastTransaction()])
        kvmod.commit_hook(sim, self.on_commit)
        sim.disk.hook = self.on_io
        sim.quiet -= 1
        clients = ph['clients']
        if len(clients) == 1:
            Client(self, clients[0]).run()
        else:
            sim.run([(c['name'], Client(self, c).run) for c in clients])
        sim.main.label = 'main'
        sim.quiet += 1
        for i, db in enumerate(self.dbs):
            conn = db.open()
            got = {id: obs(conn.read(id)) for id in self.cfg['ids']
                   if conn.container.has(id)}
            if got != self.versions[i][-1]:
                raise Violation('state', f'database {i} holds {got}, should '
                                f'hold {self.versions[i][-1]}')
            conn.close()
            db.close()

    def index(self, path):
        name = path.rsplit('/', 1)[-1]
        return int(name[1:-3]) if name[1:-3].isdigit() else None

    def on_commit(self, storage, tid):
        label = self.sim.task().label
        if label not in self.pending:
            raise Violation('unexpected-commit', f'{label} committed')
        db, id, w = self.pending[label]
        m = dict(self.versions[db][-1])
        if w == ABSENT:
            m.pop(id, None)
        else:
            m[id] = w
        self.versions[db].append(m)
        self.tids[db].append(tid)
        self.sim.log('commit', db, id, w)
        self.sim.count('commit')

    def on_io(self, what, path):
        """Stalls and errors of the disk under a group read."""
        sim = self.sim
        state = self.reading.get(sim.task().label)
        if state is None or what != 'read':
            return
        i = self.index(path)
        for s in state['stalls']:
            if s[0] == i and s not in state['stalled']:
                state['stalled'].append(s)
                sim.count('fault:stall')
                self.stalled += s[1]
                sim.sleep(s[1])
                self.over += s[1]
        f = state['fail']
        if f and f[0] == i:
            if state['reads'] == f[1]:
                kind = f[2] if len(f) > 2 else 'eio'
                state['failed'] = state['error'] = failure(kind, path)
                state['fail'] = None
                sim.count(f'fault:{kind}:read')
                sim.log('fault', kind, i)
                raise state['error']
            state['reads'] += 1


class Client:
    def __init__(self, run, spec):
        self.run_ = run
        self.sim = run.sim
        self.name = spec['name']
        self.ops = spec['ops']
        self.group = None
        self.conns = {}

    def run(self):
        task = self.sim.task()
        for op in self.ops:
            task.label = f'{self.name}.{op["n"]}'
            self.sim.count('op:' + op['op'])
            getattr(self, 'op_' + op['op'])(op)
        task.label = self.name
        self.leave()
        for conn in self.conns.values():
            conn.close()

    def leave(self):
        if self.group is not None:
            for conn in self.group.connections:
                conn.close()
        self.group = None

    # ---------------------------------------------------------------- writers
    def write(self, op, w, fn):
        run = self.run_
        label = self.sim.task().label
        i = op['db']
        conn = self.conns.get(i)
        if conn is None:
            conn = self.conns[i] = run.dbs[i].open()
        run.pending[label] = (i, op['id'], w)
        try:
            fn(conn)
        except Exception as e:
            if not kvmod.is_conflict(e):
                raise
            self.sim.count('conflict')
        del run.pending[label]

    def op_update(self, op):
        self.write(op, want(op['v']),
                   lambda c: c.update(op['id'], make(op['v'])))

    def op_delete(self, op):
        self.write(op, ABSENT, lambda c: c.delete(op['id']))

    # ---------------------------------------------------------------- readers
    def op_open(self, op):
        from citrine.connection.group_connection import GroupReadConnection
        from citrine.storage.transaction import ThreadTransactionManager
        run = self.run_
        self.leave()
        dbs = [i for i in op['dbs'] if i < run.n]
        args, kw, how = {}, {}, op['how']
        self.tm = None
        self.past = {}
        own = None
        if how == 'shared':
            self.tm = kw['transaction_manager'] = ThreadTransactionManager()
        chosen = dbs[int(op['pick'] * len(dbs))] if dbs else None
        if how == 'own' and dbs:
            own = ThreadTransactionManager()
            args[f'g{chosen}'] = {'transaction_manager': own}
        if how == 'past' and dbs:
            tids = run.tids[chosen]
            at = int(op['pick'] * 997 % len(tids))
            args[f'g{chosen}'] = {'at': tids[at]}
            self.past[chosen] = run.versions[chosen][at]
        self.floor = {i: len(run.versions[i]) - 1 for i in dbs}
        make_ = {'list': list, 'tuple': tuple}[op['as']]
        self.group = GroupReadConnection(make_(run.dbs[i] for i in dbs),
                                         **kw, **args)
        conns = list(self.group.connections)
        self.members = dict(zip(dbs, conns))
        if len(conns) != len(dbs) or any(
                c.db() is not run.dbs[i] for i, c in self.members.items()):
            raise Violation('members', 'the group is not connected to the '
                            'databases it was given')
        if self.tm is not None and any(c.transaction_manager is not self.tm
                                       for c in conns):
            raise Violation('members', 'a connection does not use the '
                            "group's transaction manager")
        if own is not None and \
                self.members[chosen].transaction_manager is not own:
            raise Violation('members', 'the arguments given for a database '
                            'were not used')

    def op_sync(self, op):
        run = self.run_
        self.floor = {i: len(run.versions[i]) - 1 for i in self.members}
        if self.tm is not None:
            self.tm.begin()
        else:
            for c in self.members.values():
                c.transaction_manager.begin()

    def possible(self, id):
        """What each member may hold for the id."""
        run = self.run_
        out = {}
        for i in self.members:
            if i in self.past:
                out[i] = {self.past[i].get(id, ABSENT)}
            else:
                out[i] = {m.get(id, ABSENT)
                          for m in run.versions[i][self.floor[i]:]}
        return out

    def op_read(self, op):
        run, sim = self.run_, self.sim
        label = sim.task().label
        id, multiple = op['id'], op['multiple']
        T = op.get('timeout')
        if op.get('cold'):
            for c in self.members.values():
                c.cacheMinimize()
        kw = {}
        if T is not None:
            kw['timeout'] = datetime.timedelta(seconds=T)
        if multiple:
            kw['multiple'] = True
        state = run.reading[label] = {
            'stalls': [tuple(s) for s in op.get('stalls', ())],
            'stalled': [], 'fail': op.get('fail'), 'reads': 0,
            'failed': False}
        start, before = sim.now, run.over
        error = None
        try:
            got = self.group.read(id, **kw)
        except kernel.Violation:
            raise
        except Exception as e:
            error = e
        del run.reading[label]
        took = sim.now - start
        # a stall under a storage's lock holds up everybody
        stalled = run.stalled - before
        sim.log('read', label, id, type(error).__name__ if error else
                'ok', round(took, 2))
        what = f'read({id!r}, timeout={T}, multiple={multiple})'
        slack = .05 + .02 * max(took, T or 0)
        if took > max(T or 0, stalled) + slack:
            raise Violation('late', f'{what} took {took:.3f} s, the disk '
                            f'{stalled} s')
        if error is not None:
            self.judge_error(what, error, state, T, took, slack, id, multiple)
            return
        if state['failed']:
            raise Violation('partial', f'{what} answered although reading '
                            'from a database failed')
        if T is not None and took > T + slack:
            raise Violation('late', f'{what} returned a result after '
                            f'{took:.3f} s')
        self.judge(what, got, id, multiple)

    def judge_error(self, what, e, state, T, took, slack, id, multiple):
        from citrine.exceptions import CitrineDuplicateIdError
        sim = self.sim
        if isinstance(e, TimeoutError):
            if T is None:
                raise Violation('timeout', f'{what} timed out')
            if T and took < T - slack:
                raise Violation('timeout', f'{what} timed out after '
                                f'{took:.3f} s')
            sim.count('timed-out')
            return
        if isinstance(e, CitrineDuplicateIdError):
            holders = [i for i, vs in self.possible(id).items()
                       if any(v not in EMPTY for v in vs)]
            if multiple or len(holders) < 2:
                raise Violation('wrong-result', f'{what} reports duplicates, '
                                f'the id is held by {holders}')
            sim.count('duplicate')
            return
        if state['failed'] and any(x is state['error'] for x in chain(e)):
            sim.count('read-failed')
            return
        raise Violation('unexpected-error', f'{what} failed: {e!r}')

    def judge(self, what, got, id, multiple):
        vs = self.possible(id)

        def empty(i):
            return any(v in EMPTY for v in vs[i])
        if got is None:
            if not all(empty(i) for i in vs):
                raise Violation('wrong-result', f'{what} found nothing; '
                                f'databases hold {show(vs)}')
            return
        if multiple:
            if not isinstance(got, dict):
                raise Violation('wrong-result', f'{what} gave '
                                f'{type(got).__name__}')
            of = {}
            for c, v in got.items():
                i = next((i for i, m in self.members.items() if m is c), None)
                if i is None:
                    raise Violation('wrong-result', f'{what} gave a key that '
                                    'is no connection of the group')
                of[i] = obs(v)
            for i in vs:
                if of[i] not in vs[i] if i in of else not empty(i):
                    raise Violation('wrong-result', f'{what} gave {of}; '
                                    f'databases hold {show(vs)}')
            return
        v = obs(got)
        if not any(v in vs[i] and all(empty(j) for j in vs if j != i)
                   for i in vs):
            raise Violation('wrong-result', f'{what} gave {v}; databases '
                            f'hold {show(vs)}')
        self.sim.count('found')


# what a storage raises when it cannot give a record
FAILURES = ['lost', 'corrupt', 'disconnected', 'memory']


def failure(kind, path):
    import errno
    from ZEO.Exceptions import ClientDisconnected
    from ZODB.FileStorage.format import CorruptedDataError
    from ZODB.POSException import POSKeyError
    return {'eio': lambda: OSError(errno.EIO, 'Input/output error', path),
            'lost': lambda: POSKeyError(b'\0' * 7 + b'\1'),
            'corrupt': lambda: CorruptedDataError(b'\0' * 8, b'', 0),
            'disconnected': lambda: ClientDisconnected('connection lost'),
            'memory': lambda: MemoryError()}[kind]()


def show(vs):
    return {i: sorted(v) for i, v in vs.items()}


def chain(e):
    seen, todo = [], [e]
    while todo:
        x = todo.pop()
        if x is None or x in seen:
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
        todo += list(getattr(x, 'exceptions', ()))
    return seen
