"""
The key-value scenario: clients working on a ContainerDb on the simulated disk.

The reference is a plain map with one version per commit.  Commits are noticed
where FileStorage makes them visible (under its lock), so every operation can
be judged against the versions between its invocation and its response.
"""
import importlib
import json

from sim import kernel, values
from sim.values import ABSENT, make, obs, want

Violation = kernel.Violation
PATH = '/simdisk/db.fs'
NONE = 'None'


class Boom(Exception):
    """Raised by a block's body on purpose."""


class Cancelled(BaseException):
    """The same, from outside of the ordinary exceptions."""


class Interrupt(Cancelled, KeyboardInterrupt):
    pass


class Exit(Cancelled, SystemExit):
    pass


class Closed(Cancelled, GeneratorExit):
    pass


class Hollow(Boom):
    """An exception that is not true."""

    def __bool__(self):
        return False


class NotFound(Boom, KeyError):
    pass


BOOMS = (Boom, Cancelled)
KINDS = {'interrupt': Interrupt, 'exit': Exit, 'closed': Closed,
         'hollow': Hollow, 'key': NotFound}


def boom(op, what):
    return KINDS.get(op.get('exc'), Boom)(what)


def commit_hook(sim, cb):
    """Calls cb() when a FileStorage transaction becomes visible."""
    fs = importlib.import_module("ZODB.FileStorage.FileStorage")
    cls = fs.FileStorage
    orig = getattr(cls, '_sim_orig_ff', None)
    if orig is None:
        orig = cls._finish_finish
        cls._sim_orig_ff = orig

    def _finish_finish(self, tid):
        r = orig(self, tid)
        cb(self, tid)
        return r
    cls._finish_finish = _finish_finish


def close_hook(cb):
    """Calls cb() when a FileStorage is closed."""
    fs = importlib.import_module("ZODB.FileStorage.FileStorage")
    cls = fs.FileStorage
    orig = getattr(cls, '_sim_orig_close', None)
    if orig is None:
        orig = cls.close
        cls._sim_orig_close = orig

    def close(self):
        cb()
        return orig(self)
    cls.close = close


def is_conflict(e):
    from ZODB.POSException import ConflictError
    return isinstance(e, ConflictError)


def is_capacity(e):
    from citrine.storage.collection import CollectionCapacityError
    from citrine.storage.group import GroupCapacityError
    return isinstance(e, (CollectionCapacityError, GroupCapacityError))


def is_overwrite(e):
    from citrine.exceptions import ObjectOverwriteError
    return isinstance(e, ObjectOverwriteError)


class Model:
    """Versions of the map; part of the carry, so it survives crashes."""

    def __init__(self, initial=None):
        self.versions = [dict(initial or {})]
        self.log = [None]              # per version: (label, stores, dels)
        self.inflight = {}             # label -> rec
        self.tids = [None]

    @property
    def now(self):
        return len(self.versions) - 1

    @property
    def current(self):
        return self.versions[-1]

    def commit(self, label, writes, tid=None):
        m = dict(self.current)
        stores, dels = set(), set()
        for id, w in writes.items():
            if w == ABSENT:
                if id in m:
                    dels.add(id)
                m.pop(id, None)
            else:
                stores.add(id)
                m[id] = w
        self.versions.append(m)
        self.log.append((label, stores, dels))
        self.tids.append(tid)

    def __getstate__(self):
        d = dict(self.__dict__)
        for r in self.inflight.values():
            r['base'] = snapshot_of(r)
        d['inflight'] = {
            k: {x: y for x, y in r.items() if x not in ('reads', 'error', 'conn')}
            for k, r in self.inflight.items()}
        return d

    def rebase(self, state):
        self.versions = [dict(state)]
        self.log = [None]
        self.tids = [None]
        self.inflight = {}


def snapshot_of(rec):
    """First transaction id the operation's connection does not see."""
    return rec.get('base') or getattr(
        getattr(rec.get('conn'), '_storage', None), '_start', None)


def overlay(m, writes):
    if not writes:
        return m
    m = dict(m)
    for id, w in writes.items():
        if w == ABSENT:
            m.pop(id, None)
        else:
            m[id] = w
    return m


class KV:
    """Everything one phase needs to run clients against the database."""

    def __init__(self, sim, plan, carry, path=PATH):
        self.sim = sim
        self.plan = plan
        self.cfg = plan['config']
        self.carry = carry
        self.path = path
        self.model = carry['model']
        self.ids = self.cfg['ids']
        self.concurrent = False
        self.dead = False              # the storage closed itself
        self.db = None
        self.full = False
        self.closing = False
        self.inuse = {}
        self.strict_now = carry.get('strict', self.cfg['layout'].get('strict',
                                                                   False))
        # strict, and nobody has asked for anything else since
        carry.setdefault('firm', self.cfg['layout'].get('strict', False))
        sim.fault_hook = self.on_fault
        sim.disk.one_per_op = self.failed_already
        sim.kv = self
        commit_hook(sim, self.on_commit)
        close_hook(self.on_close)

    def on_close(self):
        if not self.closing and not self.sim.quiet:
            # FileStorage closes itself when it cannot finish a commit
            self.dead = True
            for rec in self.model.inflight.values():
                rec['base'] = snapshot_of(rec)
            self.sim.count('storage-closed-itself')

    def doubt(self, label, rec):
        """The outcome is known only after a restart."""
        rec['doubt'] = True

    # ------------------------------------------------------------ connections
    def manager(self, spec):
        """Arguments for opening: the managers a client may come with."""
        from citrine.storage.transaction import (
            ThreadTransactionManager, TransactionManager)
        kind = spec.get('tm')
        if kind is None:
            return {}
        return {'transaction_manager': TransactionManager() if
                kind == 'single' else ThreadTransactionManager()}

    def open_connection(self, client):
        conn = self.db.open(**self.manager(client.opts))
        self.claim(conn, client.name)
        return conn

    def close_connection(self, client, conn):
        self.release(conn)
        conn.close()
        if not self.concurrent and conn.opened is not None:
            raise Violation('not-closed', 'the connection is still open after '
                            'close()')

    def claim(self, conn, label):
        if self.dead:
            return
        if id(conn) in self.inuse:
            raise Violation('shared-connection', f'{label} was given the '
                            f'connection {self.inuse[id(conn)][0]} is using')
        # the reference keeps the id from being used again
        self.inuse[id(conn)] = (label, conn)

    def claimed(self, conn, label):
        if conn.opened is None:
            raise Violation('closed-in-use', 'the connection of '
                            f'{label} was closed while in use')

    def release(self, conn):
        self.claimed(conn, self.inuse.get(id(conn), ('?',))[0])
        self.inuse.pop(id(conn), None)

    def returned(self, conn, label):
        mine = self.inuse.get(id(conn), (None,))[0] == label
        if mine:
            self.inuse.pop(id(conn))
        if (mine or not self.concurrent) and conn.opened is not None:
            raise Violation('not-closed', f'the connection of {label} is '
                            'still open after its scope')

    def all_returned(self):
        left = [d for d in self.db.connectionDebugInfo() if d['opened']]
        if left:
            raise Violation('not-closed', f'{len(left)} connections are still '
                            'open after all clients ended')

    # -------------------------------------------------------------- observers
    def on_commit(self, storage, tid):
        label = self.sim.task().label
        rec = self.model.inflight.get(label)
        if rec is None:
            if self.sim.quiet or self.sim.task().quiet:
                return
            raise kernel.HarnessError(f'commit outside an operation: {label}')
        if rec.get('committed') is None:
            rec['committed'] = self.model.now + 1
        rec['commits'] = rec.get('commits', 0) + 1
        self.model.commit(label, self.effective(rec), tid)
        if 'history' in self.carry:
            self.carry['history'].append((tid, self.model.current))
        if self.cfg.get('exact') and \
                len(self.model.current) > self.cfg['exact']:
            self.sim.fail(Violation(
                'over-capacity', f'{len(self.model.current)} objects were '
                'committed to a strict container for '
                f'{self.cfg["exact"]}'))
        self.sim.log('commit', label, sorted(rec['writes'].items()))
        self.sim.count('commit')
        if self.after_commit is not None:
            self.after_commit(label)

    after_commit = None

    def effective(self, rec):
        """
        A delete works on what its snapshot holds: it precedes a store of the
        same id that was committed after that snapshot was taken.
        """
        writes = rec['writes']
        base = snapshot_of(rec)
        if base is None or ABSENT not in writes.values():
            return writes
        model = self.model
        later = set()
        for t in range(model.now, 0, -1):
            if model.tids[t] is None or model.tids[t] < base:
                break
            later |= model.log[t][1]
        return {i: w for i, w in writes.items()
                if w != ABSENT or i not in later}

    def failed_already(self):
        rec = self.model.inflight.get(self.sim.task().label)
        return rec is not None and bool(rec.get('fault'))

    def on_fault(self, kind, what, path):
        rec = self.model.inflight.get(self.sim.task().label)
        if rec is not None:
            rec['fault'] = f'{kind}:{what}'

    # ---------------------------------------------------------------- opening
    def create(self, layout):
        """Creates the database with the wanted layout (no faults)."""
        from citrine.database.containerdb import ContainerDb
        from citrine.storage.container import Container
        from citrine.storage.group import Group
        sim = self.sim
        sim.quiet += 1
        strict = layout.get('strict', False)
        storage = ContainerDb.create(self.path, capacity=10)
        db = ContainerDb.load(storage)
        conn = db.open()
        groups = []
        for g in layout['groups']:
            grp = Group.new(size=g['n'], max_collection_size=g['max'],
                            strict=strict,
                            custom=dict(map(tuple, g.get('sizes', ()))))
            wanted = {**dict.fromkeys(range(g['n']), g['max']),
                      **dict(map(tuple, g.get('sizes', ())))}
            if [c.max_size for c in grp.collections] != \
                    [wanted[x] for x in range(g['n'])]:
                raise Violation('accounting', f'collections of {wanted} were '
                                'made with '
                                f'{[c.max_size for c in grp.collections]}')
            for id, v in g.get('fill', []):
                grp.insert(id, make(v))
            groups.append(grp)
        tm = conn.transaction_manager
        tm.begin()
        given = groups[1:] and groups
        if 'at' in layout and given:
            # the primary group at another place among those given
            given = groups[1:]
            given.insert(layout['at'], groups[0])
        conn.root.container = Container(groups[0], tuple(given),
                                        strict=strict)
        for g, how in zip(groups, layout['groups']):
            g.strict = how.get('strict', strict)
        tm.commit()
        conn.close()
        last = storage.lastTransaction()
        db.close()
        m = {}
        for g in reversed(layout['groups']):
            for id, v in g.get('fill', []):
                m[id] = want(v)
        self.model.rebase(m)
        if self.cfg.get('history'):
            self.carry['history'] = [(last, self.model.current)]
        sim.disk.sync_all()
        sim.quiet -= 1

    def open(self, quiet=True):
        from citrine.database.containerdb import ContainerDb
        from ZODB.FileStorage import FileStorage
        sim = self.sim
        if quiet:
            sim.quiet += 1
        try:
            how = self.cfg.get('open', 'load')
            kw = dict(pool_size=self.cfg.get('pool', 7),
                      cache_size=self.cfg.get('cache', 400))
            if how == 'load':
                db = ContainerDb.load(FileStorage(self.path), **kw)
            elif how == 'path':
                db = ContainerDb(self.path, **kw)
            else:
                db = ContainerDb(FileStorage(self.path), **kw)
        except kernel.Violation:
            raise
        except Exception as e:
            raise Violation('unopenable',
                            f'the database cannot be opened: {e!r}')
        finally:
            if quiet:
                sim.quiet -= 1
        self.db = db
        return db

    def close(self):
        self.sim.quiet += 1
        self.closing = True
        self.db.close()
        self.closing = False
        self.sim.quiet -= 1

    # ------------------------------------------------------------ whole state
    def read_all(self, conn):
        out = {}
        marker = object()
        for id in self.ids:
            v = conn.read(id, marker)
            if v is not marker:
                out[id] = obs(v)
        return out

    def listed(self, conn):
        """id -> value by enumerating the groups, first group wins."""
        out = {}
        for g in conn.container.groups:
            for id, v in g.items():
                out.setdefault(id, obs(v))
        return out

    def check_state(self, kind='state', candidates=None, conn=None,
                    exact=True, renew=True):
        """The committed state must be one of the candidate maps."""
        sim = self.sim
        sim.quiet += 1
        mine = conn is None
        if mine:
            conn = self.db.open()
        elif renew:
            conn.transaction_manager.begin()
        try:
            got = self.read_all(conn)
            listing = self.listed(conn)
        except kernel.Violation:
            raise
        except Exception as e:
            raise Violation(kind + '-unreadable', f'reading failed: {e!r}')
        candidates = [self.model.current] if candidates is None else candidates
        if not any(got == m for m in candidates):
            raise Violation(kind, self.describe(got, candidates))
        if listing != got:
            raise Violation(kind + '-listing',
                            'listing and lookup disagree: '
                            + self.describe(listing, [got]))
        if exact:
            accounting(conn)
            if self.carry['firm'] and not conn.strict:
                raise Violation('strictness', 'the container was strict, or '
                                'was made so, and is not strict any more')
        if mine:
            conn.transaction_manager.abort()
            conn.close()
        sim.quiet -= 1
        return next(m for m in candidates if got == m)

    def describe(self, got, candidates):
        m = candidates[0]
        out = []
        for id in sorted(set(got) | set(m)):
            if got.get(id) != m.get(id):
                out.append(f'{id!r} is {got.get(id, ABSENT)}, '
                           f'should be {m.get(id, ABSENT)}')
        more = f' ({len(candidates)} admissible states)' \
            if len(candidates) > 1 else ''
        return '; '.join(out[:6]) + more

    # --------------------------------------------------------------- recovery
    def settle(self):
        """After a restart: the state is the acknowledged one, plus possibly
        one of the operations in flight at the crash."""
        cands = [self.model.current]
        for label, rec in sorted(self.model.inflight.items()):
            if rec.get('committed') is None and rec['writes']:
                cands.append(overlay(self.model.current,
                                     self.effective(rec)))
        state = self.check_state('durability', cands)
        self.sim.log('settled', sorted(state.items()))
        hist = self.carry.get('history')
        if hist and (hist[-1][1] != state):
            hist.append((self.db.lastTransaction(), state))
        self.model.rebase(state)

    # ---------------------------------------------------------------- records
    def begin(self, label, kind='op'):
        rec = {'writes': {}, 'reads': [], 'start': self.model.now,
               'committed': None, 'kind': kind}
        self.model.inflight[label] = rec
        return rec

    def end(self, label):
        self.model.inflight.pop(label, None)

    def judge(self, label, rec, error, floor=None):
        """Judges a finished operation against the versions it overlapped."""
        sim = self.sim
        model = self.model
        lo = rec['start'] if floor is None else floor
        hi = model.now
        sim.log('done', label, type(error).__name__ if error else 'ok')
        if error is not None:
            if rec['committed'] is not None and rec['kind'] != 'resize' \
                    and not rec.get('doubt'):
                raise Violation('failed-but-committed',
                                f'{label} raised {error!r} but was committed: '
                                f'{rec["writes"]}')
        c = rec['committed']
        if error is None and c is None and rec['writes']:
            if not any(overlay(model.versions[t], rec['writes'])
                       == model.versions[t] for t in range(lo, hi + 1)):
                raise Violation('acknowledged-not-committed',
                                f'{label} returned normally but nothing was '
                                f'committed: {rec["writes"]}')
        top = hi if c is None else c - 1
        why = ''
        for t in range(top, lo - 1, -1):
            m = model.versions[t]
            bad = next((text for fn, text in rec['reads'] if not fn(m)), None)
            if bad is not None:
                why = why or bad
                continue
            if c is not None and error is None and rec['kind'] != 'resize':
                stores = {i for i, w in rec['writes'].items() if w != ABSENT}
                # deleting what its snapshot does not hold changes nothing
                dels = {i for i, w in rec['writes'].items() if w == ABSENT
                        and i in m}
                clash = None
                for u in range(t + 1, c):
                    if model.log[u][0] == label:
                        continue
                    clash = {i for i in (stores & model.log[u][1]) |
                             (dels & model.log[u][2])
                             if m.get(i) != model.versions[c - 1].get(i)}
                    if clash:
                        break
                if clash:
                    why = why or (f'overlapping commits both stored '
                                  f'{sorted(clash)}')
                    continue
            return t
        raise Violation('isolation' if lo < top else 'wrong-result',
                        f'{label}: no state between its start and its end '
                        f'explains what it saw: {why}')

    # ------------------------------------------------------------- primitives
    def sub(self, conn, op, rec):
        """One CRUD call on a connection, recorded in rec."""
        name, id = op['op'], op.get('id')
        own = rec['writes']

        def expect(fn, text):
            snap = dict(own)
            rec['reads'].append((lambda m: fn(overlay(m, snap)), text))

        if name == 'create':
            before = own.get(id, None)
            snap = dict(own)
            own[id] = want(op['v'])
            try:
                conn.create(id, make(op['v']))
            except Exception as e:
                self.undo(own, id, before)
                if is_capacity(e):
                    self.refused(conn, id, rec, snap)
                if is_overwrite(e):
                    rec['reads'].append(
                        (lambda m: id in overlay(m, snap),
                         f'create({id!r}) was refused but the id is free'))
                raise
            rec['reads'].append(
                (lambda m: id not in overlay(m, snap),
                 f'create({id!r}) succeeded but the id exists'))
        elif name == 'update':
            before = own.get(id, None)
            snap = dict(own)
            own[id] = want(op['v'])
            try:
                ret = conn.update(id, make(op['v']))
            except Exception as e:
                self.undo(own, id, before)
                if is_capacity(e):
                    self.refused(conn, id, rec, snap)
                raise
            prev = self.after(ret)
            if prev is None:
                return
            rec['reads'].append(
                (lambda m: overlay(m, snap).get(id, NONE) == prev,
                 f'update({id!r}) returned {prev} as previous value'))
        elif name == 'delete':
            before = own.get(id, None)
            snap = dict(own)
            own[id] = ABSENT
            try:
                ret = conn.delete(id)
            except Exception:
                self.undo(own, id, before)
                raise
            got = [self.after(x) for x in (ret or ())]
            if None in got:
                return
            rec['reads'].append(
                (lambda m: got[:1] == [overlay(m, snap)[id]]
                 if id in overlay(m, snap) else not got,
                 f'delete({id!r}) returned {got}'))
        elif name == 'read':
            got = obs(conn.read(id))
            expect(lambda m: m.get(id, NONE) == got, f'read({id!r}) = {got}')
        elif name == 'readd':
            got = obs(conn.read(id, 'DEFAULT'))
            expect(lambda m: m.get(id, "'DEFAULT'") == got,
                   f'read({id!r}, default) = {got}')
        elif name == 'get':
            try:
                got = obs(conn[id])
            except KeyError:
                got = ABSENT
            expect(lambda m: m.get(id, ABSENT) == got, f'[{id!r}] = {got}')
        elif name == 'getmany':
            ids = op['ids']
            try:
                got = [obs(x) for x in conn[as_asked(op)]]
            except KeyError:
                got = None
            expect(lambda m: (got is None and not any(i in m for i in ids)) or
                   (got is not None and any(i in m for i in ids) and
                    got == [m.get(i, NONE) for i in ids]),
                   f'{ids} = {got}')
        elif name == 'has':
            got = bool(conn.container.has(id))
            expect(lambda m: (id in m) == got, f'has({id!r}) = {got}')
        elif name == 'rmw':
            got = obs(conn.read(id))
            expect(lambda m: m.get(id, NONE) == got, f'read({id!r}) = {got}')
            v = op['v']
            self.sub(conn, {'op': 'update', 'id': id, 'v': v}, rec)
        elif name in self.GROUP:
            self.group_op(conn, op, rec)
        elif name == 'edit':
            x = conn.read(id)
            got = obs(x)
            expect(lambda m: m.get(id, NONE) == got, f'read({id!r}) = {got}')
            self.store_edited(conn, op, rec, x)
        elif name == 'store':
            self.store_edited(conn, op, rec, op['object'])
        elif name == 'mutate':
            from persistent.mapping import PersistentMapping
            x = conn.read(id)
            got = obs(x)
            expect(lambda m: m.get(id, NONE) == got, f'read({id!r}) = {got}')
            if isinstance(x, PersistentMapping):
                x['n'] = op['nv']
                own[id] = obs(x)
        elif name == 'snapshot':
            got = self.read_all(conn)
            expect(lambda m: m == got, f'snapshot {got}')
        elif name == 'account':
            accounting(conn)
            got = self.listed(conn)
            expect(lambda m: m == got, f'listing {got}')
        elif name == 'minimize':
            conn.cacheMinimize()
        elif name == 'gc':
            conn.cacheGC()
        elif name == 'yield':
            self.sim.yield_to(op['to'])
        elif name == 'advance':
            self.sim.sleep(op['dt']) if op['dt'] >= 0 else None
        else:
            raise kernel.HarnessError(f'unknown operation {name}')

    GROUP = ('ginsert', 'gset', 'gdefault', 'gpop', 'gpopitem', 'gclear')

    def group_op(self, conn, op, rec):
        """The mapping interface of the (only) group, within a block."""
        name, id = op['op'], op.get('id')
        group = conn.container.primary
        own = rec['writes']
        snap = dict(own)
        self.sim.count('group-level')

        def expect(fn, text):
            rec['reads'].append((lambda m: fn(overlay(m, snap)), text))
        if name == 'gset':
            items = dict(op['items'])
            try:
                group.update({i: make(v) for i, v in items.items()})
            except Exception as e:
                if is_capacity(e):
                    self.refused_many(conn, list(items), rec, snap)
                raise
            own.update({i: want(v) for i, v in items.items()})
        elif name == 'ginsert':
            try:
                done = group.insert(id, make(op['v']))
            except Exception as e:
                if is_capacity(e):
                    self.refused(conn, id, rec, snap)
                raise
            expect(lambda m: bool(done) == (id not in m),
                   f'insert({id!r}) returned {done}')
            if done:
                own[id] = want(op['v'])
        elif name == 'gdefault':
            had = group.has_key(id)
            try:
                got = obs(group.setdefault(id, make(op['v'])))
            except Exception as e:
                if is_capacity(e):
                    self.refused(conn, id, rec, snap)
                raise
            new = want(op['v'])
            expect(lambda m: m.get(id, new) == got and bool(had) == (id in m),
                   f'setdefault({id!r}) = {got}, held before: {had}')
            if not had:
                own[id] = new
        elif name == 'gpop':
            args = ('DEFAULT',) if op.get('default') else ()
            try:
                got = obs(group.pop(id, *args))
            except KeyError as e:
                if is_conflict(e) or not is_missing(e):
                    raise
                got = ABSENT
            other = "'DEFAULT'" if args else ABSENT
            expect(lambda m: m.get(id, other) == got, f'pop({id!r}) = {got}')
            if got != other:
                own[id] = ABSENT
        elif name == 'gpopitem':
            try:
                k, v = group.popitem()
            except (KeyError, ValueError) as e:
                if isinstance(e, KeyError) and not is_missing(e) or \
                        rec.get('fault'):
                    raise
                expect(lambda m: not m, 'popitem found nothing')
                return
            got = obs(v)
            expect(lambda m: m and min(m) == k and m[k] == got,
                   f'popitem() = {k!r}, {got}')
            own[k] = ABSENT
        elif name == 'gclear':
            keys = sorted(group.keys())
            group.clear()
            expect(lambda m: sorted(m) == keys, f'cleared {keys}')
            for k in keys:
                own[k] = ABSENT

    def refused_many(self, conn, ids, rec, snap):
        self.sim.count('refused-full')
        top = self.cfg.get('exact')
        if top:
            rec['reads'].append(
                (lambda m: len(set(overlay(m, snap)) | set(ids)) > top,
                 f'{ids} were refused although there is room'))
        elif not self.concurrent:
            from citrine.storage.group import get_group_index
            g = conn.container.primary
            more = {}
            for i in ids:
                if not g.has_key(i):
                    n = get_group_index(i, len(g.collections))
                    more[n] = more.get(n, 0) + 1
            if not any(g.collections[n].size + k > g.collections[n].max_size
                       for n, k in more.items()):
                raise Violation('refused-free', f'storing {ids} was refused '
                                'although each collection has room')

    def store_edited(self, conn, op, rec, x):
        """Changes an object that was read and stores it again."""
        id, own = op['id'], rec['writes']
        if type(x) not in (list, dict) and (
                self.concurrent or rec['kind'] != 'block' or
                type(x).__name__ not in ('PersistentList',
                                         'PersistentMapping')):
            self.sub(conn, {'op': 'update', 'id': id, 'v': ['l', op['nv']]},
                     rec)
            return
        c = getattr(conn, 'container', None)
        if hasattr(c, 'primary') and (not c.primary.has_key(id) or
                                      c.has(id) > 1):
            # an object that another group holds is not stored there again:
            # changing it would change that group's copy
            x = x.copy()
        before = own.get(id, None)
        snap = dict(own)
        old = x.copy()
        if hasattr(x, 'append'):
            x.append(op['nv'])
        else:
            x['n'] = op['nv']
        own[id] = obs(x)
        self.sim.count('edited')
        try:
            conn.update(id, x)
        except Exception as e:
            # what the caller did to the object is the caller's
            x.clear()
            (x.extend if hasattr(x, 'append') else x.update)(old)
            self.undo(own, id, before)
            if is_capacity(e):
                self.refused(conn, id, rec, snap)
            raise

    def refused(self, conn, id, rec, snap):
        """A capacity error: the write needs a slot and there is none."""
        self.sim.count('refused-full')
        top = self.cfg.get('exact')
        if top:
            rec['reads'].append(
                (lambda m: id not in overlay(m, snap) and
                 len(overlay(m, snap)) >= top,
                 f'{id!r} was refused although a slot is free'))
        elif not self.concurrent:
            c = conn.container
            if c.primary.has_key(id):
                raise Violation('refused-update', f'storing {id!r} was '
                                'refused although the primary group holds it')
            if not any(col.size >= col.max_size
                       for col in c.primary.collections):
                raise Violation('refused-free', f'storing {id!r} was refused '
                                'although no collection is full')

    def after(self, x):
        """A value returned by a write, loaded after the commit."""
        try:
            return obs(x)
        except Exception as e:
            if isinstance(e, OSError) or is_conflict(e) or \
                    isinstance(e, KeyError):
                return None
            raise

    WRITES = ('create', 'update', 'delete')

    def undo(self, own, id, before):
        if self.dead:
            return               # in doubt: it may show after the restart
        if before is None:
            own.pop(id, None)
        else:
            own[id] = before

    # ---------------------------------------------------------- acceptability
    def acceptable(self, op, rec, e):
        """Is this failure one the circumstances allow?"""
        if isinstance(e, BOOMS) and rec.get('boom'):
            return True
        if is_overwrite(e):
            return True           # judged by the recorded expectation
        if is_conflict(e):
            if self.concurrent:
                self.sim.count('conflict')
                return True
            return False
        if rec.get('fault') and isinstance(e, (OSError, ValueError)):
            return True
        if self.full and isinstance(e, OSError):
            rec['fault'] = 'full'
            return True
        if is_capacity(e) and (self.strict_now or
                               self.cfg['layout'].get('strict')):
            rec['capacity'] = True
            return True
        if rec.get('bad') and isinstance(e, TypeError) and \
                'refuses to be stored' in str(e):
            return True
        return False


def as_asked(op):
    """The ids in the kind of iterable the plan asks for."""
    ids = op['ids']
    kind = op.get('as', 'list')
    if kind == 'dict' and len(set(ids)) == len(ids):
        return dict.fromkeys(ids)
    return {'tuple': tuple, 'iter': iter}.get(kind, list)(ids)


def is_missing(e):
    from ZODB.POSException import POSKeyError
    return isinstance(e, KeyError) and not isinstance(e, POSKeyError)


def accounting(conn):
    """Reported sizes and listings against enumeration (one snapshot)."""
    c = conn.container
    where = 'container'
    kv = kernel.SIM.kv
    strict = kv.cfg['layout'].get('strict') and not kv.carry.get('loosened')
    try:
        total = 0
        for gi, g in enumerate(c.groups):
            where = f'group {gi}'
            seen = set()
            gsize = 0
            maxes = 0
            worst = 0
            for ci, col in enumerate(g.collections):
                where = f'group {gi} collection {ci}'
                keys = [k for k in col.tree.keys()] if hasattr(col, 'tree') \
                    else list(col.keys())
                if list(col.keys()) != keys:
                    raise Violation('accounting', f'{where}: keys() lists '
                                    f'{list(col.keys())}, holds {keys}')
                ordered_listings(where, col, dict(col.tree.items())
                                 if hasattr(col, 'tree') else
                                 dict(col.items()))
                if col.size != len(keys):
                    raise Violation('accounting', f'{where}: size {col.size} '
                                    f'but {len(keys)} objects')
                for k in keys:
                    if k in seen:
                        raise Violation('accounting', f'{where}: {k!r} is '
                                        'held twice by one group')
                    seen.add(k)
                    if not g.has_key(k):
                        raise Violation('accounting', f'{where}: {k!r} is '
                                        'stored where lookup does not find it')
                if strict and len(keys) > col.max_size:
                    raise Violation('over-capacity', f'{where}: {len(keys)} '
                                    f'objects, maximum {col.max_size}')
                gsize += len(keys)
                maxes += col.max_size
                if abs(col.usage - len(keys) / col.max_size) > 1e-9:
                    raise Violation('accounting', f'{where}: usage '
                                    f'{col.usage}')
                worst = max(worst, status_of(len(keys), col.max_size))
                if col.status != status_of(len(keys), col.max_size):
                    raise Violation('accounting', f'{where}: status '
                                    f'{col.status} at {len(keys)} of '
                                    f'{col.max_size}')
            where = f'group {gi}'
            if g.size != gsize or len(g.keys()) != gsize:
                raise Violation('accounting', f'{where}: size {g.size}, '
                                f'{len(g.keys())} keys, holds {gsize}')
            if sorted(g.keys()) != sorted(seen):
                raise Violation('accounting', f'{where}: keys() differ')
            items = list(g.items())
            if sorted(k for k, _ in items) != sorted(seen) or \
                    len(list(g.values())) != gsize:
                raise Violation('accounting', f'{where}: items()/values() '
                                'differ from keys()')
            ordered_listings(where, g, dict(items))
            used = [col.usage for col in g.collections]
            if abs(g.highest_collection_usage - max(used)) > 1e-9 or \
                    abs(g.lowest_collection_usage - min(used)) > 1e-9 or \
                    sorted(g.collection_usage.values()) != sorted(used) or \
                    g.max_collection_size != max(
                        col.max_size for col in g.collections):
                raise Violation('accounting', f'{where}: usages '
                                f'{sorted(g.collection_usage.values())}, '
                                f'collections say {sorted(used)}')
            if g.max_size != maxes:
                raise Violation('accounting', f'{where}: max_size '
                                f'{g.max_size}, collections sum to {maxes}')
            if abs(g.usage - gsize / maxes) > 1e-9 or g.status != worst:
                raise Violation('accounting', f'{where}: usage {g.usage} '
                                f'status {g.status}')
            total += gsize
        where = 'container'
        p = c.groups[0] if c.primary is None else c.primary
        if not any(p is g for g in c.groups):
            raise Violation('accounting', 'the primary group is not one of '
                            'the groups')
        if c.size != total:
            raise Violation('accounting', f'container size {c.size}, holds '
                            f'{total}')
        if (c.used, c.capacity, c.usage, c.status) != \
                (p.size, p.max_size, p.usage, p.status):
            raise Violation('accounting', 'container figures differ from '
                            'those of its primary group')
        if (conn.used, conn.capacity, conn.usage, conn.status) != \
                (p.size, p.max_size, p.usage, p.status):
            raise Violation('accounting', 'connection figures differ from '
                            'those of its primary group')
        if c.max_size != sum(g.max_size for g in c.groups):
            raise Violation('accounting', f'container max_size {c.max_size}')
    except (Violation, kernel.HarnessError):
        raise
    except Exception as e:
        if is_conflict(e):
            raise
        if isinstance(e, OSError) or kv.dead or \
                type(e).__name__ == 'ClientDisconnected':
            raise
        if isinstance(e, AttributeError) and 'load_before' in str(e):
            raise                # ZEO: lost between its check and its call
        raise Violation('accounting-error', f'{where}: {e!r}')


def ordered_listings(where, x, items):
    """Ranges and bounds of a group or collection that holds ``items``."""
    keys = sorted(items)
    lo, hi = (keys[len(keys) // 3], keys[-1 - len(keys) // 4]) if keys \
        else ('b', 'c')
    for a, b in ((None, None), (lo, None), (None, hi), (lo, hi)):
        want = [k for k in keys if (a is None or k >= a) and
                (b is None or k <= b)]
        if list(x.iterkeys(a, b)) != want:
            raise Violation('accounting', f'{where}: iterkeys({a!r}, {b!r}) '
                            f'gives {list(x.iterkeys(a, b))}, holds {want}')
        got = list(x.iteritems(a, b))
        if [k for k, _ in got] != want or \
                any(v is not items[k] for k, v in got):
            raise Violation('accounting', f'{where}: iteritems({a!r}, {b!r})'
                            ' differs from what is held')
        got = list(x.itervalues(a, b))
        if sorted(map(id, got)) != sorted(id(items[k]) for k in want):
            raise Violation('accounting', f'{where}: itervalues({a!r}, '
                            f'{b!r}) gives {len(got)} of {len(want)} values')
    for k in items:
        if x.get(k, items) is not items[k]:
            raise Violation('accounting', f'{where}: get({k!r}) differs from '
                            'items()')
    if x.has_key('not stored') or x.get('not stored', x) is not x:
        raise Violation('accounting', f'{where}: finds what is not stored')
    if keys and (x.minKey() != keys[0] or x.maxKey() != keys[-1] or
                 x.minKey(lo) != lo or x.maxKey(hi) != hi):
        raise Violation('accounting', f'{where}: minKey/maxKey are '
                        f'{x.minKey()!r}/{x.maxKey()!r}, holds {keys[0]!r}'
                        f'..{keys[-1]!r}')


def status_of(n, size):
    from math import ceil
    u = ceil(n / size * 100)
    return max(v for v in (0, 60, 70, 80, 90) if v <= u)
