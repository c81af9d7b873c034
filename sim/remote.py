"""
C14: clients of one storage server.

The real server (ZEO's StorageServer over a FileStorage on the simulated disk)
and the real clients (ContainerClient over ZEO's ClientStorage, each with its
network thread) run as tasks of one simulated process, connected by simulated
links (znet).  A chaos task cuts and partitions links, kills and restarts the
server and the clients.  The reference is the versioned map of the key-value
scenario: commits are noticed where the server makes them visible.
"""
import importlib
import json

from sim import kernel, kv as kvmod, znet
from sim.base import Scenario
from sim.client import Client, Stop, brief
from sim.gen import G
from sim.kv import is_capacity, is_conflict, is_overwrite, overlay, snapshot_of

Violation = kernel.Violation
ADDR = ('srv', 8100)
DIR = '/simdisk/srv'
PATH = DIR + '/db.fs'
WRITING = ('create', 'update', 'delete', 'rmw', 'resize', 'condense')


def owner(sim):
    return sim.task().name.split('.')[0]


def hook(cls, name, wrap):
    orig = cls.__dict__.get('_sim_' + name)
    if orig is None:
        orig = getattr(cls, name)
        setattr(cls, '_sim_' + name, orig)
    setattr(cls, name, wrap(orig))


class RemoteKV(kvmod.KV):
    def __init__(self, sim, plan, carry, net):
        super().__init__(sim, plan, carry, PATH)
        self.net = net
        self.concurrent = True
        self.trans = {}              # (client, transaction) -> operation
        self.serving = None
        self.voting = None
        self.server = None
        self.server_task = None
        self.starts = 0
        self.graveyard = []
        self.people = {}             # name -> client
        self.trouble = {}
        self.at_connect = {}
        self.calm = False
        net.on_connect = self.on_connect
        self.hooks()

    # ------------------------------------------------------------------ hooks
    def hooks(self):
        kv, sim = self, self.sim
        cs = importlib.import_module('ZEO.ClientStorage').ClientStorage
        zs = importlib.import_module('ZEO.StorageServer').ZEOStorage

        def begin(orig):
            def tpc_begin(self, txn, *a, **k):
                rec = kv.model.inflight.get(sim.task().label)
                if rec is not None:
                    rec['base'] = None
                    rec['base'] = snapshot_of(rec)
                kv.trans[owner(sim), id(txn)] = rec
                return orig(self, txn, *a, **k)
            return tpc_begin

        def cfinish(orig):
            def tpc_finish(self, txn, *a, **k):
                rec = kv.trans.get((owner(sim), id(txn)))
                if rec is not None:
                    rec['finishing'] = rec.get('finishing', 0) + 1
                return orig(self, txn, *a, **k)
            return tpc_finish

        def connected(orig):
            def notify_connected(self, *a, **k):
                r = orig(self, *a, **k)
                kv.on_ready(owner(sim))
                return r
            return notify_connected

        def finish(orig):
            def tpc_finish(self, id):
                kv.serving = (self.connection.sim_client, id)
                r = orig(self, id)
                kv.serving = None
                return r
            return tpc_finish
        hook(cs, 'tpc_begin', begin)
        hook(cs, 'tpc_finish', cfinish)
        hook(cs, 'notify_connected', connected)
        hook(zs, 'tpc_finish', finish)

    def on_connect(self, client):
        self.at_connect[client] = self.model.now

    def on_ready(self, client):
        """The client has verified its cache against the server."""
        c = self.people.get(client)
        self.sim.log('ready', client)
        self.sim.count('ready')
        if c is None:
            return
        c.seen = max(c.seen, self.at_connect[client])
        c.generation += 1
        if any(self.net.client_of(ct) == client and not ct.link_in.cut and
               not ct.lost for ct, _ in self.net.connections):
            self.trouble[client] = self.net.disturbed.get(client, 0)

    def healthy(self, client):
        return self.trouble.get(client, -1) == \
            self.net.disturbed.get(client, 0)

    def on_commit(self, storage, tid):
        if self.serving is None:
            return super().on_commit(storage, tid)
        sim = self.sim
        rec = self.trans.get(self.serving)
        if rec is None:
            raise kernel.HarnessError(f'commit outside: {self.serving}')
        if rec.get('applied') and rec['kind'] not in ('resize', 'connect'):
            sim.fail(Violation('applied-twice', f'{rec["label"]} was '
                               f'committed twice: {rec["writes"]}'))
        if rec.get('ended') and not rec.get('doubt'):
            sim.fail(Violation('late-commit', f'{rec["label"]} was committed '
                               'after it had ended'))
        self.apply(rec, tid)

    def apply(self, rec, tid):
        if rec['committed'] is None:
            rec['committed'] = self.model.now + 1
        rec['applied'] = rec.get('applied', 0) + 1
        if rec.get('ended'):
            self.sim.count('commit-after-failure')
        self.model.commit(rec['label'], self.effective(rec), tid)
        if self.client_of(rec).ro:
            self.sim.fail(Violation('read-only', f'{rec["label"]} was '
                                    'committed by a read-only client'))
        self.sim.log('commit', rec['label'], sorted(rec['writes'].items()))
        self.sim.count('commit')

    def on_close(self):
        if not self.closing and not self.sim.quiet and \
                not self.sim.task().quiet:
            raise kernel.HarnessError('the storage closed itself')

    def begin(self, label, kind='op'):
        rec = super().begin(label, kind)
        rec['label'] = label
        return rec

    def client_of(self, rec):
        return self.people[rec['label'].split('.')[0]]

    def acceptable(self, op, rec, e):
        from ZODB.POSException import ReadOnlyError
        if self.client_of(rec).ro and isinstance(e, ReadOnlyError) and any(
                o['op'] in WRITING for o in [op] + op.get('body', [])):
            self.sim.count('refused-read-only')
            return True
        if is_capacity(e) and self.cfg.get('newstrict'):
            return True
        return super().acceptable(op, rec, e)

    def undo(self, own, id, before):
        rec = self.model.inflight.get(self.sim.task().label)
        if rec is None or not rec.get('finishing'):
            super().undo(own, id, before)    # else it may still be committed

    def open_connection(self, client):
        conn = client.db.open(**self.manager(client.opts))
        self.claim(conn, client.name)
        return conn

    # ----------------------------------------------------------------- server
    def look(self):
        """The state of the database file: read from a copy of it."""
        import ZODB
        from ZODB.DemoStorage import DemoStorage
        from ZODB.FileStorage import FileStorage
        sim = self.sim
        me = sim.task()
        me.quiet += 1
        sim.quiet += 1
        try:
            n = sim.disk.names.get(PATH)
            if n is None or len(n.data) <= 4:
                return None
            with open('/simdisk/look.fs', 'wb') as f:
                f.write(bytes(n.data))
            base = FileStorage('/simdisk/look.fs', read_only=True)
            db = ZODB.DB(DemoStorage(base=base))
            conn = db.open()
            if not hasattr(conn.root, 'container'):
                return None
            out = {}
            c = conn.root.container
            marker = object()
            for id in self.ids:
                v = c.read(id, marker)
                if v is not marker:
                    out[id] = kvmod.obs(v)
            return out
        except kernel.Violation:
            raise
        except Exception as e:
            sim.fail(Violation('server-unreadable', f'the database of the '
                               f'server cannot be read: {e!r}'))
        finally:
            sim.quiet -= 1
            me.quiet -= 1

    def settle_server(self):
        """What the file holds: all that was committed, and nothing else but
        what the killed server was about to make visible."""
        from ZODB.FileStorage import FileStorage
        state = self.look()
        rec = self.trans.get(self.serving) if self.serving else None
        self.serving = None
        current = self.model.current
        if state is None:
            if current or self.carry.get('made'):
                self.sim.fail(Violation('durability', 'the container is gone '
                                        'from the server'))
            return
        self.carry['made'] = True
        if state == current:
            if rec is not None and (rec['kind'] != 'op' or
                                    not self.effective(rec)):
                # it may have been committed, with nothing to be seen of it
                self.model.commit(rec['label'], {}, None)
            return
        if rec is not None and not (rec.get('applied') and
                                    rec['kind'] != 'resize') and \
                state == overlay(current, self.effective(rec)):
            self.apply(rec, None)
            self.model.tids[-1] = None
            return
        self.sim.fail(Violation('durability', self.describe(
            state, [current])))

    def start_server(self):
        sim = self.sim
        self.starts += 1
        name = f'srv{self.starts}'
        sim.log('server start', name)
        self.server_task = sim.spawn(name, self.serve, daemon=True)

    def serve(self):
        from ZEO.StorageServer import StorageServer
        from ZODB.FileStorage import FileStorage
        me = self.sim.task()
        self.settle_server()
        try:
            me.quiet += 1
            fs = FileStorage(PATH)
            me.quiet -= 1
            if self.model.now and self.model.tids[-1] is None:
                self.model.tids[-1] = fs.lastTransaction()
            self.server = StorageServer(
                ADDR, {'1': fs}, invalidation_queue_size=self.cfg['queue'])
        except kernel.Violation:
            raise
        except Exception as e:
            self.sim.fail(Violation('unopenable', 'the server cannot be '
                                    f'started: {e!r}'))
        self.graveyard.append((fs, self.server))
        self.sim.count('server-start')
        self.server.loop()

    def server_up(self):
        return self.server_task is not None and \
            self.server_task.state != 'done'

    def kill_server(self, how):
        """kill -9, or a power loss of the server's machine."""
        if not self.server_up():
            return
        sim = self.sim
        sim.count('fault:server-' + how[0])
        sim.log('server killed', how[0])
        task, self.server_task = self.server_task, None
        self.graveyard.append((self.server, task))
        self.net.server_gone(task.name)
        self.server = None
        sim.disk.reboot(DIR, how)
        sim.abandon(task)

    def stop_server(self):
        me = self.sim.task()
        me.quiet += 1
        self.closing = True
        server, task = self.server, self.server_task
        self.server = self.server_task = None
        server.close()
        self.sim.join(task, 30)
        self.closing = False
        me.quiet -= 1


class RemoteClient(Client):
    def __init__(self, kv, name, ops, opts=None):
        super().__init__(kv, name, ops, opts)
        self.sync = self.opts.get('sync', False)
        self.ro = self.opts.get('ro', False)
        self.db = None
        self.seen = 0
        self.generation = 0
        self.renew = False
        self.starts = 0
        self.at = 0
        self.lives = 1
        self.task = None
        self.ended = False
        kv.people[name] = self

    # ------------------------------------------------------------------- life
    def live(self):
        task = self.sim.task()
        while self.at < len(self.ops):
            op = self.ops[self.at]
            self.at += 1
            task.label = f'{self.name}.{op["n"]}'
            self.step(op)
        self.ended = True
        while not self.kv.calm:
            self.sim.sleep(2)
        self.final()

    def step(self, op):
        tries = op.get('retry', 0)
        conflicts = 0
        while True:
            if self.db is None and op['op'] not in ('connect', 'advance') \
                    and not self.connect(op, tries=2):
                return
            rec = self.once(op)
            self.sim.count('op:' + op['op'])
            if rec is None or rec.get('error') is None or not tries:
                return
            e = rec['error']
            if rec.get('fault'):
                tries -= 1
                self.sim.sleep(3)
            elif is_conflict(e):
                conflicts += 1
                if conflicts > 2 * self.kv.model.now + 20:
                    raise Violation('no-progress', f'{op} still fails after '
                                    f'{conflicts} conflicts: {e!r}')
            else:
                return
            self.sim.count('retry')

    def killed(self):
        """The process of the client is gone."""
        sim, kv = self.sim, self.kv
        label = self.task.label
        rec = kv.model.inflight.pop(label, None)
        if rec is not None:
            rec['ended'] = rec['doubt'] = True
        kv.graveyard.append((self.db, self.conn, self.task, rec))
        if self.conn is not None:
            kv.inuse.pop(id(self.conn), None)
        self.db = self.conn = None
        sim.disk.locks -= {p for p in sim.disk.locks
                           if p.startswith(f'/simdisk/{self.name}.')}
        for t in sim.tasks:
            if t.name.startswith(f'{self.name}.io') and t.state != 'done' \
                    and t is not sim.current:
                sim.abandon(t)
        kv.trouble.pop(self.name, None)

    # -------------------------------------------------------------- operations
    def op_connect(self, op):
        self.connect(op)

    def connect(self, op, tries=4):
        from citrine.client.container_client import ContainerClient
        kv, sim = self.kv, self.sim
        self.leave()
        label = sim.task().label
        path = f'/simdisk/{self.name}.zec' if self.opts.get('persist') \
            else None
        for attempt in range(tries):
            rec = kv.begin(label, 'connect')
            excused = ADDR not in kv.net.listeners or \
                kv.net.partitioned.get(self.name)
            d0 = kv.net.disturbed.get(self.name, 0)
            s0 = kv.net.slowed.get(self.name, 0)
            starts = kv.starts
            made = kv.carry.get('made')
            before = kv.model.now
            try:
                db = ContainerClient.connect(
                    ADDR, path, wait_timeout=self.opts.get('wait', 30),
                    server_sync=self.sync,
                    cache_size=kv.cfg.get('cache', 400),
                    storage_cache_size=self.opts.get('zcache', 1 << 20),
                    **self.options())
            except (kernel.Violation, kernel.HarnessError):
                raise
            except Exception as e:
                rec['ended'] = rec['doubt'] = True
                kv.end(label)
                excused = excused or starts != kv.starts or \
                    not kv.server_up() or \
                    d0 != kv.net.disturbed.get(self.name, 0) or \
                    s0 != kv.net.slowed.get(self.name, 0) or \
                    self.ro and not made
                sim.log('connect failed', type(e).__name__)
                sim.count('connect-failed')
                if not excused:
                    raise Violation('connect', f'{label}: connecting to the '
                                    f'server failed: {e!r}')
                continue
            rec['ended'] = True
            kv.end(label)
            if kv.people.get(self.name) is self:
                self.db = db
            self.starts = starts
            self.seen = max(self.seen, rec.get('committed') or 0)
            sim.count('connected')
            self.floor = before if self.sync else self.seen
            kv.carry['made'] = True
            return True
        return False

    def options(self):
        kw = {}
        if self.kv.cfg.get('newstrict'):
            kw['strict'] = True
        if self.opts.get('nocreate'):
            kw['create_missing_container'] = False
        if self.ro:
            kw['read_only'] = True
        return kw

    def leave(self):
        if self.conn is not None:
            self.close_conn()
        if self.db is not None:
            db, self.db = self.db, None
            try:
                db.close()
            except (kernel.Violation, kernel.HarnessError):
                raise
            except Exception as e:
                if self.kv.healthy(self.name):
                    raise Violation('close', f'closing failed: {e!r}')
        self.kv.trouble.pop(self.name, None)

    def op_leave(self, op):
        self.leave()

    def lower(self):
        return self.kv.model.now if self.sync else self.seen

    def open_conn(self):
        kv = self.kv
        label = self.sim.task().label
        for attempt in range(50):
            excused = self.excuse()
            kv.begin(label, 'open')
            low = self.seen          # opening is no transaction: no sync
            try:
                self.conn = kv.open_connection(self)
                kv.end(label)
                self.floor = low
                self.sim.count('open-connection')
                return
            except (kernel.Violation, kernel.HarnessError):
                raise
            except Exception as e:
                kv.end(label)
                self.sim.log('open failed', type(e).__name__)
                if not excused():
                    raise Violation('open-connection', f'{label}: a '
                                    f'connection cannot be opened: {e!r}')
        raise Violation('open-connection', 'no connection in 50 attempts')

    def excuse(self):
        """Afterwards: has the link been in trouble meanwhile?"""
        kv, name = self.kv, self.name
        ok = kv.healthy(name)
        d0 = kv.net.disturbed.get(name, 0)
        gen = self.generation
        return lambda: not (ok and kv.healthy(name) and gen ==
                            self.generation and
                            d0 == kv.net.disturbed.get(name, 0))

    def attempt(self, op, kind, body, floor=None, syncs=True):
        kv, sim = self.kv, self.sim
        label = sim.task().label
        excused = self.excuse()
        rec = kv.begin(label, kind)
        rec['conn'] = self.conn
        low = self.lower()
        if not self.sync:
            rec['start'] = low
        if floor is not None:
            rec['start'] = floor
        error = None
        try:
            body(rec)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except (Exception, *kvmod.BOOMS) as e:
            error = e
        rec['error'] = error
        if error is not None:
            semantic = is_overwrite(error) or is_capacity(error)
            if self.starts != kv.starts and not excused() and (
                    is_conflict(error) or 'same oid' in str(error)):
                # a restarted ZEO server hands out object ids again that its
                # clients have reserved: such a client has to connect anew
                rec['fault'] = 'oids'
                sim.count('reserved-ids')
                self.renew = True
            elif excused() and not semantic:
                rec['fault'] = rec.get('fault') or 'link'
                sim.count('failed:' + type(error).__name__)
                rec['doubt'] = True
            elif not kv.acceptable(op, rec, error):
                raise Violation('unexpected-error',
                                f'{label} {brief(op)} failed: {error!r}')
            elif is_conflict(error) and not any(
                    # an earlier attempt may have been committed meanwhile
                    t != rec.get('committed')
                    for t in range(rec['start'] + 1, kv.model.now + 1)):
                raise Violation('spurious-conflict',
                                f'{label} {brief(op)}: {error!r} although '
                                'nothing was committed meanwhile')
        kv.judge(label, rec, error, rec['start'])
        rec['ended'] = True
        kv.end(label)
        if error is None and syncs:
            self.floor = max(low, rec['committed'] or 0)
        if error is None:
            self.seen = max(self.seen, rec['committed'] or 0)
        if self.renew:
            self.renew = False
            self.leave()
        return rec

    def op_reconn(self, op):
        if self.conn is not None:
            self.close_conn()
        self.open_conn()

    def op_sync(self, op):
        conn = self.need_conn()
        low = self.lower()
        excused = self.excuse()
        try:
            conn.transaction_manager.begin()
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            if not excused():
                raise Violation('unexpected-error', f'begin: {e!r}')
            self.sim.count('failed:begin')
            return None
        self.floor = low
        return None

    def op_abort(self, op):
        self.need_conn().transaction_manager.abort()

    # ------------------------------------------------------------- afterwards
    def final(self):
        """The network is well again: the client sees the latest state."""
        kv, sim = self.kv, self.sim
        sim.task().label = f'{self.name}.final'
        end = sim.now + 400
        why = None
        while sim.now < end:
            if self.db is None:
                if not self.connect({}, tries=1):
                    if self.ro and not kv.carry.get('made'):
                        return           # nobody could set it up
                    sim.sleep(1)
                    continue
            try:
                if self.conn is None:
                    self.conn = kv.open_connection(self)
                self.conn.transaction_manager.begin()
                got = kv.read_all(self.conn)
                listing = kv.listed(self.conn)
            except (kernel.Violation, kernel.HarnessError):
                raise
            except Exception as e:
                why = e
                sim.count('final-retry')
                sim.sleep(1)
                continue
            if got == kv.model.current:
                if listing != got:
                    raise Violation('listing', 'listing and lookup disagree: '
                                    + kv.describe(listing, [got]))
                return self.leave()
            why = Violation('stale', f'{self.name} still does not see the '
                            'latest state: ' +
                            kv.describe(got, [kv.model.current]))
            if self.sync:
                raise why
            sim.sleep(1)
        if isinstance(why, Violation):
            raise why
        raise Violation('no-progress', f'{self.name} has not recovered in '
                        f'400 s on a healthy network: {why!r}')


class Chaos:
    """Cuts, partitions and kills."""

    def __init__(self, kv, spec):
        self.kv = kv
        self.sim = kv.sim
        self.ops = spec['ops']

    def run(self):
        for op in self.ops:
            self.sim.task().label = f'chaos.{op["n"]}'
            getattr(self, 'op_' + op['op'])(op)

    def op_advance(self, op):
        self.sim.sleep(op['dt'])

    def op_cut(self, op):
        self.kv.net.cut(op['client'], op['up'], op['down'], op['lag_up'],
                        op['lag_down'])

    def op_partition(self, op):
        self.kv.net.partition(op['client'])
        if op['dt']:
            self.sim.sleep(op['dt'])
            self.kv.net.heal(op['client'])

    def op_heal(self, op):
        self.kv.net.heal(op['client'])

    def op_server(self, op):
        kv = self.kv
        kv.kill_server(op['how'])
        self.sim.sleep(op['dt'])
        kv.start_server()

    def op_client(self, op):
        kv, sim = self.kv, self.sim
        c = kv.people.get(op['client'])
        if c is None or c.ended or c.task is None or c.task.state == 'done':
            return
        sim.count('fault:client-kill')
        sim.log('client killed', c.name)
        kv.net.cut(c.name, op['up'], 0, op['lag_up'], 0)
        c.killed()
        old = c.task
        c.lives += 1
        c.task = sim.spawn(f'{c.name}.{c.lives}', c.live)
        sim.abandon(old)


class Remote(Scenario):
    def generate(self, prop, seed):
        g = G(seed, prop)
        r = g.r
        g.wide = g.r.random() < .05
        ids = g.ids(2, 6)
        g.unique = True
        empty = g.chance(.2)
        layout = {'strict': False, 'groups': []} if empty else \
            g.layout(ids, strict=g.chance(.1))
        cfg = {'ids': ids, 'layout': layout, 'empty': empty,
               'cache': r.choice([0, 1, 3, 400]),
               'queue': r.choice([1, 2, 100]),
               'knobs': {'preempt': dict(g.preempt(), **{
                   'loop': 10 ** r.uniform(-3, -.5),
                   'net': 10 ** r.uniform(-3, -.5)})}}
        if empty and g.chance(.3):
            cfg['newstrict'] = True
        W = {'create': 4, 'update': 4, 'delete': 3, 'read': 2, 'get': 1,
             'has': 1, 'rmw': 1}
        phases = []
        for _ in range(r.choice([1, 1, 2])):
            clients = []
            names = [f'c{i}' for i in range(r.choice([1, 2, 2, 3]))]
            for name in names:
                ops = []
                for _ in range(r.randint(2, 8)):
                    x = r.random()
                    if x < .5:
                        ops.append(g.crud(ids, W))
                    elif x < .68:
                        ops.append(g.block(ids, W, hi=4, fail=.15))
                    elif x < .76:
                        ops.append({'n': g.n(), 'op': 'sync'})
                        ops.append({'n': g.n(), 'op': 'block', 'end': 'ok',
                                    'body': [{'n': g.n(),
                                              'op': 'snapshot'}]})
                    elif x < .78:
                        ops.append(g.resize())
                    elif x < .80:
                        ops.append({'n': g.n(), 'op': 'account'})
                    elif x < .86:
                        ops.append({'n': g.n(), 'op': 'advance',
                                    'dt': r.choice([.01, .5, 3, 20, 70])})
                    elif x < .89:
                        ops.append({'n': g.n(), 'op': 'reconn'})
                    elif x < .92:
                        ops.append({'n': g.n(), 'op': 'connect'})
                    elif x < .95:
                        ops.append({'n': g.n(), 'op': 'minimize'})
                    elif x < .98:
                        ops.append({'n': g.n(), 'op': 'snapshot'})
                    else:
                        ops.append({'n': g.n(), 'op': 'leave'})
                if g.chance(.3):
                    for o in ops:
                        if o['op'] in ('create', 'update', 'delete',
                                       'block'):
                            o['retry'] = 2
                clients.append({'name': name, 'ops': ops,
                                'sync': g.chance(.5),
                                'persist': g.chance(.4),
                                'wait': r.choice([1, 5, 30]),
                                'ro': g.chance(.08),
                                'nocreate': not empty and g.chance(.1),
                                'zcache': r.choice([2000, 1 << 20])})
                if g.chance(.3):
                    clients[-1]['tm'] = r.choice(['single', 'thread'])
            chaos = []
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                chaos.append({'n': g.n(), 'op': 'advance', 'dt': r.choice(
                    [.0005, .002, .005, .01, .02, .05, .1, .5, 3, 10])})
                chaos.append(self.fault(g, names))
            clients.append({'name': 'chaos', 'ops': chaos})
            phases.append({
                'clients': clients,
                'net': {'delay': r.choice([.0001, .001, .01, .1]),
                        'slow': r.choice([0, 0, .02, .1, .3])},
                'end': r.choice(['close', 'kill', 'power'])})
        return {'scenario': 'remote', 'prop': prop, 'seed': seed,
                'config': cfg, 'phases': phases, 'choices': None}

    def fault(self, g, names):
        r = g.r
        kind = g.pick({'cut': 5, 'partition': 2, 'server': 3, 'client': 2})
        op = {'n': g.n(), 'op': kind, 'client': r.choice(names)}
        lag = [0, 0, .01, 1, 20]
        if kind == 'cut':
            op.update(up=r.choice([0, .5, 1]), down=r.choice([0, .5, 1]),
                      lag_up=r.choice(lag), lag_down=r.choice(lag))
        elif kind == 'partition':
            op['dt'] = r.choice([.01, .3, 2, 15, 50])
        elif kind == 'client':
            op.update(up=r.choice([0, .5, 1]), lag_up=r.choice(lag))
        else:
            del op['client']
            op['dt'] = r.choice([0, .1, 2, 15, 60])
            op['how'] = r.choice([['kill'], ['power', r.choice([0, .5, 1]),
                                             [r.choice([0, 1, r.random()])
                                              for _ in range(3)],
                                             r.choice([0, r.random()])]])
        return op

    def start(self, plan):
        return {'model': kvmod.Model(), 'created': False}

    def simpler(self, plan):
        def copy():
            return json.loads(json.dumps(plan))
        for gi, g in enumerate(plan['config']['layout']['groups']):
            for fi in range(len(g.get('fill', []))):
                c = copy()
                del c['config']['layout']['groups'][gi]['fill'][fi]
                yield c
        for i, ph in enumerate(plan['phases']):
            if ph['net'].get('slow'):
                c = copy()
                c['phases'][i]['net']['slow'] = 0
                yield c
            for j, cl in enumerate(ph['clients']):
                for key in ('sync', 'persist', 'ro', 'nocreate'):
                    if cl.get(key):
                        c = copy()
                        c['phases'][i]['clients'][j][key] = False
                        yield c

    # -------------------------------------------------------------- execution
    def run_phase(self, sim, plan, carry, k):
        client = importlib.import_module('ZEO.asyncio.client')
        client.local_random.seed(f"{plan['seed']}/{k}/zeo")
        final = k >= len(plan['phases'])
        phase = None if final else plan['phases'][k]
        net = sim.znet = znet.Net(sim, {} if final else phase['net'])
        kv = RemoteKV(sim, plan, carry, net)
        self.kv = kv
        if not carry['created']:
            sim.disk.mkdir(DIR)
            if not plan['config']['empty']:
                kv.create(plan['config']['layout'])
                carry['made'] = True
            carry['created'] = True
        if final:
            return self.last(kv, plan)
        sim.run([('main', lambda: self.phase(kv, phase))])
        mode = phase['end']
        how = ['kill'] if mode != 'power' else sim.choose(
            'end', lambda r: sim.disk._draw_crash(r, 1.1) if False else
            ['power', r.choice([0, .5, 1, r.random()]),
             [r.choice([0, 1, r.random()]) for _ in range(3)],
             r.choice([0, r.random()])], ['power', 1, [1], 0])
        if mode != 'close':
            sim.disk.reboot(DIR, how)
            sim.disk.crash(['kill'], 'end')

    def phase(self, kv, phase):
        sim, net = kv.sim, kv.net
        kv.start_server()
        people = []
        chaos = None
        for spec in phase['clients']:
            if spec['name'] == 'chaos':
                chaos = sim.spawn('chaos', Chaos(kv, spec).run)
                continue
            c = RemoteClient(kv, spec['name'], spec['ops'], spec)
            c.task = sim.spawn(c.name + '.1', c.live)
            people.append(c)
        if chaos is not None:
            sim.join(chaos)
        for c in people:
            net.heal(c.name)
        net.calm = True
        if not kv.server_up():
            kv.start_server()
        limit = sim.now + 5000
        while not all(c.ended for c in people):
            sim.sleep(5)
            self.late(people, limit, lambda c: c.ended)
        sim.sleep(30)
        kv.calm = True
        limit = sim.now + 3000
        for c in people:
            sim.join(c.task, limit - sim.now)
        self.late(people, limit, lambda c: c.task.state == 'done')
        if phase['end'] == 'close':
            kv.stop_server()
        else:
            kv.kill_server(['kill'])
        kv.settle_server()

    def late(self, people, limit, done):
        for c in people:
            if self.kv.sim.now >= limit and not done(c):
                raise Violation('no-progress', f'{c.task.label} does not end '
                                'although all faults are over')

    def last(self, kv, plan):
        """Everything is over: the file of the server, read directly."""
        from citrine.database.containerdb import ContainerDb
        from ZODB.FileStorage import FileStorage
        kv.settle_server()
        if kv.carry.get('made'):
            kv.sim.quiet += 1
            kv.concurrent = False
            kv.db = ContainerDb.load(FileStorage(PATH))
            kv.check_state('server-state')
            with kv.db as conn:
                wanted = plan['config']['layout']['strict'] or \
                    bool(plan['config'].get('newstrict'))
                if conn.strict != wanted:
                    raise Violation('strict', f'the container on the server '
                                    f'has strict={conn.strict}, should be '
                                    f'{wanted}')
            kv.close()

    def nontrivial(self, plan, res):
        return bool(res.stats.get('commit')) and res.switches > 0
