"""
The classic connection: CitrineConnection on a database whose root holds a
DbContainer.  Same simulated disk, clients, model and judgement as the
key-value scenario; the interface differs (create stores like update, writes
return nothing, deleting an absent id raises KeyError, indexing reads).
"""
from sim import gen, kernel, kv as kvmod, kvscen
from sim.client import Client, Stop, brief
from sim.values import ABSENT, make, obs, want

Violation = kernel.Violation
NONE = kvmod.NONE


def classic_db():
    from ZODB import DB
    from citrine.connection.connection import CitrineConnection

    class ClassicDb(DB):
        klass = CitrineConnection
    return ClassicDb


class ClassicKV(kvmod.KV):
    def manager(self):
        from citrine.persistence import (CitrineThreadTransactionManager,
                                         CitrineTransactionManager)
        return {'default': lambda: None,
                'thread': CitrineThreadTransactionManager,
                'single': CitrineTransactionManager}[self.cfg['tm']]()

    def open_connection(self, client):
        conn = self.db.open(transaction_manager=self.manager())
        self.claim(conn, client.name)
        return conn

    def create(self, layout):
        from ZODB.FileStorage import FileStorage
        sim = self.sim
        sim.quiet += 1
        db = classic_db()(FileStorage(self.path))
        m = {}
        if layout['n']:
            conn = db.open(transaction_manager=self.manager())
            conn.setup()
            if layout['n'] > 1:
                conn.expand_containers(layout['n'] - 1)
            for id, v in layout['fill']:
                conn.create(id, make(v))
                m[id] = want(v)
            conn.close()
        lacks = layout.get('lacks')
        if lacks:
            # set up by other means, or by a setup that was cut off
            from citrine.persistence import DbMetadata
            conn = db.open(transaction_manager=self.manager())
            with conn:
                if lacks == 'meta':
                    del conn.root.meta
                else:
                    conn.root.meta = DbMetadata()
            conn.close()
        db.close()
        self.model.rebase(m)
        sim.disk.sync_all()
        sim.quiet -= 1

    def open(self, quiet=True):
        from ZODB.FileStorage import FileStorage
        sim = self.sim
        if quiet:
            sim.quiet += 1
        try:
            kw = dict(pool_size=self.cfg.get('pool', 7),
                      cache_size=self.cfg.get('cache', 400))
            db = classic_db()(FileStorage(self.path), **kw)
        except kernel.Violation:
            raise
        except Exception as e:
            raise Violation('unopenable',
                            f'the database cannot be opened: {e!r}')
        finally:
            if quiet:
                sim.quiet -= 1
        self.db = db
        return db

    def ready(self, conn):
        return getattr(conn.root, 'container', None) is not None

    def read_all(self, conn):
        if not self.ready(conn):
            return {}
        out = {}
        for id in self.ids:
            if conn.container.has(id):
                out[id] = obs(conn.read(id))
        return out

    def listed(self, conn):
        if not self.ready(conn):
            return {}
        out = {}
        for con in conn.container.containers.values():
            for id, v in con.items():
                if id in out:
                    raise Violation('accounting', f'{id!r} is held twice')
                out[id] = obs(v)
        if conn.size != len(out):
            raise Violation('accounting', f'size {conn.size}, holds '
                            f'{len(out)}')
        n = conn.num_containers()
        if sorted(conn.container.containers) != list(range(n)):
            raise Violation('accounting', 'the sub-containers are '
                            f'{sorted(conn.container.containers)}')
        return out

    def check_state(self, kind='state', candidates=None, conn=None,
                    exact=True, renew=True):
        return super().check_state(kind, candidates, conn, False, renew)

    def sub(self, conn, op, rec):
        name, id = op['op'], op.get('id')
        own = rec['writes']

        def expect(fn, text):
            snap = dict(own)
            rec['reads'].append(
                (lambda m: fn(kvmod.overlay(m, snap)), text))

        if name in ('create', 'update'):
            before = own.get(id, None)
            own[id] = want(op['v'])
            try:
                getattr(conn, name)(id, make(op['v']))
            except Exception:
                self.undo(own, id, before)
                raise
        elif name == 'delete':
            before = own.get(id, None)
            snap = dict(own)
            own[id] = ABSENT
            try:
                conn.delete(id)
            except Exception as e:
                self.undo(own, id, before)
                if is_absent(e):
                    rec['reads'].append(
                        (lambda m: id not in kvmod.overlay(m, snap),
                         f'delete({id!r}) was refused but the id exists'))
                raise
            rec['reads'].append(
                (lambda m: id in kvmod.overlay(m, snap),
                 f'delete({id!r}) succeeded but the id is absent'))
        elif name == 'get':
            got = obs(conn[id])
            expect(lambda m: m.get(id, NONE) == got, f'[{id!r}] = {got}')
        elif name == 'getmany':
            ids = op['ids']
            got = [obs(x) for x in conn[kvmod.as_asked(op)]]
            expect(lambda m: got == [m.get(i, NONE) for i in ids],
                   f'{ids} = {got}')
        elif name == 'account':
            got = self.listed(conn)
            expect(lambda m: m == got, f'listing {got}')
        elif name == 'expand':
            self.expand(conn, op, rec)
        else:
            super().sub(conn, op, rec)

    def expand(self, conn, op, rec):
        was = conn.num_containers()
        try:
            if op.get('direct'):
                conn.container.expand_size(was + op['by'])
            else:
                conn.expand_containers(op['by'])
        except ValueError:
            if op['by'] > 0:
                raise
            rec['boom'] = True
            raise kvmod.Boom('refused')
        if op['by'] <= 0:
            raise Violation('expand', f'expanding by {op["by"]} succeeded')
        if self.concurrent:
            return
        self.sim.quiet += 1
        now = conn.num_containers()
        self.sim.quiet -= 1
        if now != was + op['by']:
            raise Violation('expand', f'{was} sub-containers expanded by '
                            f'{op["by"]} are {now}')

    def acceptable(self, op, rec, e):
        if is_absent(e):
            return True           # judged by the recorded expectation
        return super().acceptable(op, rec, e)


def is_absent(e):
    from ZODB.POSException import POSKeyError
    return isinstance(e, KeyError) and not isinstance(e, POSKeyError)


class ClassicClient(Client):
    other = None                 # its second database, while it runs

    def open_conn(self):
        super().open_conn()
        label = self.sim.task().label
        self.sim.task().label = f'{self.name}.setup'
        # cut off or refused, it is simply called again
        self.step({'n': 0, 'op': 'setup', 'retry': 5})
        self.sim.task().label = label

    def op_setup(self, op):
        conn = self.need_conn()

        def body(rec):
            conn.setup()
        rec = self.attempt(op, 'resize', body)
        if rec.get('error') is None:
            self.sim.quiet += 1
            for what in ('container', 'meta'):
                if getattr(conn.root, what, None) is None:
                    raise Violation('setup', 'setup returned and there is '
                                    f'no root.{what}')
            self.sim.quiet -= 1
        return rec

    def op_other(self, op):
        """Another database of the same process, in memory, set up and used
        in between: neither knows of the other."""
        from ZODB.MappingStorage import MappingStorage
        kv, sim = self.kv, self.sim
        sim.quiet += 1
        try:
            if self.other is None:
                db = classic_db()(MappingStorage('other'))
                conn = db.open(transaction_manager=kv.manager())
                conn.setup()
                self.other = (db, conn, {})
            db, conn, m = self.other
            # a task that is already inside a transaction of a thread-wide
            # manager is left alone: each operation is its own
            for id, v in op['v']:
                if v is None:
                    if id in m:
                        conn.delete(id)
                        del m[id]
                else:
                    conn.create(id, make(v))
                    m[id] = want(v)
            got = {}
            for con in conn.container.containers.values():
                for id, x in con.items():
                    got[id] = obs(x)
            if got != m or conn.size != len(m):
                raise Violation('other-database', 'a second database holds '
                                f'{got}, stored there: {m}')
            sim.count('other-database')
        except kernel.Violation:
            raise
        except Exception as e:
            raise Violation('other-database', 'a second database of the '
                            f'process: {op} failed: {e!r}')
        finally:
            sim.quiet -= 1

    def op_expand(self, op):
        conn = self.need_conn()

        def body(rec):
            if op.get('direct'):
                with conn:
                    self.kv.expand(conn, op, rec)
            else:
                self.kv.expand(conn, op, rec)
        return self.attempt(op, 'op', body)

    def op_manual(self, op):
        conn = self.need_conn()

        def body(rec):
            tm = conn.transaction_manager
            tm.begin()
            if op.get('by') == 'setting':
                conn.auto_transaction = False
            else:
                tm.autocommit = False
            try:
                for o in op['body']:
                    self.kv.sub(conn, o, rec)
                if op.get('end', 'ok') == 'ok':
                    tm.commit()
                else:
                    rec['boom'] = True
                    raise kvmod.boom(op, 'manual')
            except BaseException:
                tm.abort()
                raise
            finally:
                if op.get('by') == 'setting':
                    conn.auto_transaction = True
                else:
                    tm.autocommit = True
        return self.attempt(op, 'block', body)


class Classic(kvscen.KVScenario):
    name = 'classic'

    def generate(self, prop, seed):
        return generate(prop, seed)

    def simpler(self, plan):
        import json
        lay = plan['config']['layout']

        def copy():
            return json.loads(json.dumps(plan))
        if lay.get('lacks'):
            c = copy()
            del c['config']['layout']['lacks']
            yield c
        if lay['n']:
            for fi in range(len(lay['fill'])):
                c = copy()
                del c['config']['layout']['fill'][fi]
                yield c
            if lay['n'] > 1:
                c = copy()
                c['config']['layout']['n'] = 1
                yield c
        for i, ph in enumerate(plan['phases']):
            for fault in list(ph.get('faults', {})):
                c = copy()
                del c['phases'][i]['faults'][fault]
                yield c

    def make_kv(self, sim, plan, carry):
        return ClassicKV(sim, plan, carry)

    def make_client(self, kv, spec):
        return ClassicClient(kv, spec['name'], spec['ops'], spec)


W = {'create': 3, 'update': 3, 'delete': 3, 'read': 2, 'get': 1,
     'getmany': 1, 'has': 1, 'snapshot': .5, 'account': .3}


def expand(g, inner=False):
    r = g.r
    op = {'n': g.n(), 'op': 'expand',
          'by': r.choice([1, 1, 2, 3, 5, 10] + ([] if inner else [0, -1]))}
    if g.chance(.25):
        op['direct'] = True
    return op


def generate(prop, seed):
    g = gen.G(seed, prop)
    r = g.r
    multi = g.chance(.55)
    g.unique = multi
    ids = g.ids(1, 7)
    layout = {'n': 0, 'fill': []}
    if g.chance(.75):
        p = r.uniform(0, .9)
        layout = {'n': r.choice([1, 1, 2, 3, 7]),
                  'fill': [[i, g.val()] for i in ids if g.chance(p)]}
    if g.chance(.12):
        layout['lacks'] = 'meta' if layout['n'] else 'container'
    cfg = g.config(layout, ids, multi,
                   tm=r.choice(['default', 'thread', 'single']))
    if not multi:
        cfg['clean'] = g.chance(.6)
    w = dict(W, mutate=0 if multi else 1, rmw=1, edit=1)
    phases = []
    for _ in range(r.randint(1, 3)):
        if multi and g.chance(.6):
            f, ok = {}, []
        else:
            f, ok = g.io_faults(faults=.45, crash=.6)
        clients = []
        for c in range(r.randint(2, 3) if multi else 1):
            ops = []
            for _ in range(r.randint(2, 9)):
                x = r.random()
                if x < .5:
                    o = g.crud(ids, dict(w, mutate=0))
                elif x < .72:
                    o = g.block(ids, w, fail=.25, catch=0, bad=.08)
                    if g.chance(.15):
                        o['body'].insert(r.randint(0, len(o['body'])),
                                         expand(g, True))
                elif x < .84:
                    o = expand(g)
                elif x < .865:
                    o = {'n': g.n(), 'op': 'setup'}
                elif x < .88:
                    o = {'n': g.n(), 'op': 'other', 'v':
                         [[r.choice(ids), None if g.chance(.3) else g.val()]
                          for _ in range(r.randint(1, 3))]}
                elif x < .91:
                    o = {'n': g.n(), 'op': 'manual', 'body':
                         [g.crud(ids, w) for _ in range(r.randint(1, 3))],
                         'end': r.choice(['ok', 'ok', 'raise']),
                         'by': r.choice(['setting', 'manager'])}
                elif x < .95:
                    o = {'n': g.n(), 'op': 'reconn'}
                elif x < .98 or multi:
                    o = {'n': g.n(), 'op': r.choice(
                        ['minimize', 'sync', 'abort'])}
                else:
                    o = {'n': g.n(), 'op': 'pack'}
                if g.chance(.15) and o['op'] in (
                        'create', 'update', 'delete', 'block', 'expand'):
                    o['retry'] = 2
                ops.append(o)
            clients.append({'name': f'c{c}', 'ops': ops})
        phases.append({'clients': clients, 'faults': f, 'crash_ok': ok,
                       'end': r.choice(['close', 'kill', 'power']),
                       'lossy': True})
    plan = g.plan(cfg, phases)
    plan['scenario'] = 'classic'
    return plan
