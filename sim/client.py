"""Runs the operations of one client of the key-value scenario."""
from sim import kernel, values
from sim.kv import (BOOMS, NONE, accounting, boom, is_capacity, is_conflict, is_overwrite)
from sim.values import ABSENT, make, obs, want

Violation = kernel.Violation


class Stop(Exception):
    """The storage is gone: the client ends."""


def chain(e):
    """The exception and everything it was raised from or grouped with."""
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or x in seen:
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
        todo += list(getattr(x, 'exceptions', ()))
    return seen


class Client:
    def __init__(self, kv, name, ops, opts=None):
        self.kv = kv
        self.sim = kv.sim
        self.name = name
        self.ops = ops
        self.opts = opts or {}
        self.conn = None
        self.floor = 0
        self.held = {}               # slot -> (connection to the past, ...)

    # --------------------------------------------------------------- the loop
    def run(self):
        kv = self.kv
        task = self.sim.task()
        try:
            for op in self.ops:
                if kv.dead:
                    raise Stop
                task.label = f'{self.name}.{op["n"]}'
                self.step(op)
            task.label = f'{self.name}.end'
            if self.conn is not None and not kv.dead:
                self.close_conn()
            for slot in list(self.held):
                self.op_hclose({'slot': slot})
        except Stop:
            pass
        task.label = self.name

    def step(self, op):
        """One operation, retried on request while its failure is excused."""
        tries = op.get('retry', 0)
        attempt = 0
        while True:
            before = self.kv.model.now
            rec = self.once(op)
            self.kv.sim.count('op:' + op['op'])
            if rec is None or rec.get('error') is None:
                return
            if tries <= 0:
                return
            e = rec['error']
            if not (is_conflict(e) or rec.get('fault')):
                return
            attempt += 1
            self.sim.count('retry')
            if op['op'] in ('resize', 'condense') and attempt > tries + 6 \
                    and not rec.get('fault'):
                # every attempt commits steps that make other resizes fail:
                # two of them can go on like this for ever
                return
            if attempt >= 4 and rec.get('fault'):
                # the disk recovers: from here on the retry has to succeed
                self.sim.disk.spare.add(self.sim.task().label)
                self.sim.disk.capacity = None
            if attempt > tries + 2 * self.kv.model.now + 20:
                raise Violation('no-progress', f'{op} still fails after '
                                f'{attempt} attempts: {e!r}')

    # ------------------------------------------------------------ connections
    def need_conn(self):
        if self.conn is None:
            self.open_conn()
        return self.conn

    def open_conn(self):
        for attempt in range(50):
            rec = self.kv.begin(self.sim.task().label, 'open')
            self.floor = self.kv.model.now
            try:
                self.conn = self.kv.open_connection(self)
                self.kv.end(self.sim.task().label)
                self.sim.count('open-connection')
                return
            except (kernel.Violation, kernel.HarnessError, Stop):
                raise
            except Exception as e:
                self.kv.end(self.sim.task().label)
                if self.kv.dead:
                    raise Stop
                if not rec.get('fault'):
                    raise Violation('open-connection',
                                    f'a connection cannot be opened: {e!r}')
        raise Violation('open-connection', 'no connection in 50 attempts')

    def close_conn(self):
        conn, self.conn = self.conn, None
        rec = self.kv.begin(self.sim.task().label, 'close')
        try:
            self.kv.close_connection(self, conn)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            if self.kv.dead:
                raise Stop
            if not rec.get('fault'):
                raise Violation('close-connection',
                                f'closing the connection failed: {e!r}')
        self.kv.end(self.sim.task().label)

    # -------------------------------------------------------------- operations
    def once(self, op):
        kind = op['op']
        fn = getattr(self, 'op_' + kind, None)
        if fn is not None:
            return fn(op)
        return self.op_auto(op)

    def attempt(self, op, kind, body, floor=None, syncs=True):
        """Runs body(rec), then judges what happened."""
        kv = self.kv
        label = self.sim.task().label
        rec = kv.begin(label, kind)
        rec['conn'] = self.conn
        before = kv.model.now
        error = None
        try:
            body(rec)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except (Exception, *BOOMS) as e:
            error = e
        rec['error'] = error
        if kv.dead:
            kv.doubt(label, rec)
            raise Stop
        if error is not None:
            if not kv.acceptable(op, rec, error):
                raise Violation('unexpected-error',
                                f'{label} {brief(op)} failed: {error!r}')
            if is_conflict(error) and not rec.get('two') and not any(
                    kv.model.log[t][0] != label
                    for t in range(rec['start'] + 1, kv.model.now + 1)):
                raise Violation('spurious-conflict',
                                f'{label} {brief(op)}: {error!r} although '
                                'nothing was committed meanwhile')
        kv.judge(label, rec, error, floor)
        kv.end(label)
        if syncs:
            self.floor = before
        if error is not None and kv.cfg.get('clean') and not kv.concurrent:
            kv.check_state('leftover')
            kv.check_state('leftover-own', conn=self.conn, renew=False)
        if kv.cfg.get('tally') and not kv.concurrent and \
                self.conn is not None:
            kv.check_state('tally')
            kv.check_state('tally-own', conn=self.conn, renew=syncs)
        return rec

    def op_auto(self, op):
        conn = self.need_conn()
        writes = op['op'] in self.kv.WRITES

        def body(rec):
            if op.get('v', ('',))[0] == 'bad':
                rec['bad'] = True
            self.kv.sub(conn, op, rec)
        return self.attempt(op, 'op', body,
                            floor=None if writes else self.floor,
                            syncs=writes)

    def op_rmw(self, op):
        rec = self.op_auto({'n': op['n'], 'op': 'read', 'id': op['id']})
        if rec.get('error') is not None:
            return rec
        return self.op_auto({'n': op['n'], 'op': 'update', 'id': op['id'],
                             'v': op['v']})

    def op_edit(self, op):
        conn = self.need_conn()
        held = []

        def read(rec):
            x = conn.read(op['id'])
            got = obs(x)
            rec['reads'].append((lambda m: m.get(op['id'], NONE) == got,
                                 f'read({op["id"]!r}) = {got}'))
            held.append(x)
        rec = self.attempt({'n': op['n'], 'op': 'read', 'id': op['id']}, 'op',
                           read, floor=self.floor, syncs=False)
        if rec.get('error') is not None:
            return rec
        return self.attempt(
            op, 'op', lambda rec: self.kv.sub(
                conn, {**op, 'op': 'store', 'object': held[0]}, rec))

    def op_block(self, op):
        conn = self.need_conn()
        end = op.get('end', 'ok')
        via = op.get('via', 'conn')

        def body(rec):
            manager = conn if via == 'conn' else conn.transaction_manager
            if op.get('off'):
                # the end of a block switches automatic commits on again
                conn.transaction_manager.begin()
                conn.autocommit = False
            with manager:
                rec['began'] = True
                for i, o in enumerate(op['body']):
                    if end == i:
                        rec['boom'] = True
                        raise boom(op, i)
                    if o.get('v', ('',))[0] == 'bad':
                        rec['bad'] = True
                    try:
                        if o['op'] == 'resize':
                            self.resize_inside(conn, o)
                        else:
                            self.kv.sub(conn, o, rec)
                    except Exception as e:
                        if op.get('catch') and (is_overwrite(e) or
                                                is_capacity(e)):
                            continue
                        raise
                if end == 'raise':
                    rec['boom'] = True
                    raise boom(op, 'end')
            if rec.get('boom'):
                raise Violation('swallowed', 'the exception raised in the '
                                'block did not reach the caller')
        try:
            rec = self.attempt(op, 'block', body)
        finally:
            off = op.get('off') and not conn.autocommit
            if off:
                conn.autocommit = True
        if off and rec.get('began'):
            raise Violation('mode', f'{brief(op)}: automatic commits are '
                            'reported as off after the block')
        return rec

    def op_manual(self, op):
        """Automatic commits off, operations, one explicit commit, on."""
        conn = self.need_conn()
        lazy = op.get('lazy')

        def body(rec):
            if lazy:
                # the transaction is the one that began with the last sync
                rec['start'] = self.floor
            else:
                conn.transaction_manager.begin()
            conn.autocommit = False
            try:
                for o in op['body']:
                    self.kv.sub(conn, o, rec)
                if op.get('end', 'ok') == 'ok':
                    conn.transaction_manager.commit()
                else:
                    rec['boom'] = True
                    raise boom(op, 'manual')
            except BaseException:
                conn.transaction_manager.abort()
                raise
            finally:
                conn.autocommit = True
        return self.attempt(op, 'block', body,
                            floor=self.floor if lazy else None)

    def op_resize(self, op):
        conn = self.need_conn()
        how = op['how']

        def body(rec):
            tm = conn.transaction_manager
            if how == 'tm':
                if not self.sim.quiet and op.get('begin', True):
                    tm.begin()
                self.resize_inside(conn, op, tm, rec)
            elif how == 'block':
                with conn:
                    self.resize_inside(conn, op, None, rec)
            else:
                tm.begin()
                try:
                    self.resize_inside(conn, op, None, rec)
                    tm.commit()
                except BaseException:
                    tm.abort()
                    raise
        rec = self.attempt(op, 'resize', body)
        if rec.get('error') is None:
            self.sim.count('resized')
            if how == 'tm' and pending(conn):
                raise Violation('resize-uncommitted',
                                f'{brief(op)} returned with uncommitted '
                                'changes although it was given a transaction '
                                'manager')
        return rec

    op_condense = op_resize

    def resize_inside(self, conn, op, tm=None, rec=None):
        c = conn.container
        before = [name(g) for g in c.groups]
        strict = c.strict
        kw = {} if tm is None else {'transaction_manager': tm}
        transfer = op.get('transfer', True)
        if op['op'] == 'condense':
            ret = c.condense(transfer=transfer, **kw)
            want_groups = before[:1] if transfer else before
            gone = before[1:] if transfer else []
        else:
            ret = c.resize(op['cap'], op['mcs'], condense=op['condense'],
                           transfer=transfer, **kw)
            new = name(c.groups[0])
            if new in before:
                raise Violation('resize-result', 'no new primary group')
            if not transfer:
                want_groups = [new] + before
                gone = []
            elif op['condense']:
                want_groups = [new]
                gone = before
            else:
                want_groups = [new] + before[1:]
                gone = before[:1]
        if self.kv.concurrent and tm is not None:
            # another resize may follow at once; judged on single clients
            return
        if 'cap' in op:
            if c.capacity < op['cap']:
                raise Violation('resize-result', f'capacity {c.capacity} '
                                f'after a resize to {op["cap"]}')
        if c.strict != strict and not self.kv.concurrent:
            raise Violation('resize-result', f'strict was {strict}, is '
                            f'{c.strict}')
        if [name(g) for g in c.groups] != want_groups:
            raise Violation('resize-result', f'{brief(op)}: groups '
                            f'{len(before)} -> '
                            f'{describe(before, want_groups, c.groups)}')
        if [name(g) for g in ret] != gone:
            raise Violation('resize-result', f'{brief(op)} returned '
                            f'{len(ret)} groups, {len(gone)} were removed')
        for g in ret:
            if g.size:
                raise Violation('resize-result', 'a removed group still '
                                f'holds {list(g.keys())}')

    # ------------------------------------------------------------- everything
    def op_reconn(self, op):
        if self.conn is not None:
            self.close_conn()
        self.open_conn()

    def op_sync(self, op):
        conn = self.need_conn()
        self.floor = self.kv.model.now
        conn.transaction_manager.begin()

    def op_abort(self, op):
        conn = self.need_conn()
        self.floor = self.kv.model.now
        conn.transaction_manager.abort()

    def op_minimize(self, op):
        self.need_conn().cacheMinimize()

    def op_dbminimize(self, op):
        if not self.kv.concurrent:
            self.kv.db.cacheMinimize()

    def op_advance(self, op):
        self.sim.sleep(op['dt'])

    def op_skew(self, op):
        self.sim.clock_skew += op['dt']
        self.sim.count('fault:clock-jump')

    def op_pack(self, op):
        label = self.sim.task().label
        rec = self.kv.begin(label, 'pack')
        disk = self.sim.disk
        modes = disk.crash_ok
        disk.crash_ok = tuple(m for m in modes if m == 'kill')
        if self.conn is not None:
            # objects only an old snapshot refers to are collected
            self.floor = self.kv.model.now
            self.conn.transaction_manager.abort()
        disk.spare.add(label)    # an I/O error ends FileStorage's packing
        try:
            self.kv.db.pack()
            self.sim.count('pack')
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            if self.kv.dead:
                self.kv.doubt(label, rec)
                raise Stop
            if not rec.get('fault'):
                raise Violation('pack', f'packing failed: {e!r}')
        finally:
            disk.spare.discard(label)
            disk.sync_all()      # see DESIGN: FileStorage packs un-synced
            disk.crash_ok = modes
        self.kv.end(label)

    def op_strict(self, op):
        conn = self.need_conn()

        def body(rec):
            with conn:
                conn.strict = op['to']
        if not op['to']:
            self.kv.carry['firm'] = False
        elif self.kv.concurrent:
            self.kv.strict_now = self.kv.carry['strict'] = True
        rec = self.attempt(op, 'resize', body)
        if rec.get('error') is None:
            if op['to']:
                self.kv.carry['firm'] = True
            self.kv.strict_now = op['to']
            self.kv.carry['strict'] = op['to']
            if not op['to']:
                self.kv.carry['loosened'] = True
            self.sim.quiet += 1
            now = conn.strict, conn.container.strict
            self.sim.quiet -= 1
            if now != (op['to'], op['to']):
                raise Violation('strictness', f'set to {op["to"]}, reads '
                                f'{now}')

    # --------------------------------------------- connections to the past
    def op_hopen(self, op):
        import datetime
        from ZODB.utils import p64, u64
        kv = self.kv
        self.op_hclose(op)
        hist = kv.carry['history']
        i = min(int(op['pick'] * len(hist)), len(hist) - 1)
        tid = hist[i][0]
        by = op['by']
        if by == 'at':
            kw, top = {'at': tid}, u64(tid)
        elif by == 'before':
            nxt = hist[i + 1][0] if i + 1 < len(hist) else \
                p64(u64(tid) + 1)
            kw, top = {'before': nxt}, u64(nxt) - 1
        else:
            from persistent.TimeStamp import TimeStamp
            t = TimeStamp(tid)
            d = datetime.datetime(t.year(), t.month(), t.day(), t.hour(),
                                  t.minute()) + datetime.timedelta(
                                      microseconds=int(t.second() * 1e6) + 2)
            raw = u64(TimeStamp(d.year, d.month, d.day, d.hour, d.minute,
                                d.second + d.microsecond / 1000000.0).raw())
            if by == 'at-second':
                # whole seconds, around the time of the commit
                d = d.replace(microsecond=0) + datetime.timedelta(
                    seconds=1 if op['pick'] * 1000 % 1 < .5 else 0)
                raw = u64(TimeStamp(d.year, d.month, d.day, d.hour, d.minute,
                                    d.second).raw())
            if by in ('at-time', 'at-second'):
                kw, top = {'at': d}, raw
            else:
                kw, top = {'before': d}, raw - 1
        last = u64(hist[-1][0])
        if top < u64(hist[0][0]):
            return          # a time before the database was there
        label = self.sim.task().label
        rec = kv.begin(label, 'open')
        try:
            conn = kv.db.open(**kw, **kv.manager(op))
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            kv.end(label)
            if isinstance(e, ValueError) and top > last:
                return
            raise Violation('past', f'open({by}) failed: {e!r}')
        kv.end(label)
        m = None
        for t, state in hist:
            if u64(t) <= top:
                m = state
        self.held[op['slot']] = (conn, m, f'{by} of commit {i} of '
                                          f'{len(hist)}')
        self.sim.count('open-past')
        self.op_hread(op)

    def op_hread(self, op):
        if op['slot'] not in self.held:
            return
        conn, m, text = self.held[op['slot']]
        kv = self.kv
        try:
            got = kv.read_all(conn)
            listing = kv.listed(conn)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            raise Violation('past-unreadable', f'{text}: {e!r}')
        if got != m:
            raise Violation('past', f'{text}: ' + kv.describe(got, [m]))
        if listing != m:
            raise Violation('past', f'{text}, listing: '
                            + kv.describe(listing, [m]))
        accounting(conn)
        self.sim.count('read-past')

    def op_hwrite(self, op):
        if op['slot'] not in self.held:
            return
        conn, m, text = self.held[op['slot']]
        kv = self.kv
        label = self.sim.task().label
        rec = kv.begin(label, 'op')
        o = op['what']
        error = None
        try:
            if op.get('how') == 'manual':
                conn.transaction_manager.begin()
                conn.autocommit = False
                try:
                    kv.sub(conn, o, {'writes': {}, 'reads': []})
                    conn.transaction_manager.commit()
                except BaseException:
                    conn.transaction_manager.abort()
                    raise
                finally:
                    conn.autocommit = True
            elif op.get('how') == 'resize':
                o = {'op': 'resize', 'id': None}
                conn.container.resize(
                    op['cap'], 3,
                    transaction_manager=conn.transaction_manager)
            elif op.get('how') == 'strict':
                o = {'op': 'strict', 'id': None}
                with conn:
                    conn.strict = not conn.strict
            elif op['block']:
                with conn:
                    kv.sub(conn, o, {'writes': {}, 'reads': []})
            else:
                kv.sub(conn, o, {'writes': {}, 'reads': []})
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            error = e
        if rec['committed'] is not None:
            raise Violation('past-written', f'{text}: {brief(o)} through it '
                            'was committed')
        kv.end(label)
        if error is None and not (o['op'] == 'delete' and o['id'] not in m):
            raise Violation('past-written', f'{text}: {brief(o)} through it '
                            'returned normally')
        self.sim.count('refused-past-write')
        self.op_hread(op)

    def op_hclose(self, op):
        conn = self.held.pop(op['slot'], (None,))[0]
        if conn is not None:
            conn.close()

    # ---------------------------------------------------- giving back
    def op_giveback(self, op):
        conn = self.need_conn()
        kv = self.kv
        how = op['how']
        old = conn.transaction_manager

        def body(rec):
            tm = conn.transaction_manager
            try:
                if how in ('dirty', 'aborted', 'failed', 'mutated'):
                    tm.begin()
                    conn.autocommit = False
                    for o in op['body']:
                        try:
                            kv.sub(conn, o if how != 'mutated' else
                                   dict(o, op='mutate', nv=o['n']), rec)
                        except Exception as e:
                            if not (is_overwrite(e) or is_capacity(e)):
                                raise
                    if how == 'failed':
                        conn.update(op['body'][0]['id'],
                                    make(['bad', op['n']]))
                        rec['bad'] = True
                        tm.commit()
                        raise Violation('unexpected-success',
                                        'an unstorable object was stored')
                elif how == 'setting':
                    conn.autocommit = False
                elif how == 'entered':
                    conn.__enter__()
                    kv.sub(conn, {'op': 'read', 'id': op['body'][0]['id']},
                           rec)
                elif how == 'read':
                    kv.sub(conn, {'op': 'snapshot'}, rec)
                if how in ('aborted', 'failed'):
                    tm.abort()
                if how in ('dirty', 'mutated'):
                    try:
                        kv.release(conn)
                        conn.close()
                        self.conn = None
                    except Exception:
                        kv.claim(conn, self.name)
                        raise
            except (kernel.Violation, kernel.HarnessError):
                raise
            except Exception as e:
                if kv.dead:
                    raise
                tm.abort()
                if not (kv.acceptable(op, rec, e) or is_state_error(e)):
                    raise
            rec['boom'] = True
            raise boom(op, 'given back')
        rec = self.attempt(op, 'block', body, floor=self.floor)
        if self.conn is not None:
            self.close_conn()
        self.open_conn()
        self.fresh(old)
        return rec

    def fresh(self, old):
        conn = self.conn
        if conn.transaction_manager is old:
            raise Violation('carried-over', 'the connection still has its '
                            'previous transaction manager')
        if conn.autocommit is not True or \
                conn.transaction_manager.autocommit is not True:
            raise Violation('carried-over', 'a reopened connection is not in '
                            'automatic-commit mode: '
                            f'{conn.autocommit}, '
                            f'{conn.transaction_manager.autocommit}')
        if pending(conn):
            raise Violation('carried-over', 'a reopened connection has '
                            'uncommitted changes')

    def op_shared(self, op):
        """Two databases' connections under one transaction manager."""
        kv = self.kv
        self.need_conn()
        if getattr(kv, 'second', None) is None:
            return
        label = self.sim.task().label
        kv.begin(label, 'open')
        tm = kv.manager({'tm': op.get('tm', 'thread')})[
            'transaction_manager']
        try:
            a = kv.db.open(transaction_manager=tm)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            fault = kv.model.inflight[label].get('fault')
            kv.end(label)
            if kv.dead:
                raise Stop
            if not fault:
                raise Violation('open-connection', repr(e))
            return
        kv.claim(a, self.name)
        b = kv.second.open(transaction_manager=tm)
        kv.claim(b, self.name)
        kv.end(label)
        saved, self.conn = self.conn, a
        floor = self.floor
        mark = f'{self.name}-{op["n"]}'

        def body(rec):
            rec['two'] = True
            with tm:
                for o in op['body']:
                    try:
                        kv.sub(a, o, rec)
                    except Exception as e:
                        if not is_overwrite(e):
                            raise
                b.create(mark, op['n'])
                if op['end'] != 'ok':
                    rec['boom'] = True
                    raise boom(op, 'shared')
        rec = self.attempt(op, 'block', body)
        ok = rec.get('error') is None
        for conn in (a, b):
            kv.release(conn)
        label = self.sim.task().label
        kv.begin(label, 'close')
        try:
            a.close()
            b.close()
        finally:
            kv.end(label)
        self.conn, self.floor = saved, floor
        c = kv.second.open()
        got = c.read(mark)
        c.close()
        if ok != (got == op['n']):
            raise Violation('shared-manager', f'{brief(op)} '
                            f'{"returned" if ok else "failed"} but the second '
                            f'database holds {got!r}')
        return rec

    def op_check(self, op):
        if not self.kv.concurrent:
            self.kv.check_state('state')

    def op_scope(self, op):
        """`with db as conn`: a temporary connection, possibly nested."""
        kv = self.kv
        label = self.sim.task().label
        saved, self.conn = self.conn, None
        floor = self.floor
        base = label
        outcome = None
        for attempt in range(50):
            rec = kv.begin(label, 'open')
            entered = False
            try:
                self.floor = kv.model.now
                with kv.db as conn:
                    entered = True
                    kv.end(label)
                    kv.claim(conn, label)
                    self.conn = conn
                    for i, o in enumerate(op['body']):
                        self.sim.task().label = f'{base}.{o["n"]}'
                        if self.conn is not conn:
                            raise kernel.HarnessError('scope lost its conn')
                        kv.claimed(conn, base)
                        self.step(o)
                    self.sim.task().label = base
                    kv.claimed(conn, base)
                    kv.release(conn)
                    rec = kv.begin(label, 'close')
                    if op.get('end') == 'dirty':
                        # leave with uncommitted changes: they must vanish
                        rec['dirty'] = True
                        rec['conn'] = conn
                        conn.transaction_manager.begin()
                        conn.transaction_manager.autocommit = False
                        for o in op['over']:
                            try:
                                kv.sub(conn, o, {'writes': {}, 'reads': []})
                            except Exception as e:
                                if not is_overwrite(e):
                                    raise
                    if op.get('end') == 'raise' or op.get('boom'):
                        rec['boom'] = True
                        raise boom(op, 'scope')
                kv.end(label)
                if rec.get('boom'):
                    raise Violation('swallowed', 'the exception raised in '
                                    'the scope did not reach the caller')
                kv.returned(conn, label)
                break
            except (kernel.Violation, kernel.HarnessError, Stop):
                raise
            except BOOMS:
                kv.end(label)
                kv.returned(conn, label)
                break
            except Exception as e:
                if kv.dead:
                    raise Stop
                kv.end(label)
                if entered and rec.get('boom'):
                    raise Violation('swallowed', 'the exception raised in '
                                    f'the scope was replaced by {e!r}')
                if not rec.get('fault') and not (
                        rec.get('dirty') and (kv.concurrent or
                                              is_state_error(e))):
                    raise Violation('scope', f'`with db` failed: {e!r}')
                if entered:
                    kv.returned(conn, label)
                    break
        self.conn = saved
        self.floor = floor
        return None


def is_state_error(e):
    from ZODB.POSException import ConnectionStateError
    return isinstance(e, ConnectionStateError) or is_overwrite(e)


def name(group):
    return tuple(c.uuid for c in group.collections)


def describe(before, wanted, groups):
    names = {n: f'old{i}' for i, n in enumerate(before)}
    return '%s, should be %s' % (
        [names.get(name(g), 'new') for g in groups],
        [names.get(n, 'new') for n in wanted])


def pending(conn):
    """Uncommitted changes of a connection (what close() would refuse)."""
    return bool(getattr(conn, '_needs_to_join', True) is False)


def brief(op):
    text = repr({k: v for k, v in op.items() if k not in ('n', 'retry')})
    return text if len(text) < 300 else text[:300] + '...'
