"""Generators of key-value plans, one per property (swarm style)."""
import random

IDS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'https://x/1', 'https://x/2',
       'ü', 'a/b', 'A', '0', '']


class G:
    def __init__(self, seed, prop):
        self.r = random.Random(f'plan/{prop}/{seed}')
        self.seed = seed
        self.prop = prop
        self.serial = 0
        self.opn = 0
        self.unique = False    # several writers: values that differ
        self.wide = self.r.random() < .08
        self.hot = None

    def n(self):
        self.opn += 1
        return self.opn

    def chance(self, p):
        return self.r.random() < p

    def val(self):
        r = self.r
        self.serial += 1
        x = r.random() if not self.unique else r.uniform(.12, 1)
        if x < .12:
            return ['e', r.choice(['zero', 'empty', 'list', 'dict', 'false',
                                   'float0', 'bytes0', 'tuple0', 'none'])]
        if x < .25:
            return ['m', self.serial]
        if x < .3:
            return ['p', self.serial]
        if x < .36:
            return ['l', self.serial]
        if x < .40:
            return ['big', self.serial, r.choice([100, 3000, 9000, 20000])]
        if x < .5:
            return ['i', self.serial]
        return ['t', self.serial]

    # ----------------------------------------------------------------- config
    def ids(self, lo=2, hi=8):
        n = self.r.randint(lo, hi)
        out = self.r.sample(IDS, n)
        if self.wide:
            # trees of several buckets; most operations stay with a few ids
            self.hot = out
            step = self.r.choice([1, 1, 2, 3])
            out = out + [f'k{i:03}' for i in
                         range(0, step * self.r.randint(35, 90), step)]
        return out

    def one(self, ids):
        if self.hot and self.r.random() < .5:
            return self.r.choice(self.hot)
        return self.r.choice(ids)

    def layout(self, ids, strict=False, groups=(1, 3), fill=(0, .9), n=None,
               room=None, empty=0.15):
        r = self.r
        out = []
        p = r.uniform(*fill)
        self.glevel = groups[0] == 1 and self.prop in (
            'C02', 'C03', 'C04', 'C07', 'C08', 'C10') and self.chance(
            .15 if groups[1] > 1 else .3)
        if self.glevel:
            groups = (1, 1)
        for gi in range(r.randint(*groups)):
            k = n or r.choice([1, 1, 2, 3, 5] if not self.wide else
                              [1, 1, 1, 2, 3])
            inside = [i for i in ids if r.random() < (p if gi == 0
                                                      else p * .7)]
            if r.random() < empty:
                inside = []
            size = r.choice([1, 2, 3, 5, 8, 50])
            if strict:
                # the fill must fit: every collection can take all of it
                size = max(size, 1)
                per = {}
                for i in inside:
                    x = int.from_bytes(i.encode()) % k
                    per[x] = per.get(x, 0) + 1
                size = max([size if room is None else 1] +
                           list(per.values()))
                if room is not None:
                    size += r.choice(room)
            out.append({'n': k, 'max': size,
                        'fill': [[i, self.val()] for i in inside]})
            if k > 1 and n is None and self.chance(.25):
                # collections of different sizes; the others have the usual
                sizes = {}
                for x in range(k):
                    need = sum(int.from_bytes(i.encode()) % k == x
                               for i in inside) if strict else 1
                    if self.chance(.6):
                        sizes[x] = max(1, need + r.choice(
                            room or [0, 1, 2, 7, 40]))
                out[-1]['sizes'] = [[x, s] for x, s in sizes.items()]
        if self.chance(.25):
            # the groups that are only read may be of the other kind
            for how in out[1:]:
                how['strict'] = self.chance(.5)
        out = {'strict': strict, 'groups': out}
        if len(out['groups']) > 1 and self.chance(.15):
            out['at'] = r.randint(1, len(out['groups']) - 1)
        return out

    def config(self, layout, ids, multi=False, **more):
        r = self.r
        c = {'ids': ids, 'layout': layout,
             'cache': r.choice([0, 1, 3, 10, 400, 400]),
             'pool': r.choice([1, 2, 7]),
             'open': r.choice(['load', 'load', 'ctor', 'path']),
             'knobs': {}}
        if multi:
            c['knobs']['preempt'] = self.preempt()
        c.update(more)
        return c

    def preempt(self):
        r = self.r

        def p(lo, hi):
            if r.random() < .15:
                return 0.0
            return 10 ** r.uniform(lo, hi)
        return {'line': p(-3, -.5), 'lock': p(-3, -.5), 'unlock': p(-3, -.5),
                'io': p(-2.5, -.5), 'stall': r.choice([0, 0, .1, .5])}

    def io_faults(self, faults=.3, crash=.6):
        """(faults, crash_ok) of a phase."""
        r = self.r
        f, ok = {}, []
        if r.random() < crash:
            f['crash'] = 1 / r.choice([8, 20, 40, 80, 150])
            ok = r.choice([['kill'], ['power'], ['kill', 'power']])
        if r.random() < faults:
            for kind in ('eio', 'enospc', 'short'):
                if r.random() < .5:
                    f[kind] = 1 / r.choice([10, 30, 80])
        return f, ok

    # ------------------------------------------------------------- operations
    CRUD = {'create': 4, 'update': 4, 'delete': 3, 'read': 2, 'readd': 1,
            'get': 1, 'getmany': 1, 'has': 1}

    def pick(self, weights):
        names = list(weights)
        return self.r.choices(names, [weights[n] for n in names])[0]

    def crud(self, ids, weights=None):
        r = self.r
        name = self.pick(weights or self.CRUD)
        op = {'n': self.n(), 'op': name, 'id': self.one(ids)}
        if name in ('create', 'update', 'rmw'):
            op['v'] = self.val()
        if name in ('mutate', 'edit'):
            self.serial += 1
            op['nv'] = self.serial
        if name == 'getmany':
            op['ids'] = r.sample(ids, r.randint(1, min(3, len(ids))))
            if self.chance(.15):
                op['ids'].append(self.one(op['ids']))
            op['as'] = r.choice(['list', 'list', 'tuple', 'iter', 'dict'])
            del op['id']
        return op

    glevel = False       # blocks also use the mapping interface of the group

    def group_op(self, ids):
        r = self.r
        name = r.choice(['gset', 'gset', 'ginsert', 'gdefault', 'gpop',
                         'gpopitem'] + ([] if self.unique else ['gclear']))
        op = {'n': self.n(), 'op': name}
        if name == 'gset':
            some = r.sample(ids, r.randint(1, min(4, len(ids))))
            op['items'] = [[i, self.val()] for i in some]
        elif name not in ('gpopitem', 'gclear'):
            op['id'] = self.one(ids)
        if name in ('ginsert', 'gdefault'):
            op['v'] = self.val()
        if name == 'gpop' and self.chance(.5):
            op['default'] = True
        return op

    def block(self, ids, weights=None, lo=1, hi=5, fail=.25, catch=.3,
              bad=0.0, resize=0.0):
        r = self.r
        if hi > 2 and self.chance(.03 if not self.wide else .2):
            lo, hi = 10, 40
        body = [self.group_op(ids) if self.glevel and self.chance(.35) else
                self.crud(ids, weights) for _ in range(r.randint(lo, hi))]
        if self.chance(bad):
            x = r.choice(body)
            x.pop('items', None)
            x.update({'op': 'update', 'id': r.choice(ids),
                      'v': ['bad', self.n()]})
        if self.chance(resize):
            # first with several writers: see known_findings.txt
            body.insert(0 if self.unique else r.randint(0, len(body)),
                        self.resize(inner=True))
        end = 'ok'
        if self.chance(fail):
            end = r.choice(['raise'] + list(range(len(body))))
        op = {'n': self.n(), 'op': 'block', 'body': body, 'end': end}
        if end != 'ok':
            self.exc(op)
        if self.chance(catch):
            op['catch'] = True
        if self.chance(.2):
            op['via'] = 'tm'
        elif self.prop in ('C02', 'C07', 'C13') and self.chance(.1):
            op['off'] = True
        return op

    def exc(self, op):
        if self.chance(.4):
            op['exc'] = self.r.choice(['interrupt', 'exit', 'closed',
                                       'hollow', 'key'])
        return op

    def resize(self, inner=False, small=False):
        r = self.r
        if not inner and self.chance(.3):
            return {'n': self.n(), 'op': 'condense',
                    'transfer': self.chance(.8),
                    'how': r.choice(['tm', 'tm', 'block', 'plain'])}
        op = {'n': self.n(), 'op': 'resize',
              'cap': r.choice([1, 2, 3, 5, 8, 20, 40] if small else
                              [3, 5, 8, 20, 40, 100]),
              'mcs': r.choice([1, 2, 3, 7, 50] if small else
                              [2, 3, 7, 50, 5000]),
              'condense': self.chance(.4), 'transfer': self.chance(.8)}
        if not inner:
            op['how'] = r.choice(['tm', 'tm', 'tm', 'block', 'plain'])
        return op

    def plan(self, config, phases):
        for ph in phases:
            for c in ph['clients']:
                if self.chance(.3):
                    c['tm'] = self.r.choice(['single', 'single', 'thread'])
                for o in c['ops']:
                    if o['op'] in ('manual', 'shared') and \
                            o.get('end') == 'raise':
                        self.exc(o)
                    if o['op'] == 'manual' and self.chance(.4):
                        o['lazy'] = True
                    if o['op'] == 'shared' and self.chance(.4):
                        o['tm'] = 'single'
        if self.glevel:
            # one group that stays: what is written to it needs no container
            for ph in phases:
                for c in ph['clients']:
                    c['ops'] = [o for o in c['ops'] if o['op'] not in
                                ('resize', 'condense')]
                    for o in c['ops']:
                        if 'body' in o:
                            o['body'] = [b for b in o['body'] if
                                         b['op'] != 'resize']
        return {'scenario': 'kv', 'prop': self.prop, 'seed': self.seed,
                'config': config, 'phases': phases, 'choices': None}


READS = {'read': 3, 'readd': 1, 'get': 2, 'getmany': 1, 'has': 1,
         'snapshot': 1}


def gen_C01(g):
    r = g.r
    ids = g.ids()
    multi = g.chance(.25)
    g.unique = multi
    cfg = g.config(g.layout(ids), ids, multi)
    phases = []
    for _ in range(r.randint(1, 3)):
        f, ok = g.io_faults(faults=.3, crash=.85)
        clients = []
        for c in range(r.randint(2, 3) if multi else 1):
            ops = []
            for _ in range(r.randint(2, 9)):
                x = r.random()
                if x < .6:
                    ops.append(g.crud(ids, {'create': 3, 'update': 4,
                                            'delete': 2, 'rmw': 1,
                                            'edit': .5}))
                elif x < .82:
                    ops.append(g.block(ids, {'create': 3, 'update': 4,
                                             'delete': 2,
                                             'mutate': 0 if multi else 1},
                                       fail=.1))
                elif x < .88:
                    ops.append(g.resize())
                elif x < .91 and not multi:
                    ops.append({'n': g.n(), 'op': 'pack'})
                elif x < .94:
                    ops.append({'n': g.n(), 'op': 'reconn'})
                elif x < .97:
                    ops.append({'n': g.n(), 'op': 'skew',
                                'dt': r.choice([-7200, -3, 5, 86400])})
                else:
                    ops.append({'n': g.n(), 'op': 'minimize'})
            if g.chance(.2):
                for o in ops:
                    if o['op'] in ('create', 'update', 'delete', 'block'):
                        o['retry'] = 3
            clients.append({'name': f'c{c}', 'ops': ops})
        phases.append({'clients': clients, 'faults': f, 'crash_ok': ok,
                       'end': r.choice(['close', 'kill', 'power', 'power']),
                       'lossy': True})
    return g.plan(cfg, phases)


def gen_C02(g):
    """Blocks, observed by readers, under faults and crashes."""
    r = g.r
    ids = g.ids(2, 6)
    multi = g.chance(.5)
    g.unique = multi
    cfg = g.config(g.layout(ids, strict=g.chance(.12)), ids, multi)
    if not multi:
        cfg['clean'] = True
    W = {'create': 3, 'update': 4, 'delete': 3, 'read': 1, 'has': .5,
         'mutate': 0 if multi else 1.5, 'rmw': 1, 'edit': .7}
    phases = []
    for _ in range(r.randint(1, 3)):
        f, ok = g.io_faults(faults=.5, crash=.5)
        clients = []
        for c in range(r.randint(1, 2) if multi else 1):
            ops = []
            for _ in range(r.randint(2, 6)):
                x = r.random()
                if x < .75:
                    ops.append(g.block(ids, W, hi=7, fail=.35, bad=.15,
                                       resize=.06))
                elif x < .85:
                    ops.append({'n': g.n(), 'op': 'manual', 'body':
                                [g.crud(ids, W) for _ in
                                 range(r.randint(1, 4))],
                                'end': r.choice(['ok', 'ok', 'raise'])})
                elif x < .95:
                    ops.append(g.crud(ids))
                else:
                    ops.append({'n': g.n(), 'op': r.choice(
                        ['reconn', 'minimize'])})
            clients.append({'name': f'c{c}', 'ops': ops})
        if multi:
            for c in range(r.randint(1, 2)):
                clients.append({'name': f'r{c}',
                                'ops': reader(g, ids, r.randint(3, 8))})
        elif g.chance(.15):
            for c in clients:
                for o in c['ops']:
                    o['retry'] = 2
        phases.append({'clients': clients, 'faults': f, 'crash_ok': ok,
                       'end': r.choice(['close', 'kill', 'power']),
                       'lossy': True})
    return g.plan(cfg, phases)


def reader(g, ids, n):
    """Operations of a client that only reads."""
    r = g.r
    ops = []
    for _ in range(n):
        x = r.random()
        if x < .4:
            ops.append({'n': g.n(), 'op': 'block', 'end': 'ok', 'body': [
                {'n': g.n(), 'op': 'snapshot'} if r.random() < .5 else
                g.crud(ids, {'read': 3, 'get': 1, 'getmany': 2, 'has': 1})
                for _ in range(r.randint(1, 4))]})
        elif x < .6:
            ops.append({'n': g.n(), 'op': 'sync'})
            ops.append({'n': g.n(), 'op': 'snapshot'})
        elif x < .7:
            ops.append({'n': g.n(), 'op': 'reconn'})
        else:
            ops.append(g.crud(ids, READS))
    return ops


def gen_C03(g):
    """Long histories of one client, no faults."""
    r = g.r
    ids = g.ids(2, 12)
    cfg = g.config(g.layout(ids, groups=(1, 4)), ids)
    W = dict(g.CRUD)
    phases = []
    for _ in range(r.randint(1, 3)):
        ops = []
        for _ in range(r.randint(8, 30)):
            x = r.random()
            if x < .68:
                ops.append(g.crud(ids, W))
            elif x < .78:
                ops.append(g.block(ids, dict(W, mutate=2, rmw=1), fail=.2))
            elif x < .84:
                ops.append(g.resize(small=g.chance(.5)))
            elif x < .87:
                ops.append({'n': g.n(), 'op': 'pack'})
            elif x < .89:
                ops.append({'n': g.n(), 'op': 'reconn'})
            elif x < .93:
                ops.append({'n': g.n(), 'op': r.choice(
                    ['minimize', 'dbminimize', 'sync', 'abort'])})
            elif x < .96:
                ops.append({'n': g.n(), 'op': 'advance',
                            'dt': r.choice([1, 60, 3600, 1e6])})
            elif x < .98:
                ops.append({'n': g.n(), 'op': 'skew',
                            'dt': r.choice([-86400, -5, 3, 1e5])})
            else:
                ops.append({'n': g.n(), 'op': 'scope', 'body': [
                    g.crud(ids, W) for _ in range(r.randint(1, 3))]})
        phases.append({'clients': [{'name': 'c0', 'ops': ops}],
                       'end': r.choice(['close', 'close', 'kill'])})
    return g.plan(cfg, phases)


def gen_C04(g):
    """Clients contending for few ids, any interleaving."""
    r = g.r
    g.unique = True
    ids = g.ids(1, 4)
    cfg = g.config(g.layout(ids, fill=(0, .7)), ids, True)
    W = {'create': 4, 'update': 3, 'delete': 3, 'read': 1, 'readd': 1,
         'get': 1, 'getmany': 1, 'has': 1}
    clients = []
    for c in range(r.randint(2, 4)):
        ops = []
        for _ in range(r.randint(2, 7)):
            x = r.random()
            if x < .5:
                ops.append(g.crud(ids, W))
            elif x < .82:
                ops.append(g.block(ids, dict(W, rmw=4, snapshot=1), fail=.15,
                                   hi=4))
            elif x < .88:
                ops.append({'n': g.n(), 'op': 'reconn'})
            elif x < .94:
                ops.append({'n': g.n(), 'op': 'sync'})
                ops.append({'n': g.n(), 'op': 'snapshot'})
            else:
                ops.append({'n': g.n(), 'op': 'scope', 'body': [
                    g.crud(ids, W) for _ in range(r.randint(1, 3))]})
        if g.chance(.3):
            for o in ops:
                if o['op'] in ('create', 'update', 'delete', 'block'):
                    o['retry'] = 2
        clients.append({'name': f'c{c}', 'ops': ops})
    return g.plan(cfg, [{'clients': clients, 'end': 'close'}])


def gen_C05(g):
    """Resizes and condenses: readers, crashes, faults, overflow."""
    r = g.r
    ids = g.ids(2, 9)
    strict = g.chance(.3)
    multi = g.chance(.35)
    g.unique = multi
    cfg = g.config(g.layout(ids, strict=strict, groups=(1, 4), fill=(.3, 1)),
                   ids, multi)
    phases = []
    for _ in range(r.randint(1, 3)):
        f, ok = ({}, []) if multi and g.chance(.6) else \
            g.io_faults(faults=.35, crash=.7)
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .7:
                o = g.resize(small=g.chance(.6))
                if g.chance(.3):
                    o['retry'] = 2
                ops.append(o)
            elif x < .8:
                ops.append(g.block(ids, {'update': 1, 'delete': 1, 'read': 1},
                                   hi=2, resize=1, fail=.3))
            elif x < .9:
                ops.append(g.crud(ids))
            elif x < .95:
                ops.append({'n': g.n(), 'op': r.choice(
                    ['reconn', 'minimize', 'sync', 'account'])})
            elif not multi:
                ops.append({'n': g.n(), 'op': 'pack'})
        clients = [{'name': 'c0', 'ops': ops}]
        if multi:
            for c in range(r.randint(1, 3)):
                clients.append({'name': f'r{c}',
                                'ops': reader(g, ids, r.randint(3, 8))})
        phases.append({'clients': clients, 'faults': f, 'crash_ok': ok,
                       'end': r.choice(['close', 'kill', 'power']),
                       'lossy': True})
    return g.plan(cfg, phases)


def gen_C06(g):
    """Writers racing resizes and condenses."""
    r = g.r
    g.unique = True
    ids = g.ids(2, 6)
    cfg = g.config(g.layout(ids, groups=(1, 3), fill=(.3, 1)), ids, True)
    clients = []
    for c in range(r.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(r.randint(1, 3)):
            o = g.resize(small=g.chance(.4))
            o['retry'] = r.choice([0, 2, 4])
            ops.append(o)
        clients.append({'name': f's{c}', 'ops': ops})
    for c in range(r.randint(1, 3)):
        ops = []
        for _ in range(r.randint(2, 7)):
            x = r.random()
            if x < .6:
                ops.append(g.crud(ids, {'create': 3, 'update': 4,
                                        'delete': 4, 'read': 1}))
            elif x < .85:
                ops.append(g.block(ids, {'create': 2, 'update': 4,
                                         'delete': 3, 'rmw': 2, 'read': 1},
                                   hi=3, fail=.1))
            elif x < .95:
                ops.append({'n': g.n(), 'op': 'sync'})
                ops.append({'n': g.n(), 'op': 'snapshot'})
            else:
                ops.append({'n': g.n(), 'op': 'reconn'})
        if g.chance(.5):
            for o in ops:
                if o['op'] in ('create', 'update', 'delete', 'block'):
                    o['retry'] = 3
        clients.append({'name': f'c{c}', 'ops': ops})
    return g.plan(cfg, [{'clients': clients, 'end': 'close'}])


def gen_C07(g):
    """Failures of every kind, and what the same connection does next."""
    r = g.r
    ids = g.ids(2, 6)
    multi = g.chance(.3)
    g.unique = multi
    strict = g.chance(.2)
    cfg = g.config(g.layout(ids, strict=strict, room=[0, 1] if strict
                            else None), ids, multi)
    cfg['clean'] = True
    W = dict(g.CRUD)
    phases = []
    for _ in range(r.randint(1, 2)):
        f = {}
        x = r.random()
        if x < .55:
            for kind in ('eio', 'enospc', 'short'):
                if r.random() < .6:
                    f[kind] = 1 / r.choice([4, 8, 20])
        clients = []
        for c in range(r.randint(2, 3) if multi else 1):
            ops = []
            for _ in range(r.randint(3, 9)):
                y = r.random()
                if y < .45:
                    ops.append(g.crud(ids, W))
                    if g.chance(.12):
                        ops[-1].update(op='update', id=r.choice(ids),
                                       v=['bad', g.n()])
                elif y < .8:
                    ops.append(g.block(ids, dict(W, mutate=0 if multi else 1),
                                       fail=.45, bad=.25))
                elif y < .86:
                    ops.append(g.resize())
                elif y < .93:
                    ops.append({'n': g.n(), 'op': 'manual', 'body':
                                [g.crud(ids, W) for _ in range(
                                    r.randint(1, 3))],
                                'end': r.choice(['ok', 'raise'])})
                else:
                    ops.append({'n': g.n(), 'op': r.choice(
                        ['minimize', 'reconn', 'sync'])})
                if g.chance(.3) and ops[-1]['op'] not in (
                        'minimize', 'reconn', 'sync', 'manual'):
                    ops[-1]['retry'] = 3
            clients.append({'name': f'c{c}', 'ops': ops})
        phases.append({'clients': clients, 'faults': f, 'crash_ok': [],
                       'end': r.choice(['close', 'kill', 'power']),
                       'lossy': True})
    return g.plan(cfg, phases)


def gen_C08(g):
    """Strict containers, close to full."""
    r = g.r
    ids = g.ids(3, 10)
    multi = g.chance(.6)
    g.unique = multi
    one = g.chance(.5)
    lay = g.layout(ids, strict=True, groups=(1, 1) if one else (1, 3),
                   fill=(0, 1), n=1 if one else None, room=[0, 0, 1, 1, 2])
    cfg = g.config(lay, ids, multi)
    tighten = multi and g.chance(.25)
    if tighten:
        # becomes strict in the course of it, whatever the others do
        one = False
        lay['strict'] = False
    W = {'create': 6, 'update': 4, 'delete': 3, 'read': 1, 'rmw': 1}
    phases = []
    plain = one and g.chance(.7)
    for _ in range(r.randint(1, 2)):
        f, ok = ({}, []) if multi and g.chance(.7) else \
            g.io_faults(faults=.2, crash=.5)
        clients = []
        for c in range(r.randint(2, 4) if multi else 1):
            ops = []
            for _ in range(r.randint(2, 8)):
                x = r.random()
                if x < .6:
                    ops.append(g.crud(ids, W))
                elif x < .85:
                    ops.append(g.block(ids, W, hi=5, fail=.15, catch=.6))
                elif tighten:
                    ops.append({'n': g.n(), 'op': 'strict', 'to': True}
                               if g.chance(.4) else g.resize(small=True))
                elif x < .93 and not plain:
                    if multi and c:
                        ops.append(g.crud(ids, W))
                    else:
                        ops.append(g.resize(small=True))
                elif x < .96 and not plain and not multi:
                    ops.append({'n': g.n(), 'op': 'strict',
                                'to': g.chance(.6)})
                else:
                    ops.append({'n': g.n(), 'op': r.choice(
                        ['reconn', 'minimize', 'sync', 'account'])})
            if g.chance(.3):
                for o in ops:
                    if o['op'] in ('create', 'update', 'delete', 'block'):
                        o['retry'] = 2
            clients.append({'name': f'c{c}', 'ops': ops})
        phases.append({'clients': clients, 'faults': f, 'crash_ok': ok,
                       'end': r.choice(['close', 'kill', 'power']),
                       'lossy': True})
    if plain:
        cfg['exact'] = lay['groups'][0]['max']
    return g.plan(cfg, phases)


def gen_C09(g):
    """`with db` scopes: nested, in several threads, with failures."""
    r = g.r
    ids = g.ids(1, 4)
    multi = g.chance(.75)
    g.unique = multi
    cfg = g.config(g.layout(ids), ids, multi, pool=r.choice([1, 1, 2, 7]))
    W = {'create': 3, 'update': 4, 'delete': 2, 'read': 2, 'get': 1}

    def scope(depth):
        body = []
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < .5:
                body.append(g.crud(ids, W))
            elif x < .7:
                body.append(g.block(ids, W, hi=3, fail=.2))
            elif x < .9 and depth < 3:
                body.append(scope(depth + 1))
            else:
                body.append({'n': g.n(), 'op': 'snapshot'})
        op = {'n': g.n(), 'op': 'scope', 'body': body}
        y = r.random()
        if y < .2:
            op['end'] = 'raise'
            g.exc(op)
        elif y < .35:
            op['end'] = 'dirty'
            op['over'] = [g.crud(ids, {'create': 1, 'update': 2, 'delete': 1})
                          for _ in range(r.randint(1, 2))]
            op['boom'] = g.chance(.4)
        return op

    clients = []
    for c in range(r.randint(2, 4) if multi else 1):
        ops = []
        for _ in range(r.randint(1, 4)):
            if g.chance(.8):
                ops.append(scope(1))
            else:
                ops.append(g.crud(ids, W) if g.chance(.6) else
                           {'n': g.n(), 'op': 'reconn'})
        clients.append({'name': f'c{c}', 'ops': ops})
    f = {}
    if g.chance(.3):
        f = {'eio': 1 / r.choice([10, 30]), 'short': 1 / r.choice([10, 30])}
    return g.plan(cfg, [{'clients': clients, 'faults': f, 'crash_ok': [],
                         'end': 'close'}])


def gen_C10(g):
    """Accounting of every state on the way."""
    r = g.r
    ids = g.ids(2, 10)
    multi = g.chance(.4)
    g.unique = multi
    cfg = g.config(g.layout(ids, strict=g.chance(.2), groups=(1, 4)), ids,
                   multi)
    cfg['tally'] = True
    if g.chance(.25):
        # collections just under (or at) one of the levels of their status
        full = r.choice(cfg['layout']['groups'])
        n = 1 if g.chance(.5) else full['n']
        per = {}
        for i, _ in full['fill']:
            x = int.from_bytes(i.encode()) % n
            per[x] = per.get(x, 0) + 1
        sizes = [k * 100 // level + 1 for k in per.values()
                 for level in (60, 70, 80, 90)
                 if k * 100 // level + 1 < k * 100 / (level - 1)]
        sizes = [x for x in sizes if x >= max(per.values())]
        if sizes:
            full['n'], full['max'] = n, r.choice(sizes)
            full.pop('sizes', None)
    phases = []
    for _ in range(r.randint(1, 3)):
        f, ok = g.io_faults(faults=.4, crash=.5)
        if multi and g.chance(.5):
            f, ok = {}, []
        clients = []
        for c in range(r.randint(2, 3) if multi else 1):
            ops = []
            for _ in range(r.randint(3, 10)):
                x = r.random()
                if x < .4:
                    ops.append(g.crud(ids, {'create': 4, 'update': 3,
                                            'delete': 4}))
                elif x < .62:
                    b = g.block(ids, {'create': 3, 'update': 2, 'delete': 3},
                                fail=.3, bad=.1)
                    b['body'].insert(r.randint(0, len(b['body'])),
                                     {'n': g.n(), 'op': 'account'})
                    if isinstance(b['end'], int):
                        b['end'] = r.randint(0, len(b['body']) - 1)
                    ops.append(b)
                elif x < .8:
                    ops.append({'n': g.n(), 'op': 'account'})
                elif x < .9:
                    ops.append(g.resize(small=True))
                elif x < .95:
                    ops.append({'n': g.n(), 'op': r.choice(
                        ['minimize', 'reconn', 'sync', 'abort'])})
                elif not multi:
                    ops.append({'n': g.n(), 'op': 'pack'})
            clients.append({'name': f'c{c}', 'ops': ops})
        phases.append({'clients': clients, 'faults': f, 'crash_ok': ok,
                       'end': r.choice(['close', 'kill', 'power']),
                       'lossy': True})
    return g.plan(cfg, phases)


def gen_C12(g):
    """Connections to moments of the past."""
    r = g.r
    ids = g.ids(2, 6)
    multi = g.chance(.4)
    g.unique = multi
    cfg = g.config(g.layout(ids), ids, multi, hpool=r.choice([0, 1, 3]),
                   hcache=r.choice([0, 2, 1000]))
    cfg['history'] = True
    phases = []
    for _ in range(r.randint(1, 3)):
        clients = []
        for c in range(r.randint(1, 2) if multi else 1):
            ops = []
            for _ in range(r.randint(3, 10)):
                x = r.random()
                if x < .5:
                    ops.append(g.crud(ids, {'create': 3, 'update': 4,
                                            'delete': 3}))
                elif x < .65:
                    ops.append(g.block(ids, hi=3, fail=.1))
                elif x < .75:
                    ops.append(g.resize(small=True))
                elif x < .85:
                    ops.append({'n': g.n(), 'op': 'skew', 'dt': r.choice(
                        [-86400, -3600, -1, .5, 60, 1e5])})
                else:
                    ops.append({'n': g.n(), 'op': 'advance',
                                'dt': r.choice([.001, 1, 61, 301, 4000])})
                if not multi and g.chance(.6):
                    ops += past(g, ids)
            clients.append({'name': f'c{c}', 'ops': ops})
        if multi:
            for c in range(r.randint(1, 2)):
                ops = []
                for _ in range(r.randint(3, 7)):
                    ops += past(g, ids)
                clients.append({'name': f'h{c}', 'ops': ops})
        phases.append({'clients': clients, 'end': r.choice(
            ['close', 'close', 'kill'])})
    return g.plan(cfg, phases)


def past(g, ids):
    r = g.r
    out = []
    for _ in range(r.randint(1, 3)):
        x = r.random()
        slot = r.randint(0, 2)
        if x < .4:
            out.append({'n': g.n(), 'op': 'hopen', 'slot': slot,
                        'pick': r.random(),
                        'by': r.choice(['at', 'before', 'at-time',
                                        'before-time', 'at-second'])})
            if g.chance(.25):
                out[-1]['tm'] = r.choice(['single', 'thread'])
        elif x < .75:
            out.append({'n': g.n(), 'op': 'hread', 'slot': slot})
        elif x < .9:
            o = g.crud(ids, {'create': 1, 'update': 1, 'delete': 1})
            out.append({'n': g.n(), 'op': 'hwrite', 'slot': slot, 'what': o,
                        'block': g.chance(.4)})
            if g.chance(.35):
                out[-1].update(how=r.choice(['manual', 'resize', 'strict']),
                               cap=r.choice([2, 8, 40]))
        else:
            out.append({'n': g.n(), 'op': 'hclose', 'slot': slot})
    return out


def gen_C13(g):
    """Connections given back in every condition, and used again."""
    r = g.r
    ids = g.ids(1, 5)
    multi = g.chance(.6)
    g.unique = multi
    cfg = g.config(g.layout(ids), ids, multi, pool=r.choice([1, 1, 2, 3]))
    W = {'create': 3, 'update': 4, 'delete': 3, 'read': 2, 'rmw': 1}
    clients = []
    for c in range(r.randint(2, 4) if multi else 1):
        ops = []
        for _ in range(r.randint(4, 12)):
            x = r.random()
            if x < .35:
                ops.append(g.crud(ids, W))
            elif x < .45:
                ops.append(g.block(ids, dict(W, mutate=0 if multi else 1),
                                   fail=.3, bad=.1))
            elif x < .75:
                ops.append({'n': g.n(), 'op': 'giveback', 'how': r.choice(
                    ['clean', 'dirty', 'setting', 'entered', 'aborted',
                     'failed', 'read', 'mutated' if not multi else 'dirty']),
                    'body': [g.crud(ids, {'create': 2, 'update': 3,
                                          'delete': 2})
                             for _ in range(r.randint(1, 3))]})
            elif x < .87:
                ops.append({'n': g.n(), 'op': 'shared', 'end': r.choice(
                    ['ok', 'ok', 'abort']), 'body':
                    [g.crud(ids, {'create': 2, 'update': 3, 'delete': 2})
                     for _ in range(r.randint(1, 3))]})
            elif x < .93:
                ops.append({'n': g.n(), 'op': 'scope', 'body': [
                    g.crud(ids, W) for _ in range(r.randint(1, 3))]})
            else:
                ops.append({'n': g.n(), 'op': r.choice(['sync', 'minimize',
                                                        'snapshot'])})
        clients.append({'name': f'c{c}', 'ops': ops})
    f = {}
    if g.chance(.3):
        f = {'eio': 1 / r.choice([10, 30]), 'enospc': 1 / r.choice([10, 30])}
    return g.plan(cfg, [{'clients': clients, 'faults': f, 'crash_ok': [],
                         'end': 'close'}])


def generate(prop, seed):
    g = G(seed, prop)
    return globals()['gen_' + prop](g)
