"""
C17: database modules created, found, used and deleted on the simulated disk.

For every name the reference keeps the list of possible states:
  ['absent']            no directory of ours
  ['partial']           a directory that is not a module (interrupted work)
  ['module', flag, contents]
"""
import gc
import json

from sim import kernel
from sim.base import Gen, Scenario
from sim.values import make, obs, want

Violation = kernel.Violation
ROOT = '/simdisk/mods'
NAMES = ['mod', 'mod2', 'mod_x', 'mo', 'mod.bak', 'init', 'm+2', 'm(1']
IDS = ['a', 'b']
# what else can be imported
PACKAGES = ['', '"A package of its own"\n', 'DB_MODULE = False\n',
            'raise RuntimeError\n', 'DB_MODULE = DISCOVERABLE = None\n',
            'from os.path import dirname\ndb = lambda: None\n', 'not python\n']
ABSENT, PARTIAL = ['absent'], ['partial']
OWN = ('', '.index', '.index.index_tmp', '.lock', '.tmp', '.old', '.pack')


class Modules(Scenario):
    def generate(self, prop, seed):
        g = Gen(seed, prop)
        r = g.r
        names = r.sample(NAMES, r.randint(1, 4))
        phases = []
        for _ in range(r.randint(1, 4)):
            ops = []
            for _ in range(r.randint(1, 7)):
                k = g.pick({'create': 6, 'delete': 4, 'find': 2, 'put': 3,
                            'foreign': 2, 'group': 1, 'import': 1,
                            'pool': 1})
                op = {'n': g.n(), 'op': k}
                if k in ('create', 'delete', 'put', 'foreign', 'import'):
                    op['name'] = r.choice(names)
                if k == 'create':
                    op['via'] = r.choice(['fn', 'fn', 'DbModule', 'group'])
                    op['flag'] = r.random() < .6 or op['via'] != 'fn'
                    op['over'] = r.random() < .45
                    if r.random() < .08:
                        op['anon'] = True
                elif k == 'delete':
                    op['via'] = r.choice(['fn', 'fn', 'DbModule', 'group'])
                    op['empty'] = r.random() < .75
                    op['all'] = r.random() < .15
                    op['slash'] = r.random() < .2
                    op['again'] = r.random() < .3
                elif k == 'put':
                    g.serial += 1
                    op.update(id=r.choice(IDS), v=['t', g.serial])
                elif k == 'foreign':
                    op['where'] = r.choice(['in', 'in', 'cache', 'sub',
                                            'beside', 'package'])
                    op['text'] = r.randrange(len(PACKAGES))
                    op['file'] = r.choice(
                        ['{n}2', '{n}.txt', '{n}_notes', 'data.fs', '{n}-1',
                         '__init__.pyx', '__init__.py.orig', 'x__init__.py',
                         '{n}.index2', 'README', '.keep', '.{n}.swp',
                         '{x}.index', '{x}',
                         '{n}.index.bak', '.git'])
                elif k == 'pool':
                    op['steps'] = [self.pool_step(g, names)
                                   for _ in range(r.randint(1, 6))]
                ops.append(op)
            f, ok = g.io_faults(.4, .65)
            if f.get('crash') and r.random() < .7:
                f['crash'] = 1 / r.choice([4, 8, 15])
            for kind in ('eio', 'enospc'):
                if f.get(kind) and r.random() < .5:
                    f[kind] = 1 / r.choice([4, 8])
            phases.append({'ops': ops, 'faults': f, 'crash_ok': ok,
                           'end': r.choice(['close', 'kill', 'power'])})
        return g.plan('modules', phases, {
            'names': names, 'pyc': r.random() < .5})

    def pool_step(self, g, names):
        k = g.pick({'create': 4, 'delete': 3, 'put': 4, 'size': 2,
                    'read': 1})
        step = {'op': k, 'name': g.r.choice(names)}
        if k == 'create':
            step['over'] = g.r.random() < .4
        elif k == 'put':
            g.serial += 1
            step.update(id=g.r.choice(IDS), v=['t', g.serial])
        return step

    def start(self, plan):
        return {'cands': {n: [ABSENT] for n in plan['config']['names']},
                'alts': {}, 'foreign': {}, 'ghosts': [], 'power': False}

    def next_phase(self, plan, carry, k, crash):
        carry['power'] = bool(crash) and crash[0] == 'power'
        return k <= len(plan['phases'])

    def run_phase(self, sim, plan, carry, k):
        Run(sim, plan, carry).phase(k)


def forget(e):
    """Nothing that was open when it was raised lives on in an exception."""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        x.__traceback__ = None
        todo += [x.__context__, x.__cause__]
    gc.collect()


class Run:
    def __init__(self, sim, plan, carry):
        self.sim = sim
        self.plan = plan
        self.carry = carry
        self.fault = None
        sim.fault_hook = self.on_fault

    def on_fault(self, kind, what, path):
        self.fault = f'{kind}:{what}'

    # ------------------------------------------------------ possible states
    def states(self, name):
        return self.carry['cands'].setdefault(name, [ABSENT])

    def settle(self, name, states):
        out = []
        for s in states:
            if s not in out:
                out.append(s)
        self.carry['cands'][name] = out
        alts = self.carry['alts'].setdefault(name, [ABSENT])
        for s in out:
            if s not in alts:
                alts.append(s)
        self.clean()

    def clean(self):
        """When everything is on the disk, the past cannot come back."""
        d = self.sim.disk
        if not d.name_log and not any(n.pending for n in d.names.values()):
            self.carry['alts'] = {k: list(v) for k, v in
                                  self.carry['cands'].items()}

    def allow(self, name, *more):
        self.settle(name, self.states(name) + list(more))

    # ---------------------------------------------------------------- driver
    def phase(self, k):
        import sys
        sim, plan, carry = self.sim, self.plan, self.carry
        sys.dont_write_bytecode = not plan['config'].get('pyc')
        disk = sim.disk
        if ROOT not in disk.names:
            sim.quiet += 1
            disk.mkdir(ROOT)
            disk.sync_all()
            sim.quiet -= 1
        if carry['power']:
            for name, alts in carry['alts'].items():
                self.states(name).extend(s for s in alts if s not in
                                         self.states(name))
                if ABSENT in alts and len(alts) > 1 and \
                        PARTIAL not in self.states(name):
                    self.states(name).append(PARTIAL)
                elif len(alts) > 1 and PARTIAL not in self.states(name):
                    self.states(name).append(PARTIAL)
        flag = carry.pop('anon', None)
        for name in disk.listdir(ROOT) if flag is not None else ():
            if name not in carry['cands'] and not any(
                    (p + '/').startswith(f'{ROOT}/{name}/')
                    for p in carry['foreign']):
                carry['cands'][name] = [PARTIAL, ['module', flag, {}]]
        carry['alts'] = {n: [] for n in carry['cands']}
        for name in list(carry['cands']):
            self.settle(name, self.states(name))
        if k >= len(plan['phases']):
            self.last()
            return
        ph = plan['phases'][k]
        disk.faults = dict(ph.get('faults', {}))
        disk.crash_ok = tuple(ph.get('crash_ok', ()))
        self.check_foreign()
        for op in ph['ops']:
            sim.main.label = f'c.{op["n"]}'
            self.fault = None
            sim.count('op:' + op['op'])
            getattr(self, 'op_' + op['op'])(op)
            self.check_foreign()
            sim.log('done', op['n'], self.fault,
                    len(self.carry['cands']))
        sim.main.label = 'main'
        disk.faults = {}
        mode = ph.get('end', 'close')
        if mode == 'kill':
            disk.crash(['kill'], 'end')
        elif mode == 'power':
            disk.crash_ok = ('power',)
            how = sim.choose('end', lambda r: disk._draw_crash(r, 1.1),
                             ['power', 1, [1], 0])
            disk.crash(how, 'end')
        else:
            disk.sync_all()

    def last(self):
        """Whatever is left can be overwritten, used and deleted."""
        self.sim.main.label = 'last'
        self.op_find({})
        for name in sorted(self.carry['cands']):
            self.op_create({'op': 'create', 'name': name, 'via': 'fn',
                            'flag': True, 'over': True})
            self.op_put({'name': name, 'id': 'a', 'v': ['t', 1]})
            self.op_delete({'op': 'delete', 'name': name, 'via': 'fn',
                            'empty': True, 'all': False, 'slash': False})
        self.op_find({})
        self.check_foreign()

    # ----------------------------------------------------------- foreign files
    def op_foreign(self, op):
        """Somebody else's file, always fully on the disk."""
        name = op['name']
        d = f'{ROOT}/{name}'
        disk = self.sim.disk
        if op['where'] in ('beside', 'package'):
            d = ROOT
        elif d not in disk.names or not disk.names[d].isdir:
            return
        elif op['where'] == 'cache':
            d += '/__pycache__'
        elif op['where'] == 'sub':
            d += '/sub'
        # looks like the name
        other = name.replace('.', 'x').replace('+', 'm').replace('(', '')
        if other == name:
            other += 'x'
        path = f'{d}/{op["file"].format(n=name, x=other)}'
        if op['where'] == 'beside' and path[len(ROOT) + 1:] in \
                self.carry['cands']:
            return
        if op['where'] in ('cache', 'sub') and \
                op['file'].startswith('__init__'):
            return
        text = 'do not touch ' + op['file']
        if op['where'] == 'package':
            d = f'{ROOT}/pkg{op["text"]}'
            path, text = d + '/__init__.py', PACKAGES[op['text']]
        self.sim.quiet += 1
        if d not in disk.names:
            disk.mkdir(d)
        if path not in disk.names:
            with open(path, 'w') as f:
                f.write(text)
            self.carry['foreign'][path] = text
        disk.sync_all()
        self.sim.quiet -= 1
        self.clean()

    def check_foreign(self):
        names = self.sim.disk.names
        for path, text in self.carry['foreign'].items():
            n = names.get(path)
            if n is None or bytes(n.data).decode() != text:
                raise Violation('foreign-file', f'{path} was '
                                f'{"removed" if n is None else "changed"}')

    # ------------------------------------------------------------ operations
    def own(self, name):
        d = f'{ROOT}/{name}'
        return sorted(p for p in self.sim.disk.names if (
            p == d or p.startswith(d + '/')) and
            p not in self.carry['foreign'] and
            p not in self.carry['ghosts'])

    def op_create(self, op):
        from citrine.cluster_tools.dbmodule import dbmodule
        name = op['name']
        if op.get('anon'):
            return self.create_anonymous(op)
        g = None
        if op['via'] == 'group':
            g = self.group()
            if g is None:
                return
        self.fault = None
        before = list(self.states(name))
        new = ['module', op['flag'], {}]
        exists = f'{ROOT}/{name}' in self.sim.disk.names
        refuse = exists and not op['over']
        files = self.image() if refuse else None
        if not refuse:
            self.allow(name, PARTIAL, new)
        db = None
        try:
            if op['via'] == 'fn':
                path = dbmodule.create_dbmodule(
                    ROOT, name, discoverable=op['flag'], overwrite=op['over'])
                if path != f'{ROOT}/{name}':
                    raise Violation('wrong-path', path)
            elif op['via'] == 'DbModule':
                m = dbmodule.DbModule.create(ROOT, name, overwrite=op['over'])
                db = m.db
            else:
                m = g.create_dbmodule(name, overwrite=op['over'])
                db = m.db
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            e.__traceback__ = None
            if refuse:
                if not isinstance(e, OSError):
                    raise Violation('wrong-error', f'{op}: {e!r}')
                if self.image() != files:
                    raise Violation('touched', f'{op} refused, but changed '
                                    'the existing module')
                return
            if self.fault is None:
                raise Violation('create-failed', f'{op}: {e!r} although '
                                f'nothing went wrong; before: {before}')
            forget(e)
            self.sim.disk.locks.clear()
            return
        if refuse:
            raise Violation('not-refused', f'{op} although the directory '
                            'existed')
        self.settle(name, [new])
        if db is not None:
            if db.database_name != name:
                raise Violation('wrong-name', f'{db.database_name!r}')
            self.close(db)
        m = db = None
        self.verify(name, op)

    def create_anonymous(self, op):
        from citrine.cluster_tools.dbmodule import dbmodule
        before = set(self.sim.disk.listdir(ROOT))
        self.carry['anon'] = op['flag']
        try:
            path = dbmodule.create_dbmodule(ROOT, discoverable=op['flag'])
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            e.__traceback__ = None
            if self.fault is None:
                raise Violation('create-failed', f'{op}: {e!r}')
            for n in set(self.sim.disk.listdir(ROOT)) - before:
                self.settle(n, [PARTIAL, ['module', op['flag'], {}]])
            del self.carry['anon']
            return
        name = path[len(ROOT) + 1:]
        if name in before or not name.isidentifier() and '/' in name:
            raise Violation('wrong-path', path)
        self.settle(name, [['module', op['flag'], {}]])
        del self.carry['anon']
        self.verify(name, op)

    def op_delete(self, op):
        from citrine.cluster_tools.dbmodule import dbmodule
        name = op['name']
        path = f'{ROOT}/{name}'
        foreign = [p for p in self.carry['foreign']
                   if p.startswith(path + '/')]
        if path not in self.sim.disk.names:
            return
        g = None
        if op['via'] == 'group':
            g = self.group()
            if g is None:
                return
            op = dict(op, empty=True, all=False)
        self.fault = None
        before = list(self.states(name))
        self.allow(name, PARTIAL, ABSENT,
                   *[['module', s[1], {}] for s in before
                     if s[0] == 'module'])
        if op['all']:
            for p in foreign:
                del self.carry['foreign'][p]
                self.carry['ghosts'].append(p)
        given = path + '/' if op['slash'] else path
        try:
            if op['via'] == 'fn':
                dbmodule.delete_dbmodule(given, remove_empty=op['empty'],
                                         remove_all=op['all'])
            elif op['via'] == 'DbModule':
                dbmodule.DbModule.destroy(given, op['empty'], op['all'])
            else:
                g.destroy_dbmodule(name)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            e.__traceback__ = None
            if self.fault is None:
                raise Violation('delete-failed', f'{op}: {e!r} although '
                                f'nothing went wrong; before: {before}')
            return
        left = [p for p in self.own(name) if p not in (
            path, path + '/sub', path + '/__pycache__')]
        gone = path not in self.sim.disk.names
        if left:
            raise Violation('not-deleted', f'{op} left {left}')
        if not gone and (op['all'] or op['empty'] and not
                         self.sim.disk.listdir(path)):
            raise Violation('not-deleted', f'{op} left the empty directory')
        if not gone and op['empty'] and not op['all'] and not any(
                p in self.sim.disk.names for p in
                foreign + self.carry['ghosts'] + [path + '/sub']):
            # (of a foreign directory, the directory may be all there is left)
            raise Violation('not-deleted', f'{op} left the directory with '
                            f'{self.sim.disk.listdir(path)}')
        self.settle(name, [ABSENT if gone else PARTIAL])
        if op.get('again') and not gone:
            self.op_delete(dict(op, again=False))

    def op_find(self, op):
        from citrine.cluster_tools.dbmodule import dbmodule
        try:
            found = list(dbmodule.find_dbmodules(ROOT))
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            e.__traceback__ = None
            if self.fault is None:
                raise Violation('find-failed', f'{e!r}')
            return
        if self.fault is not None:
            return
        self.found(sorted(p[len(ROOT) + 1:] for p in found))

    def found(self, names, look=True):
        if len(set(names)) != len(names):
            raise Violation('found', f'listed twice: {names}')
        for name in names:
            if not any(s[0] == 'module' for s in self.states(name)):
                raise Violation('found', f'{name} passes for a module, but '
                                f'can only be {self.states(name)}')
        for name in list(self.carry['cands']):
            if name in names:
                self.settle(name, [s for s in self.states(name)
                                   if s[0] == 'module'])
                if look:
                    self.verify(name, 'find')
            else:
                left = [s for s in self.states(name) if s[0] != 'module']
                if not left:
                    raise Violation('not-found', f'{name} is complete, but '
                                    'is not found')
                self.settle(name, left)

    def verify(self, name, op):
        """A module that passes for one is complete and can be used."""
        from citrine.cluster_tools.dbmodule import dbmodule
        path = f'{ROOT}/{name}'
        self.sim.quiet += 1
        try:
            if not dbmodule.is_path_dbmodule(path):
                raise Violation('incomplete', f'after {op}: {name} is no '
                                'module')
            flag = self.attribute(path)
            db = dbmodule.import_db(path)
            contents = self.contents(db)
            dbname = db.database_name
            db.close()
            del db
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            raise Violation('not-importable', f'after {op}: {name}: {e!r}; '
                            f'possible: {self.states(name)}')
        match = [s for s in self.states(name) if s[0] == 'module' and
                 s[1] == flag and s[2] == contents]
        if not match or dbname != name:
            raise Violation('wrong-module', f'after {op}: {name} (database '
                            f'{dbname!r}) has flag {flag}, contents '
                            f'{contents}; possible: {self.states(name)}')
        self.settle(name, match)
        self.sim.count('verified')
        self.sim.quiet -= 1

    def attribute(self, path):
        from importlib.util import spec_from_file_location, module_from_spec
        spec = spec_from_file_location('M', path + '/__init__.py')
        m = module_from_spec(spec)
        spec.loader.exec_module(m)
        return m.DISCOVERABLE

    def contents(self, db):
        conn = db.open()
        out = {}
        marker = object()
        for id in IDS:
            v = conn.read(id, marker)
            if v is not marker:
                out[id] = obs(v)
        conn.close()
        return out

    def close(self, db):
        self.sim.quiet += 1
        db.close()
        self.sim.quiet -= 1

    def group(self):
        """Opens every module there is."""
        from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
        try:
            g = DbGroup(ROOT)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            forget(e)
            if self.fault is None:
                raise Violation('group-failed', f'{e!r}')
            # the databases it had opened are nobody's any more
            self.sim.disk.locks.clear()
            return None
        names = sorted(g.modules)
        self.sim.quiet += 1
        dbs = {n: self.contents(m.db) for n, m in g.modules.items()}
        for m in list(g.modules.values()):
            self.close(m.db)
        self.sim.quiet -= 1
        m = None
        gc.collect()
        if self.fault is None:
            self.found(names)
            for n, c in dbs.items():
                if not any(s[0] == 'module' and s[2] == c
                           for s in self.states(n)):
                    raise Violation('wrong-module', f'{n} has {c}, possible: '
                                    f'{self.states(n)}')
        return g

    def op_group(self, op):
        self.group()

    # A group that stays open while its modules come and go
    def op_pool(self, op):
        from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
        # only among modules whose state is known, and while nothing fails
        self.op_find(op)
        faults, self.sim.disk.faults = self.sim.disk.faults, {}
        g = None
        try:
            self.fault = None
            g = DbGroup(ROOT)
            held = set(g.modules)
            self.found(sorted(held), False)
            for n, step in enumerate(op['steps']):
                self.pool_do(g, held, step)
                self.pool_seen(g, held, step)
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            raise Violation('group-failed', f'{op}: {e!r}')
        finally:
            if g is not None:
                for m in list(g.modules.values()):
                    self.close(m.db)
            m = g = None
            gc.collect()
            self.sim.disk.faults = faults
        for name in held:
            self.verify(name, 'pool')

    def pool_do(self, g, held, step):
        name, kind = step['name'], step['op']
        path = f'{ROOT}/{name}'
        exists = path in self.sim.disk.names
        if kind == 'create':
            new = ['module', True, {}]
            over = step['over']
            refuse = exists and not over
            if not refuse:
                self.allow(name, PARTIAL, new)
            try:
                m = g.create_dbmodule(name, overwrite=over)
            except OSError as e:
                if not refuse:
                    raise
                e.__traceback__ = None
                return
            if refuse:
                raise Violation('not-refused', f'{step}')
            if m.name != name or g.modules.get(name) is not m:
                raise Violation('pool', f'{step}: not in the group')
            held.add(name)
            self.settle(name, [new])
        elif kind == 'delete':
            if not exists:
                return
            self.allow(name, PARTIAL, ABSENT, *[
                ['module', s[1], {}] for s in self.states(name)
                if s[0] == 'module'])
            g.destroy_dbmodule(name)
            held.discard(name)
            left = [p for p in self.own(name) if p not in (
                path, path + '/sub', path + '/__pycache__')]
            if left:
                raise Violation('not-deleted', f'{step} left {left}')
            self.settle(name, [PARTIAL if path in self.sim.disk.names
                               else ABSENT])
        elif kind == 'put':
            if name not in held:
                return
            before = self.states(name)
            after = [['module', s[1], dict(s[2], **{
                step['id']: want(step['v'])})] for s in before]
            self.allow(name, *after)
            conn = g.modules[name].open()
            conn.update(step['id'], make(step['v']))
            conn.close()
            self.settle(name, after)
        elif kind == 'read':
            if name in held:
                got = self.contents(g.databases[name])
                if not any(s[0] == 'module' and s[2] == got
                           for s in self.states(name)):
                    raise Violation('wrong-module', f'{name} has {got}, '
                                    f'possible: {self.states(name)}')

    def pool_seen(self, g, held, step):
        if set(g.modules) != held or set(g.databases) != held:
            raise Violation('pool', f'after {step} the group has '
                            f'{sorted(g.modules)} and {sorted(g.databases)}, '
                            f'not {sorted(held)}')
        if step['op'] == 'size':
            sizes = {sum(c) for c in self.products(
                [[len(s[2]) for s in self.states(n) if s[0] == 'module']
                 for n in sorted(held)])}
            if g.size not in sizes:
                raise Violation('pool', f'size {g.size}, stored {sizes}')

    def products(self, lists):
        import itertools
        return itertools.product(*lists)

    def op_import(self, op):
        self.use(op, None)

    def op_put(self, op):
        self.use(op, want(op['v']))

    def use(self, op, value):
        from citrine.cluster_tools.dbmodule import dbmodule
        name = op['name']
        before = list(self.states(name))
        if not all(s[0] == 'module' for s in before):
            return
        if value is not None:
            self.allow(name, *[['module', s[1], dict(s[2], **{op['id']:
                                                              value})]
                               for s in before])
        try:
            m = dbmodule.DbModule(f'{ROOT}/{name}')
            if m.name != name:
                raise Violation('wrong-name', m.name)
            conn = m.open()
            if value is not None:
                conn.update(op['id'], make(op['v']))
            conn.close()
            self.close(m.db)
            del m, conn
        except (kernel.Violation, kernel.HarnessError):
            raise
        except Exception as e:
            m = conn = None
            forget(e)
            if self.fault is None:
                raise Violation('use-failed', f'{op}: {e!r}')
            self.sim.quiet += 1
            self.sim.disk.locks.clear()
            self.sim.quiet -= 1
            return
        if value is not None:
            self.settle(name, [['module', s[1], dict(s[2], **{op['id']:
                                                              value})]
                               for s in before])
        self.verify(name, op)

    def image(self):
        out = self.sim.disk.image()
        return {p: d for p, d in out.items() if '__pycache__' not in p}
