"""Key-value scenario: phases of clients working on one ContainerDb."""
from sim import kernel, kv as kvmod, gen
from sim.client import Client, Stop

Violation = kernel.Violation


def plan_prop(kv):
    return kv.plan['prop']


class KVScenario:
    name = 'kv'
    multi = True

    # ----------------------------------------------------------------- plans
    def generate(self, prop, seed):
        return gen.generate(prop, seed)

    def start(self, plan):
        return {'model': kvmod.Model(), 'created': False}

    def initial_image(self, plan):
        return {}

    def op_lists(self, plan):
        out = []
        if len(plan['phases']) > 1:
            out.append(['phases'])
        for i, ph in enumerate(plan['phases']):
            if len(ph['clients']) > 1:
                out.append(['phases', i, 'clients'])
            for j, c in enumerate(ph['clients']):
                out.append(['phases', i, 'clients', j, 'ops'])
                for m, op in enumerate(c['ops']):
                    if 'body' in op and len(op['body']) > 1:
                        out.append(['phases', i, 'clients', j, 'ops', m,
                                    'body'])
        return out

    def simpler(self, plan):
        import json

        def copy():
            return json.loads(json.dumps(plan))
        lay = plan['config']['layout']
        for gi, g in enumerate(lay['groups']):
            for fi in range(len(g.get('fill', []))):
                c = copy()
                del c['config']['layout']['groups'][gi]['fill'][fi]
                yield c
        if len(lay['groups']) > 1:
            c = copy()
            c['config']['layout']['groups'].pop()
            yield c
        for gi, g in enumerate(lay['groups']):
            if g['n'] > 1:
                c = copy()
                c['config']['layout']['groups'][gi]['n'] = 1
                yield c
        if plan['config'].get('cache', 400) != 400:
            c = copy()
            c['config']['cache'] = 400
            yield c
        for i, ph in enumerate(plan['phases']):
            for fault in list(ph.get('faults', {})):
                c = copy()
                del c['phases'][i]['faults'][fault]
                yield c
            for j, cl in enumerate(ph['clients']):
                for m, op in enumerate(cl['ops']):
                    for key in ('retry', 'catch'):
                        if op.get(key):
                            c = copy()
                            del c['phases'][i]['clients'][j]['ops'][m][key]
                            yield c
                    if op['op'] in ('block', 'scope') and op['body'] and \
                            op['op'] == 'block':
                        c = copy()
                        sub = dict(op['body'][0])
                        sub['n'] = op['n']
                        c['phases'][i]['clients'][j]['ops'][m] = sub
                        if sub['op'] != 'resize':
                            yield c

    def nontrivial(self, plan, res):
        s = res.stats
        return bool(s.get('commit')) and (res.switches > 0 or any(
            k.startswith(('fault:', 'crash')) for k in s) or
            self.quiet_counts(plan, res))

    def quiet_counts(self, plan, res):
        return len(plan['phases']) > 1

    def op_counts(self, plan):
        out = {}

        def add(op):
            k = op['op']
            out[k] = out.get(k, 0) + 1
            for o in op.get('body', ()):
                add(o)
        for ph in plan['phases']:
            for c in ph['clients']:
                for op in c['ops']:
                    add(op)
        return out

    def brief(self, plan):
        import json
        text = json.dumps({'config': plan['config'],
                           'phases': plan['phases']})
        return text if len(text) < 3000 else text[:3000] + '...'

    def next_phase(self, plan, carry, k, crash):
        # one more phase than listed: the last opening checks what survived
        return k <= len(plan['phases'])

    def finish(self, plan, carry):
        return []

    # ------------------------------------------------------------- execution
    def run_phase(self, sim, plan, carry, k):
        kv = self.make_kv(sim, plan, carry)
        final = k >= len(plan['phases'])
        if not carry['created']:
            kv.create(plan['config']['layout'])
            carry['created'] = True
        kv.open()
        kv.settle()
        self.opened(kv, k)
        if final:
            kv.close()
            return
        phase = plan['phases'][k]
        disk = sim.disk
        disk.faults = dict(phase.get('faults', {}))
        disk.crash_ok = tuple(phase.get('crash_ok', ()))
        if phase.get('room') is not None:
            disk.capacity = disk.total() + phase['room']
            kv.full = True
        only = phase.get('fault_ops')
        if only:
            disk.fault_filter = lambda kind, what, path: what in only
        self.clients(kv, phase)
        disk.faults = {}
        disk.capacity = None
        kv.full = False
        mode = phase.get('end', 'close')
        if kv.dead:
            mode = 'kill'
        else:
            disk.crash_ok = ()
            kv.check_state('state')
            kv.all_returned()
            self.phase_end(kv, phase)
        if mode == 'close':
            kv.close()
            disk.crash_ok = ('power',)
            how = sim.choose('end', lambda r: disk._draw_crash(r, 1.1)
                             if r.random() < .5 and phase.get('lossy')
                             else None)
            if how:
                disk.crash(how, 'closed')
        elif mode == 'kill':
            disk.crash(['kill'], 'end')
        else:
            disk.crash_ok = ('power',)
            how = sim.choose('end', lambda r: disk._draw_crash(r, 1.1),
                             ['power', 1, [1], 0])
            disk.crash(how, 'end')

    def make_kv(self, sim, plan, carry):
        return kvmod.KV(sim, plan, carry)

    def opened(self, kv, k):
        kv.second = None
        if plan_prop(kv) == 'C13':
            from citrine.database.containerdb import ContainerDb
            from ZODB.MappingStorage import MappingStorage
            kv.sim.quiet += 1
            kv.second = ContainerDb(MappingStorage())
            kv.sim.quiet -= 1

    def phase_end(self, kv, phase):
        pass

    def make_client(self, kv, spec):
        return Client(kv, spec['name'], spec['ops'], spec)

    def clients(self, kv, phase):
        specs = phase['clients']
        sim = kv.sim
        if len(specs) == 1 and not phase.get('threaded'):
            self.make_client(kv, specs[0]).run()
            sim.main.label = 'main'
            return
        kv.concurrent = True
        sim.run([(s['name'], self.make_client(kv, s).run) for s in specs])
        kv.concurrent = False
