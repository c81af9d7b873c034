"""What scenarios of one or a few scripted actors have in common."""
import json


class Scenario:
    """
    Plans look like {'config': {...}, 'phases': [{'ops': [...]} or
    {'clients': [{'name', 'ops'}]}]}.
    """

    def start(self, plan):
        return {}

    def initial_image(self, plan):
        return {}

    def next_phase(self, plan, carry, k, crash):
        return k <= len(plan['phases'])

    def finish(self, plan, carry):
        return []

    def op_lists(self, plan):
        out = []
        if len(plan['phases']) > 1:
            out.append(['phases'])
        for i, ph in enumerate(plan['phases']):
            if 'ops' in ph:
                out.append(['phases', i, 'ops'])
            for j, _ in enumerate(ph.get('clients', ())):
                if j == 0 and len(ph['clients']) > 1:
                    out.append(['phases', i, 'clients'])
                out.append(['phases', i, 'clients', j, 'ops'])
        return out

    def ops(self, plan):
        for ph in plan['phases']:
            yield from ph.get('ops', ())
            for c in ph.get('clients', ()):
                yield from c['ops']

    def simpler(self, plan):
        for i, ph in enumerate(plan['phases']):
            for fault in list(ph.get('faults', {})):
                c = json.loads(json.dumps(plan))
                del c['phases'][i]['faults'][fault]
                yield c

    def nontrivial(self, plan, res):
        return res.switches > 0 or any(
            k.startswith(('fault:', 'crash', 'net:')) for k in res.stats) \
            or len(plan['phases']) > 1

    def op_counts(self, plan):
        out = {}

        def add(op):
            out[op['op']] = out.get(op['op'], 0) + 1
            for o in op.get('body', ()):
                add(o)
        for op in self.ops(plan):
            add(op)
        return out

    def brief(self, plan):
        text = json.dumps({'config': plan.get('config'),
                           'phases': plan['phases']})
        return text if len(text) < 3000 else text[:3000] + '...'


class Gen:
    """Seeded helper for plan generators."""

    def __init__(self, seed, prop):
        import random
        self.r = random.Random(f'plan/{prop}/{seed}')
        self.seed = seed
        self.prop = prop
        self.opn = 0
        self.serial = 0

    def n(self):
        self.opn += 1
        return self.opn

    def chance(self, p):
        return self.r.random() < p

    def pick(self, weights):
        names = list(weights)
        return self.r.choices(names, [weights[n] for n in names])[0]

    def preempt(self):
        r = self.r

        def p(lo, hi):
            return 0.0 if r.random() < .15 else 10 ** r.uniform(lo, hi)
        return {'line': p(-3, -.5), 'lock': p(-3, -.5), 'unlock': p(-3, -.5),
                'io': p(-2.5, -.5), 'stall': r.choice([0, 0, .1, .5])}

    def io_faults(self, faults=.3, crash=.6, kinds=('eio', 'enospc',
                                                    'short')):
        r = self.r
        f, ok = {}, []
        if r.random() < crash:
            f['crash'] = 1 / r.choice([8, 20, 40, 80, 150])
            ok = r.choice([['kill'], ['power'], ['kill', 'power']])
        if r.random() < faults:
            for kind in kinds:
                if r.random() < .5:
                    f[kind] = 1 / r.choice([10, 30, 80])
        return f, ok

    def plan(self, scenario, phases, config=None):
        return {'scenario': scenario, 'prop': self.prop, 'seed': self.seed,
                'config': dict(config or {}), 'phases': phases,
                'choices': None}
