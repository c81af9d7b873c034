#!/usr/bin/env python3
"""
check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--runs N]
                    [--from N] [--workers N] [--wall S] [--no-minimise]

Seeded search over simulated runs for one property.  Exit 0: no run violated
it.  Exit 1: a violation, with its replay file.  Exit 3: the machinery failed.
"""
import argparse
import json
import mmap
import os
import pickle
import select
import struct
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def reexec():
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}
    if '--hashseed' in sys.argv:
        want['PYTHONHASHSEED'] = sys.argv[sys.argv.index('--hashseed') + 1]
    if all(os.environ.get(k) == v for k, v in want.items()) and \
            os.environ.get('VERIF_REEXEC') == '1':
        return
    env = dict(os.environ, VERIF_REEXEC='1', **want)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def known_findings(prop):
    """
    Lines `known: property=ID probe=FILE kind=KIND | description`: FILE is a
    complete plan whose run shows the finding.
    """
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path, encoding='utf-8'):
        line = line.strip()
        if not line.startswith('known: '):
            continue
        head, _, text = line[7:].partition(' | ')
        d = dict(x.split('=', 1) for x in head.split())
        if d.get('property') == prop:
            out.append((d['probe'], d['kind'], text))
    return out


def probe(scenario, known):
    """Runs the plans of the known findings; returns those that still fail."""
    from sim import runner
    seen = []
    for file, kind, text in known:
        plan = json.load(open(os.path.join(HERE, file), encoding='utf-8'))
        res = runner.run_plan(scenario, plan)
        if res.violation is not None and res.violation[0] == kind:
            seen.append((file, text))
    return seen


def silence():
    """Workers print nothing: code under test may warn from __del__."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)


class Pool:
    """Forked workers, each running every n-th plan."""

    def __init__(self, scenario, prop, base, first, runs, workers, deadline,
                 repeat):
        self.shared = mmap.mmap(-1, 16)
        self.shared[:8] = struct.pack('q', 1 << 60)
        self.out = {}
        procs = []
        for w in range(workers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    silence()
                    res = self.work(scenario, prop, base, first, runs, workers,
                                    w, deadline, repeat)
                    data = pickle.dumps(res, 4)
                    while data:
                        n = os.write(wfd, data[:1 << 16])
                        data = data[n:]
                except BaseException:
                    import traceback
                    data = pickle.dumps({'harness':
                                         traceback.format_exc()}, 4)
                    os.write(wfd, data)
                    code = 1
                finally:
                    os._exit(code)
            os.close(wfd)
            procs.append((pid, r, w))
        self.results = []
        chunks = {r: [] for _, r, _ in procs}
        open_ = set(chunks)
        while open_:
            ready, _, _ = select.select(list(open_), [], [], 5)
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    chunks[r].append(b)
                else:
                    open_.discard(r)
        for pid, r, w in procs:
            os.close(r)
            os.waitpid(pid, 0)
            try:
                self.results.append(pickle.loads(b''.join(chunks[r])))
            except Exception as e:
                self.results.append({'harness': f'worker {w} died: {e!r}'})

    def stop_at(self):
        return struct.unpack('q', self.shared[:8])[0]

    def work(self, scenario, prop, base, first, runs, workers, w, deadline,
             repeat):
        from sim import runner
        runner.prepare_worker()
        out = {'stats': {}, 'runs': 0, 'scheds': set(), 'digests': set(),
               'nontrivial': set(), 'sim_time': 0.0, 'switches': 0,
               'steps': 0, 'bad': None, 'harness': None,
               'samples': [], 'repeats': 0, 'differ': [], 'curve': [],
               'phases': 0, 'ops': {}, 'cut': False, 'last': None}
        for i in range(first + w, first + runs, workers):
            if i >= self.stop_at():
                break
            if time.monotonic() > deadline:
                out['cut'] = True
                break
            plan = scenario.generate(prop, base + i)
            res = runner.run_plan(scenario, plan)
            out['runs'] += 1
            for k, v in res.stats.items():
                out['stats'][k] = out['stats'].get(k, 0) + v
            out['phases'] += res.phases
            out['sim_time'] += res.sim_time
            out['switches'] += res.switches
            out['steps'] += res.steps
            out['digests'].add(res.digest[:16])
            if res.switches:
                out['scheds'].add(res.sched[:16])
            if scenario.nontrivial(plan, res):
                out['nontrivial'].add(res.digest[:16])
            for k, v in scenario.op_counts(plan).items():
                out['ops'][k] = out['ops'].get(k, 0) + v
            if len(out['samples']) < 1 and scenario.nontrivial(plan, res):
                out['samples'].append(
                    {'seed': base + i, 'plan': scenario.brief(plan),
                     'decisions': len(res.choices),
                     'faults': {k: v for k, v in res.stats.items()
                                if k.startswith(('fault:', 'crash',
                                                 'net:'))},
                     'preemptions': res.switches,
                     'digest': res.digest[:16]})
            if res.harness:
                out['harness'] = f'seed {base + i}: {res.harness}'
                self.lower(i)
                break
            if res.violation:
                out['bad'] = (i, plan, res)
                self.lower(i)
                break
            if repeat and (i - first) % repeat == 0:
                again = runner.run_plan(scenario, scenario.generate(
                    prop, base + i))
                out['repeats'] += 1
                if again.digest != res.digest:
                    out['differ'].append(base + i)
        return out

    def lower(self, i):
        if i < self.stop_at():
            self.shared[:8] = struct.pack('q', i)


def replay(scenario, path):
    from sim import runner
    runner.prepare_worker()
    data = json.load(open(path, encoding='utf-8'))
    plan = data['plan']
    plan['trace'] = True
    res = runner.run_plan(scenario, plan)
    for line in res.trace:
        print(line[:2000])
    print('expected:', data['violation'])
    print('observed:', list(res.violation) if res.violation else None,
          res.harness or '')
    same = res.violation is not None and \
        list(res.violation) == list(data['violation'])
    print('digest', 'equal' if res.digest == data['digest'] else
          f'differs: {res.digest}')
    if same:
        print(f'VIOLATION property={data["property"]} replay={path}')
        return 1
    return 0 if res.violation is None else 1


def self_test():
    """Setup: the machinery runs and repeats itself here."""
    sys.path.insert(0, HERE)
    from sim import registry, runner
    scenario = registry.get('C01').boot()
    runner.prepare_worker()
    for seed in range(8):
        a = runner.run_plan(scenario, scenario.generate('C01', seed))
        b = runner.run_plan(scenario, scenario.generate('C01', seed))
        if a.harness or a.digest != b.digest:
            print('self-test failed:', seed, a.harness)
            return 3
    print('self-test passed')
    return 0


def main():
    if sys.argv[1:] == ['--self-test']:
        reexec()
        return self_test()
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--from', dest='first', type=int, default=0)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--hashseed')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--all', action='store_true',
                    help='with --no-minimise: print the violation only')
    a = ap.parse_args()
    reexec()
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    from sim import registry
    entry = registry.get(a.property)
    scenario = entry.boot()
    if a.replay:
        return replay(scenario, a.replay)
    from sim import runner
    prop = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    base = seed * 10_000_000
    runs = a.runs or entry.runs[tier]
    wall = a.wall or entry.wall[tier]
    workers = a.workers or min(8, os.cpu_count() or 1)
    seen = probe(scenario, known_findings(prop))
    t1 = time.monotonic()
    pool = Pool(scenario, prop, base, a.first, runs, workers,
                t1 + wall, max(1, runs // 100))
    took = time.monotonic() - t1
    rs = pool.results
    broken = [r['harness'] for r in rs if r.get('harness')]
    bad = sorted((r['bad'] for r in rs if r.get('bad')), key=lambda b: b[0])
    code = 0
    if broken and not bad:
        print('HARNESS ERROR', broken[0][:4000])
        code = 3
    rs = [r for r in rs if 'runs' in r]
    differ = [s for r in rs for s in r['differ']]
    if differ and not bad:
        print(f'HARNESS ERROR: seeds {differ[:5]} did not repeat exactly')
        code = 3
    violation = None
    if bad:
        i, plan, res = bad[0]
        code = 1
        print(f'seed {base + i}: {res.violation[0]}: '
              f'{res.violation[1][:3000]}')
        violation = report(scenario, prop, plan, res, base + i, a)
        print(f'VIOLATION property={prop} replay={violation}')
    for file, what in seen:
        print(f'KNOWN-FINDING: property={prop} {what}')
    if not a.no_evidence:
        evidence(entry, scenario, prop, tier, seed, rs, took, t0, violation,
                 seen, base)
    total = sum(r['runs'] for r in rs)
    print(f'{prop} {tier}: {total} runs in {took:.1f} s, '
          f'{len(set().union(*[r["nontrivial"] for r in rs]) if rs else [])}'
          f' distinct non-trivial, exit {code}')
    return code


def report(scenario, prop, plan, res, seed, a):
    from sim import runner
    silence()
    runner.prepare_worker()
    if a.no_minimise:
        best, best_res, tried = dict(plan), res, 0
        best['choices'] = None
    else:
        best, best_res, tried = runner.minimise(scenario, plan, res,
                                                budget=400, wall=90)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', f'{prop}-{seed}.json')
    best.pop('trace', None)
    # the last word has the file itself, executed once more
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'seed': seed,
                   'violation': list(best_res.violation),
                   'digest': best_res.digest, 'tried': tried,
                   'plan': best}, f, indent=1)
    again = runner.run_plan(scenario, json.load(open(path))['plan'])
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    data['reproduced'] = again.violation is not None and \
        list(again.violation) == data['violation'] and \
        again.digest == data['digest']
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(data, f, indent=1)
    print(f'minimised in {tried} executions to '
          f'{len(best.get("choices") or {})} decisions: '
          f'{best_res.violation[0]}: {best_res.violation[1][:2000]}; '
          f'{"reproduced exactly" if data["reproduced"] else "NOT repeated"}')
    return path


def evidence(entry, scenario, prop, tier, seed, rs, took, t0, violation, seen,
             base):
    def total(key):
        return sum(r[key] for r in rs)

    stats, ops = {}, {}
    for r in rs:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['ops'].items():
            ops[k] = ops.get(k, 0) + v

    def union(key):
        return len(set().union(*[r[key] for r in rs])) if rs else 0
    runs = total('runs')
    faults = {k: v for k, v in sorted(stats.items())
              if k.startswith(('fault:', 'crash', 'net:', 'storage-'))}
    samples = [s for r in rs for s in r['samples']][:4]
    d = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': union('nontrivial'),
            'rule': entry.rule,
            'samples': samples or ['none'],
            'simulated_runs': runs,
            'processes_simulated': total('phases'),
            'runs_per_hour': int(runs / max(took, .001) * 3600),
            'seeds': f'{base}..{base + max(runs - 1, 0)}',
            'simulated_seconds': round(total('sim_time'), 3),
            'faults_injected': faults,
            'preemptions': total('switches'),
            'scheduling_points': total('steps'),
            'distinct_histories': union('digests'),
            'distinct_interleavings': union('scheds'),
            'distinct_measure': 'histories: SHA-256 over every event of a run '
            '(operations, results, disk and network calls); interleavings: '
            'SHA-256 over the sequence of context switches with the '
            'operation each one interrupted, of runs with at least one',
            'operations_generated': dict(sorted(ops.items())),
            'other_counters': {k: v for k, v in sorted(stats.items())
                               if k not in faults},
            'repeated_runs': total('repeats'),
            'repeated_runs_identical': total('repeats') -
            sum(len(r['differ']) for r in rs),
            'real_components': entry.real,
            'stubbed_components': entry.stub,
            'cut_by_wall_clock': any(r['cut'] for r in rs),
        },
        'assumptions': entry.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0,
    }
    if seen:
        d['coverage']['known_findings_met'] = [
            f'{file}: {text}' for file, text in seen]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w',
              encoding='utf-8') as f:
        json.dump(d, f, indent=1, ensure_ascii=False)


if __name__ == '__main__':
    reexec()
    code = main()
    sys.stdout.flush()
    os._exit(code)
