"""
Executes plans.  A plan is a JSON object that fully determines a run:

  {"scenario": name, "seed": int, "config": {...}, "phases": [...],
   "choices": null | {...}}

Every phase (the time between two restarts of the machine) runs in its own
forked process: only the disk image and the harness' own history (``carry``)
go from one to the next.  With ``choices`` null the decisions are drawn from
the seed and recorded; otherwise they are exactly the recorded ones.
"""
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import traceback

from sim import kernel

WALL_LIMIT = 120.0     # seconds of real time for one phase: harness error


class Result:
    def __init__(self):
        self.violation = None        # (kind, message)
        self.harness = None          # text
        self.choices = {}
        self.stats = {}
        self.digest = ''
        self.sched = ''
        self.switches = 0
        self.steps = 0
        self.sim_time = 0.0
        self.trace = []
        self.phases = 0

    def key(self):
        return self.digest


def _child(wfd, scenario, plan, carry, image, k, start):
    sent = []
    gc.disable()           # collections would come at arbitrary points

    def emit(what):
        # called from any task, at any point: report and vanish
        if sent:
            os._exit(3)
        sent.append(1)
        sim.in_sched = True
        out = {
            'choices': sim.recorded, 'stats': sim.stats,
            'digest': sim.digest.hexdigest(),
            'sched': sim.sched_digest.hexdigest(),
            'switches': sim.switches, 'steps': sim.steps,
            'now': sim.now, 'skew': sim.clock_skew, 'trace': sim.trace,
            'elapsed': sim.now - sim.mono0, 'carry': carry,
            'violation': None, 'harness': None, 'crash': None,
            'image': None,
        }
        if isinstance(what, kernel.Violation):
            out['violation'] = (what.kind, what.message)
        elif isinstance(what, tuple) and what[0] == 'crash':
            out['crash'] = what[1]
            out['image'] = what[2]
        elif isinstance(what, str):
            out['harness'] = what
        else:
            out['image'] = sim.disk.image() if sim.disk else {}
        kernel.SIM = None
        try:
            data = pickle.dumps(out, 4)
        except Exception as e:
            out['carry'] = None
            out['harness'] = 'unpicklable carry: %r' % e
            data = pickle.dumps(out, 4)
        view = memoryview(data)
        while view:
            n = os.write(wfd, view[:1 << 16])
            view = view[n:]
        os._exit(0)

    config = plan.get('config', {})
    sim = kernel.Sim(plan['seed'], plan.get('choices'),
                     config.get('knobs'), phase=k, emit=emit, start=start)
    sim.keep_trace = bool(plan.get('trace'))
    import random
    random.seed(f"{plan['seed']}/{k}/global")
    try:
        from sim import disk as diskmod
        sim.disk = diskmod.Disk(sim, image)
        kernel.SIM = sim
        scenario.run_phase(sim, plan, carry, k)
        emit(None)
    except kernel.Violation as v:
        emit(v)
    except (kernel.HarnessError, KeyboardInterrupt):
        emit('harness: ' + traceback.format_exc())
    except BaseException as e:
        # nothing the scenario calls may raise what it does not expect
        emit(kernel.Violation('exception', f'{e!r} at ' + ' < '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in
            reversed(traceback.extract_tb(e.__traceback__)[-6:]))))


def fork_phase(scenario, plan, carry, image, k, start, wall=WALL_LIMIT):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            _child(wfd, scenario, plan, carry, image, k, start)
        finally:
            os._exit(4)
    os.close(wfd)
    chunks = []
    t0 = kernel._real_monotonic()
    timed_out = False
    while True:
        left = wall - (kernel._real_monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'harness': f'phase {k} exceeded {wall:.0f} s of real time'}
    try:
        return pickle.loads(b''.join(chunks))
    except Exception as e:
        return {'harness': f'phase {k} died without a report '
                           f'(status {status}): {e!r}'}


def run_plan(scenario, plan):
    """Runs all phases of a plan; returns a Result."""
    res = Result()
    carry = scenario.start(plan)
    image = scenario.initial_image(plan)
    digest = hashlib.sha256()
    sched = hashlib.sha256()
    k = 0
    start = None
    while True:
        out = fork_phase(scenario, plan, carry, image, k, start)
        for what, n in out.get('stats', {}).items():
            res.stats[what] = res.stats.get(what, 0) + n
        res.choices.update(out.get('choices', {}))
        digest.update(out.get('digest', '').encode())
        sched.update(out.get('sched', '').encode())
        res.switches += out.get('switches', 0)
        res.steps += out.get('steps', 0)
        res.sim_time += out.get('elapsed', 0.0)
        res.trace += out.get('trace', [])
        if out.get('harness'):
            res.harness = out['harness']
            break
        if out['violation']:
            res.violation = out['violation']
            break
        carry = out['carry']
        image = out['image']
        start = out['now'] + 1.0
        k += 1
        more = scenario.next_phase(plan, carry, k, out['crash'])
        if not more:
            break
    res.phases = k + (1 if res.violation or res.harness else 0)
    if res.violation is None and res.harness is None:
        try:
            scenario.finish(plan, carry)
        except kernel.Violation as v:
            res.violation = (v.kind, v.message)
        except Exception:
            res.harness = traceback.format_exc()
    digest.update(repr(res.violation).encode())
    res.digest = digest.hexdigest()
    res.sched = sched.hexdigest()
    return res


def same(a, b):
    return a is not None and b is not None and a[0] == b[0]


def minimise(scenario, plan, result, budget, wall=None):
    """
    Shrinks a failing plan while the same kind of violation persists.
    ``budget`` is a number of executions.  Returns (plan, result, tried).
    """
    kind = result.violation
    t_end = kernel._real_monotonic() + (wall or 1e9)
    best = json.loads(json.dumps(plan))
    best['choices'] = dict(result.choices)
    check = run_plan(scenario, best)
    tried = 1
    if not same(check.violation, kind):
        # keep the drawing form: it is deterministic as well
        best = json.loads(json.dumps(plan))
        return best, result, tried
    best_res = check

    def attempt(candidate):
        nonlocal best, best_res, tried
        if kernel._real_monotonic() > t_end:
            tried = max(tried, budget)
        if tried >= budget:
            return False
        tried += 1
        r = run_plan(scenario, candidate)
        if same(r.violation, kind):
            best = candidate
            best['choices'] = dict(r.choices)
            best_res = r
            return True
        return False

    def ddmin_list(get, put):
        size = max(1, len(get(best)) // 2)
        while size >= 1 and tried < budget:
            i = 0
            progress = False
            while i < len(get(best)) and tried < budget:
                items = get(best)
                cand = json.loads(json.dumps(best))
                put(cand, items[:i] + items[i + size:])
                if attempt(cand):
                    progress = True
                else:
                    i += size
            if not progress or size == 1:
                if size == 1:
                    break
            size //= 2

    for _ in range(3):
        before = tried, json.dumps(best, sort_keys=True)
        # 1. drop operations of every client of every phase
        for slot in scenario.op_lists(best):
            def get(p, slot=slot):
                x = p
                for s in slot:
                    x = x[s]
                return x

            def put(p, items, slot=slot):
                x = p
                for s in slot[:-1]:
                    x = x[s]
                x[slot[-1]] = items
            try:
                get(best)
            except (KeyError, IndexError):
                continue
            ddmin_list(get, put)
        # 2. simplify the operations and the configuration
        for cand in scenario.simpler(best):
            if tried >= budget:
                break
            attempt(cand)

        # 3. drop recorded decisions (faults, preemptions)
        def getc(p):
            return sorted(p['choices'])

        def putc(p, keys):
            p['choices'] = {k: p['choices'][k] for k in keys}
        ddmin_list(getc, putc)
        if json.dumps(best, sort_keys=True) == before[1] or tried >= budget:
            break
    return best, best_res, tried


def prepare_worker():
    gc.collect()
    gc.freeze()
    sys.setrecursionlimit(3000)
