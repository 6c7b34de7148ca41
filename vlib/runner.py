'''Runs the workload of one property under its monitors, and delivers the verdict.

A property module (vlib/props/<id>.py) provides:

    ID, RULE            - the property's id and how its cases are made / what makes one non-trivial,
    cases(tier, rng)    - a list of JSON-able case descriptors (every random choice comes from the seed),
    run(case, ctx)      - drives the real code on one case while reporting what it observes to ctx, and
    MINIMUM             - {event kind: least number of times it must have been decided} (fewer: inconclusive).
    monitors(ctx)       - (optional) attach monitors to the real classes, returns nothing.

Verdicts are three-valued: exit 0 (held on everything explored), 1 (violated, with a replay file) and 2 (inconclusive).
'''

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

CPU_LIMIT = {'quick': 25, 'thorough': 60}  # CPU seconds before a case is re-run while counting steps.
STEP_LIMIT = 40_000_000  # Logical steps (curver function entries and jumps) that no case comes near to.
RECOUNT_LIMIT = {'quick': 150, 'thorough': 400}  # CPU seconds of that re-run: several times what the budget of steps takes.
SOFT_WALL = {'quick': 360, 'thorough': 3000}
HARD_WALL = {'quick': 700, 'thorough': 6000}
MEMORY = 3 << 30


class Timeout(BaseException):
    pass


class Stuck(BaseException):
    '''The logical step budget is exhausted.'''


class EnoughViolations(BaseException):
    pass


class Ctx:
    def __init__(self, prop, tier, case):
        self.prop, self.tier, self.case = prop, tier, case
        self.rng = random.Random(json.dumps(case, sort_keys=True))
        self.events = {}
        self.keys = set()
        self.violations = []
        self.samples = []
        self.skipped = {}

    def observe(self, kind, n=1, /):
        '''Count an event that was observed (but not decided).'''
        self.events['seen ' + kind] = self.events.get('seen ' + kind, 0) + n

    def check(self, kind, ok, /, **info):
        '''Decide one event.'''
        self.events[kind] = self.events.get(kind, 0) + 1
        if not ok:
            self.violation(kind, **info)
        return ok

    def equal(self, kind, got, want, /, **info):
        return self.check(kind, got == want, **{**info, 'got': _short(got), 'want': _short(want)})

    def violation(self, kind, /, **info):
        self.violations.append({'key': kind, 'info': {k: _short(v) for k, v in info.items()}})
        if len(self.violations) >= 3: raise EnoughViolations()

    def nontrivial(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, x):
        if len(self.samples) < 2: self.samples.append(_short(x, 600))

    def skip(self, reason):
        self.skipped[reason] = self.skipped.get(reason, 0) + 1


def _short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def _install_alarm():
    def handler(signum, frame):
        raise Timeout()
    signal.signal(signal.SIGVTALRM, handler)


class Steps:
    '''Count the function entries and jumps executed by curver's own code, with sys.monitoring.'''
    TOOL = 4

    def __init__(self, limit):
        self.limit, self.count = limit, 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'verif-steps')
        prefix = os.path.join(REPO, 'curver')

        def tick(code, *_):
            if not code.co_filename.startswith(prefix): return m.DISABLE
            self.count += 1
            if self.count > self.limit: raise Stuck()
        for e in (m.events.PY_START, m.events.JUMP, m.events.PY_RESUME):
            m.register_callback(self.TOOL, e, tick)
        m.set_events(self.TOOL, m.events.PY_START | m.events.JUMP | m.events.PY_RESUME)
        return self

    def __exit__(self, *_):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)
        return False


def run_case(module, tier, case, count=False, attach=True):
    '''Run a single case, return its Ctx and status.'''
    from vlib import model, mon
    ctx = Ctx(module.ID, tier, case)
    mon.CURRENT.ctx = ctx
    steps = None
    status = 'done'
    random.seed(json.dumps(case, sort_keys=True))  # The global generator, used by random_word.
    try:
        if count:
            signal.setitimer(signal.ITIMER_VIRTUAL, RECOUNT_LIMIT[tier])
            try:
                with Steps(STEP_LIMIT) as steps:
                    module.run(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        else:
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT[tier])
            try:
                module.run(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except EnoughViolations:
        pass
    except Timeout:
        if count: ctx.violations.append({'key': 'bounded progress', 'info': {'cpu seconds': RECOUNT_LIMIT[tier], 'what': 'the workload of this case did not finish in many times what the slowest case needs'}})
        else: status = 'timeout'
    except Stuck:
        ctx.violations.append({'key': 'bounded progress', 'info': {'steps': STEP_LIMIT, 'what': 'the workload of this case did not finish within the logical step budget'}})
    except model.ModelError as e:
        ctx.skip('reference model: ' + str(e))
    except MemoryError:
        ctx.violations.append({'key': 'bounded memory', 'info': {'bytes': MEMORY, 'what': 'the workload of this case ran out of memory'}})
    except Exception as e:
        ctx.violations.append({'key': 'unexpected exception', 'info': {'exception': _short(e, 300), 'type': type(e).__name__, 'traceback': traceback.format_exc()[-2500:]}})
    finally:
        mon.CURRENT.ctx = None
    if steps is not None: ctx.events['steps counted'] = steps.count
    return ctx, status


def _worker(pid, tier, cases, tasks, results):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _install_alarm()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    module = importlib.import_module('vlib.props.' + pid)
    from vlib import mon
    if hasattr(module, 'monitors'): mon.attach_all(module)
    while True:
        try:
            i = tasks.get()
        except (EOFError, OSError):
            return
        if i is None:
            results.put(('bye', os.getpid(), None))
            return
        results.put(('start', os.getpid(), i))
        c0 = time.process_time()
        ctx, status = run_case(module, tier, cases[i])
        if status == 'timeout':
            ctx2, status2 = run_case(module, tier, cases[i], count=True)
            if ctx2.violations or status2 == 'done': ctx, status = ctx2, status2
        results.put(('done', os.getpid(), (i, status, ctx.events, sorted(ctx.keys), ctx.violations, ctx.samples, ctx.skipped, time.process_time() - c0)))


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path): return []
    with open(path) as f:
        return json.load(f)


def main(pid, replay=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        module = importlib.import_module('vlib.props.' + pid)
        import curver
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={pid} the code under test could not be imported')
        return 2
    if replay is not None:
        with open(replay) as f:
            data = json.load(f)
        if data['case'] is None:
            list(module.cases(data['tier'], random.Random(f"{pid}:{data['tier']}:{data['seed']}")))
            return 0
        _install_alarm()
        from vlib import mon
        if hasattr(module, 'monitors'): mon.attach_all(module)
        ctx, status = run_case(module, data.get('tier', tier), data['case'], count=data.get('count', False))
        if status == 'timeout': ctx, status = run_case(module, data.get('tier', tier), data['case'], count=True)
        print(json.dumps({'status': status, 'events': ctx.events, 'violations': ctx.violations, 'skipped': ctx.skipped}, indent=1))
        for v in ctx.violations: print(f'VIOLATION property={pid} replay={replay}')
        return 1 if ctx.violations else 0

    rng = random.Random(f'{pid}:{tier}:{seed}')
    try:
        cases = list(module.cases(tier, rng))
    except Exception as e:  # Some workloads are laid out with the help of the code under test.
        traceback.print_exc()
        path = os.path.join(HERE, 'replays', f'{pid}-cases.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f: json.dump({'property': pid, 'tier': tier, 'seed': seed, 'case': None, 'violation': {'key': 'unexpected exception', 'info': _short(e, 500)}}, f)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    nproc = max(1, min(8, os.cpu_count() or 1, len(cases)))
    mpc = mp.get_context('fork')
    tasks, results = mpc.Queue(), mpc.Queue()
    for i in range(len(cases)): tasks.put(i)
    for _ in range(nproc): tasks.put(None)
    workers = {}
    for _ in range(nproc):
        p = mpc.Process(target=_worker, args=(pid, tier, cases, tasks, results), daemon=True)
        p.start()
        workers[p.pid] = p
    events, keys, violations, samples, skipped = {}, set(), [], [], {}
    done, statuses, running, byes = 0, {}, {}, 0
    cpu = 0.0
    slowest = []
    truncated = lost = False
    enough = None
    while byes < nproc:
        try:
            kind, wpid, payload = results.get(timeout=5)
        except queue.Empty:
            kind = None
        now = time.time()
        if kind == 'start': running[wpid] = payload
        elif kind == 'bye':
            byes += 1
            running.pop(wpid, None)
        elif kind == 'done':
            running.pop(wpid, None)
            i, status, ev, ks, vs, ss, sk, c = payload
            done += 1
            cpu += c
            slowest.append((round(c, 2), i))
            statuses[status] = statuses.get(status, 0) + 1
            for k, v in ev.items(): events[k] = events.get(k, 0) + v
            for k, v in sk.items(): skipped[k] = skipped.get(k, 0) + v
            keys.update(ks)
            if len(samples) < 6: samples.extend(ss[:1])
            for v in vs: violations.append((i, v))
            if enough is None and (len(violations) >= 12 or any(v['key'].startswith('bounded') for v in vs)): enough = now
        if kind is None:
            dead = [p for p in workers.values() if not p.is_alive()]
            if dead and results.empty():
                byes_possible = nproc - len(dead)
                if byes + len([p for p in dead]) >= nproc or any(p.exitcode not in (0, None) for p in dead):
                    alive = [p for p in workers.values() if p.is_alive()]
                    bad = [p for p in dead if p.exitcode != 0]
                    if bad: lost = True
                    if not alive: break
                    if byes >= byes_possible and not alive: break
        if enough is not None or now - t0 > SOFT_WALL[tier]:
            if now - t0 > SOFT_WALL[tier]: truncated = True
            # Stop issuing cases.
            try:
                while True: tasks.get_nowait()
            except queue.Empty:
                pass
            for _ in range(nproc): tasks.put(None)
            if enough is not None and now - enough > 3: break
            if now - t0 > SOFT_WALL[tier] + 60 and violations: break
        if now - t0 > HARD_WALL[tier]:
            lost = True
            break
    for p in workers.values():
        if p.is_alive(): p.terminate()
    for p in workers.values(): p.join(5)
    for p in workers.values():
        if p.is_alive(): p.kill()

    # ---- verdict ----
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    fresh, seen_known = [], {}
    for i, v in violations:
        match = next((k for k in known if k['key'] == v['key'] and (not k.get('contains') or k['contains'] in json.dumps(v['info']))), None)
        if match is None: fresh.append((i, v))
        else: seen_known[match['id']] = match
    for k in known:  # A listed finding is announced on every run.
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    printed = set()
    for i, v in fresh:
        if v['key'] in printed: continue
        printed.add(v['key'])
        body = {'property': pid, 'tier': tier, 'seed': seed, 'case': cases[i], 'violation': v, 'count': v['key'] == 'bounded progress'}
        name = hashlib.blake2b(json.dumps(body, sort_keys=True).encode(), digest_size=6).hexdigest()
        path = os.path.join(HERE, 'replays', f'{pid}-{name}.json')
        with open(path, 'w') as f: json.dump(body, f, indent=1)
        print(f"  {v['key']}: {json.dumps(v['info'])[:1500]}")
        print(f'VIOLATION property={pid} replay={path}')
    wall = time.time() - t0
    decided = sum(v for k, v in events.items() if not k.startswith('seen ') and k != 'steps counted')
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(keys),
            'rule': module.RULE,
            'samples': samples or ['none'],
            'events_decided': decided,
            'events': dict(sorted(events.items())),
            'cases_generated': len(cases),
            'case_status': statuses,
            'skipped': skipped,
            'truncated_by_wall_clock': truncated,
            'cpu_s': round(cpu, 1),
            'slowest_case_cpu_s': max(slowest)[0] if slowest else 0,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []) + ['the reference model (vlib/model.py) and the CPython / numpy / networkx / sympy installation are trusted'],
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(evidence, f, indent=1)
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(evidence['coverage'], indent=1))
        print('slowest', sorted(slowest, reverse=True)[:5])
    if fresh:
        print(f'{pid}: VIOLATED, {len(fresh)} violation(s) in {done} cases, {decided} events decided, {wall:.1f}s')
        return 1
    missing = {k: n for k, n in module.MINIMUM.items() if events.get(k, 0) < n}
    unresolved = sum(n for s, n in statuses.items() if s != 'done')
    if missing or lost or unresolved:
        print(f'INCONCLUSIVE property={pid} missing={missing} lost={lost} unresolved={unresolved} done={done}/{len(cases)}')
        return 2
    print(f'{pid}: held on {done} cases ({len(keys)} distinct non-trivial), {decided} events decided, {wall:.1f}s')
    return 0
