"""Shared by the checks: parallel tasks, the prover (lia pre-solver, then Z3), evidence,
violations and exit codes.

Exit 0: held on everything explored; 1: a VIOLATION line per violation (each replayed on
the natively compiled code); 2: the check could not decide (machinery error)."""
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

import build
import sym as S
import ex
import lia

VERIF = build.VERIF
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


# ------------------------------------------------------------------ parallel tasks

def _worker(fn, conn, init):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if init:
        init()
    while True:
        try:
            t = conn.recv()
        except EOFError:
            os._exit(0)
        if t is None:
            os._exit(0)
        i, a = t
        t0 = time.time()
        try:
            r = ('ok', fn(*a) if isinstance(a, tuple) else fn(a))
        except BaseException as e:
            r = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        try:
            conn.send((i, r + (time.time() - t0,)))
        except Exception as e:
            conn.send((i, ('err', 'unpicklable result: %s' % e, 0.0)))


def pmap(fn, tasks, deadline, task_limit=240, jobs=None, recycle=40, init=None):
    """run fn over tasks in parallel forked processes; yields (index, status, value) with status
    'ok', 'err', 'timeout' (task killed) or 'skipped' (the deadline passed before it started)"""
    tasks = list(tasks)
    n = min(jobs or JOBS, max(1, len(tasks)))
    ctx = multiprocessing.get_context('fork')
    workers = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(fn, b, init), daemon=True)
        sys.stdout.flush()
        p.start()
        b.close()
        return [p, a, None, 0.0, 0]
    nxt = 0
    live = 0
    try:
        for _ in range(n):
            workers.append(spawn())
        while True:
            now = time.time()
            for k, w in enumerate(workers):
                if w[2] is None and nxt < len(tasks) and now < deadline:
                    if w[4] >= recycle:
                        w[1].send(None)
                        w[0].join()
                        workers[k] = w = spawn()
                    w[2] = nxt
                    w[3] = now
                    w[4] += 1
                    w[1].send((nxt, tasks[nxt]))
                    nxt += 1
            busy = [w for w in workers if w[2] is not None]
            if not busy:
                break
            ready = multiprocessing.connection.wait([w[1] for w in busy], timeout=0.25)
            for w in busy:
                if w[1] in ready:
                    i = w[2]
                    try:
                        i, r = w[1].recv()
                        w[2] = None
                        yield i, r[0], r[1], r[2]
                    except EOFError:
                        w[0].join()
                        k = workers.index(w)
                        workers[k] = spawn()
                        yield i, 'err', 'worker died (exit %s)' % w[0].exitcode, 0.0
                elif time.time() - w[3] > task_limit or time.time() > deadline + 20:
                    w[0].kill()
                    w[0].join()
                    k = workers.index(w)
                    i = w[2]
                    workers[k] = spawn()
                    yield i, 'timeout', None, time.time() - w[3]
        for i in range(nxt, len(tasks)):
            yield i, 'skipped', None, 0.0
    finally:
        for w in workers:
            if w[0].is_alive():
                w[0].kill()
                w[0].join()


# ------------------------------------------------------------------ prover

class Prover:
    """validity of (conditions => goal) over all variable values"""

    def __init__(self, timeout_ms=20000):
        self.solver = ex.Solver(timeout_ms, oneshot=True)
        self.lia = lia.Lia(8)
        self.folded = 0
        self.by_lia = 0
        self.by_z3 = 0
        self.unknown = 0
        self.failed = 0

    @property
    def obligations(self):
        return self.folded + self.by_lia + self.by_z3 + self.unknown + self.failed

    def prove(self, pc, goal):
        """True, None (unknown) or a counterexample environment"""
        if type(goal) is int and goal:
            self.folded += 1
            return True
        neg = S.not_(goal)
        pc = [c for c in pc if not (type(c) is int and c)]
        if any(type(c) is int for c in pc):
            self.folded += 1
            return True
        r = None
        if type(neg) is not int:
            r, env = self.lia.decide(frozenset(pc), (), neg)
            if r == 'unsat':
                self.by_lia += 1
                return True
            if r == 'sat':
                self.failed += 1
                return env
        r, env = self.solver.check(pc + ([neg] if type(neg) is not int else []))
        if r == 'unsat':
            self.by_z3 += 1
            return True
        if r == 'sat':
            self.failed += 1
            return env
        self.unknown += 1
        return None

    def stats(self):
        return dict(obligations=self.obligations, folded=self.folded, lia=self.by_lia, z3=self.by_z3,
                    unknown=self.unknown, refuted=self.failed)


def add_stats(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, (set, frozenset, list, tuple)):
            a[k] = set(a.get(k, ())) | set(v)
        elif isinstance(v, dict):
            a[k] = add_stats(a.get(k, {}), v)
        else:
            a.setdefault(k, v)
    return a


def engine_stats(e):
    return dict(queries=e.solver.queries, solver_s=e.solver.time, z3_sat=e.solver.sat, z3_unsat=e.solver.unsat,
                z3_unknown=e.solver.unknown, instructions=e.instrs, merges=e.merges, forks=e.forks,
                functions=set(e.fns_seen))


# ------------------------------------------------------------------ a check run

class Check:
    def __init__(self, pid, budget_quick=100, budget_thorough=3000):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        b = os.environ.get('VERIF_BUDGET')
        self.budget = float(b) if b else budget_quick if self.tier == 'quick' else budget_thorough
        self.deadline = self.t0 + self.budget
        self.stats = {}
        self.violations = []
        self.errors = []
        self.skipped = []
        self.samples = []
        self.notes = []
        self.done = 0
        self.known = []
        self.assumptions = []
        self.coverage = {}
        self.level = 'model_checking'
        self.slow = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def add(self, st):
        add_stats(self.stats, st)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def error(self, what):
        self.errors.append(what)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def tasks(self, fn, tasks, names, task_limit=240, recycle=40, jobs=None, stop=True):
        """run tasks; each returns dict(stats=, violations=[(what, replay)], errors=[], samples=[], notes=[])"""
        tasks = list(tasks)
        for i, st, v, dt in pmap(fn, tasks, self.deadline, task_limit, recycle=recycle, jobs=jobs):
            self.slow.append((round(dt, 2), names[i]))
            if st == 'ok':
                self.done += 1
                if v is None:
                    continue
                self.add(v.get('stats', {}))
                for x in v.get('violations', ()):
                    self.violations.append(x)
                for x in v.get('errors', ()):
                    self.errors.append('%s: %s' % (names[i], x))
                for x in v.get('cut', ()):
                    self.skipped.append('%s: %s (time)' % (names[i], x))
                for x in v.get('samples', ()):
                    self.sample(x)
                for x in v.get('known', ()):
                    if x not in self.known:
                        self.known.append(x)
                if stop and len(self.violations) >= 3:
                    self.notes.append('stopped after %d violations' % len(self.violations))
                    break
            elif st == 'skipped':
                self.skipped.append(names[i])
            elif st == 'timeout':
                self.skipped.append(names[i] + ' (timeout)')
            else:
                self.errors.append('%s: %s' % (names[i], v))

    def finish(self):
        import hist
        hist.extend(self)
        wall = time.time() - self.t0
        st = {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in self.stats.items()}
        fns = st.pop('functions', [])
        cov = dict(
            obligations=int(st.get('obligations', 0)),
            discharged=int(st.get('folded', 0) + st.get('lia', 0) + st.get('z3', 0)),
            states=int(st.pop('outcomes', 0)),
            transitions=int(st.pop('instructions', 0)),
            traces_validated_against_impl=int(st.pop('witnesses', 0)) + int(st.pop('fallback_replays', 0)),
            functions_encoded=fns,
            samples=self.samples,
            tasks_done=self.done,
            tasks_skipped=self.skipped[:60],
            tasks_skipped_count=len(self.skipped),
            inconclusive=self.errors[:20],
            inconclusive_count=len(self.errors),
            solver=dict(queries=int(st.get('queries', 0)), seconds=round(st.get('solver_s', 0), 3)),
            counters={k: v for k, v in st.items() if k not in ('obligations', 'queries', 'solver_s')},
            notes=self.notes,
            known_findings=self.known,
            slowest_tasks=sorted(self.slow, reverse=True)[:5],
        )
        cov.update(self.coverage)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed,
                  level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        rp = None
        if self.violations:
            for n, (what, rep) in enumerate(self.violations[:5]):
                rp = os.path.join(d, '%s-replay%s.json' % (self.pid, n or ''))
                with open(rp, 'w') as f:
                    json.dump(dict(property=self.pid, what=what, replay=rep), f, indent=1, default=str)
                print('  %s: %s' % (self.pid, what))
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        ob = cov['obligations']
        print('%s %s: %d obligations, %d discharged (%d folded, %d lia, %d z3), %d tasks, %d skipped, %d inconclusive, '
              '%d queries, %.1f s solver, %.1f s wall' % (
                  self.pid, self.tier, ob, cov['discharged'], st.get('folded', 0), st.get('lia', 0), st.get('z3', 0),
                  self.done, len(self.skipped), len(self.errors), st.get('queries', 0), st.get('solver_s', 0), wall))
        for e in self.errors[:6]:
            print('  inconclusive: ' + e.strip()[:600])
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        # nothing was found in what was explored; what was not explored is in the evidence and printed above.
        # A run that decided next to nothing is no answer
        if self.done == 0 or ob == 0 or cov['discharged'] < 0.05 * ob or len(self.errors) > max(20, ob):
            print('%s: not decided (%d tasks done, %d skipped, %d inconclusive, %d obligations)' % (
                self.pid, self.done, len(self.skipped), len(self.errors), ob))
            sys.exit(2)
        if len(self.errors) + len(self.skipped) > 0.5 * max(1, self.done + len(self.skipped)):
            print('%s: partly decided (%d of %d tasks without an answer)' % (
                self.pid, len(self.errors) + len(self.skipped), self.done + len(self.skipped)))
        sys.exit(0)


def strs(b):
    return b.decode('utf-8', 'backslashreplace') if isinstance(b, bytes) else b
