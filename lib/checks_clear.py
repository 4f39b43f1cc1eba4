"""C14, C15: clear_region over symbolic rectangles and frame buffer contents."""
import random
import time

import build
import core
import ex
import native
import oracle
import paint
import sym as S
from ll import P
from paint import W, M64, T, add, le, lt, need, conj, events, Cex, Undecided

CLIP = ('minx', 'miny', 'maxx', 'maxy')


def explore(v, conds, deadline):
    e = ex.Engine(build.module())
    e.max_steps = 200000
    e.deadline = deadline
    s = ex.State()
    s.objs['fb'] = ex.FB(5896, 'log', None)
    c = ex.Cells(32, True)
    c.d = {8 * i: (8, v[n]) for i, n in enumerate(CLIP)}
    s.objs['clip'] = c
    R = paint.Run()
    R.engine = e
    R.v = v
    R.dvars = {}
    R.sc = [c for c in conds if not (type(c) is int and c)]
    R.outs = []
    for c in R.sc:
        if not e.add_cond(s, c):
            return R
    R.outs = e.run('h_clear', [P('fb', 0), P('clip', 0)], s)
    return R


def clip_of(R, env):
    env = paint.full_env(R, env)
    for x in R.base.values():
        if type(x) is T and x.op == 'v':
            env[x.a[0]] = min(max(env.get(x.a[0], x.lo), x.lo), x.hi)
    return tuple(S.evalt(R.v[n], env, {}) for n in CLIP), env


def compare(clip, fb, prop):
    exp = oracle.model_clear(fb, clip)
    bad = clip[3] > 536 or clip[2] > 336 or clip[0] >= clip[2] or clip[1] >= clip[3]
    out = []
    for prof in ('checked', 'release'):
        k, g = native.clear(fb, clip, prof)
        if k != 'ok':
            out.append('%s build: %s' % (prof, k))
        elif g != exp and (prop == 'C14') == (not bad):
            out.append('%s build: %s' % (prof, paint.first_diff(exp, g)))
    return '; '.join(out) or None


def valid(a, b, N, st=None, y=None):
    """rectangle from column 32a+s to 32b+t and from row miny, n rows, n <= N"""
    tmax = 16 if b == 10 else 31
    s = st[0] if st else S.var('s', 64, 0, 31)
    t = st[1] if st else S.var('t', 64, 0 if b > a else 1, tmax)
    my = y if y is not None else S.var('my', 64, 0, 535)
    n = S.var('n', 64, 1, N)
    v = dict(minx=add(32 * a, s), maxx=add(32 * b, t), miny=my, maxy=add(my, n))
    cs = [le(add(my, n), 536)]
    if a == b:
        cs.append(lt(s, t))
    return v, cs, dict(s=s, t=t, my=my, n=n)


def mask(a, b, s, t, k):
    """bits [32a+s, 32b+t) of word k"""
    s = S.trunc(s, W, 32)
    t = S.trunc(t, W, 32)
    lo = S.shl(0xffffffff, s, 32)
    hi = S.sub(S.shl(1, t, 32), 1, 32)
    if k < a or k > b:
        return 0
    if k == a == b:
        return S.and_(lo, hi, 32)
    if k == a:
        return lo
    if k == b:
        return hi
    return 0xffffffff


def obligations(R, pr, a, b, N):
    F = S.var('F', 32)
    s, t, my, n = (R.base[x] for x in ('s', 't', 'my', 'n'))
    base = S.mul(my, 11, W)
    for kind, st, info in R.outs:
        if kind != 'ret':
            raise Cex('%s (%s)' % (kind, info), paint.model(R, pr, st))
        pc0 = tuple(conj(st, R.sc))
        ev = events(st)
        rows = {}
        wide = []
        for e in ev:
            if e[0] == 'R':
                lo, hi = S.diff_iv(e[1], base)[0], S.diff_iv(e[2][0], base)[1] - 1
            else:
                lo, hi = S.diff_iv(e[1], base)
            if e[0] != 'L' and not (lo >= 0 and hi < 11 * N):
                end = e[2][0] if e[0] == 'R' else add(e[1], 1)
                need(pr, pc0, S.bor(S.not_(e[3]), S.band(le(base, e[1]), le(end, add(base, S.mul(n, 11, W))))),
                     'store outside of the rectangle\'s rows')
            if hi - lo > 60:
                wide.append(e)
            else:
                for r in range(max(0, lo // 11), min(N - 1, hi // 11) + 1):
                    rows.setdefault(r, []).append(e)
        for r in range(N):
            evr = rows.get(r, [])
            if wide:
                w = set(map(id, evr)) | set(map(id, wide))
                evr = [e for e in ev if id(e) in w]
            inr = lt(r, n)
            for cond, on in ((inr, True), (S.not_(inr), False)):
                if type(cond) is int and not cond:
                    continue
                pc = tuple(list(pc0) + ([cond] if type(cond) is T else []))
                if not on and not evr:
                    pr.folded += 1
                    continue
                for k in range(11):
                    fin, left = paint.final_at(pr, pc, evr, add(base, 11 * r + k), F)
                    m = mask(a, b, s, t, k) if on else 0
                    need(pr, pc, S.eq(fin, S.or_(F, m, 32), 32),
                         'row %d word %d: wrong pixels' % (r, k) if on else 'a row below the rectangle changes')


def refute(prop, R, env, what):
    clip, env = clip_of(R, env)
    for fb in (paint.rnd_fb(1), [0] * 5896, [0xffffffff] * 5896):
        d = compare(clip, fb, prop)
        if d:
            return [('%s: clearing %s: %s' % (what, clip, d), dict(clip=clip, fb='random seed 1, zeros or ones'))]
    return []


def witness(R, pr):
    n = 0
    errs = []
    for kind, st, info in R.outs[:2]:
        if kind != 'ret':
            continue
        env = paint.model(R, pr, st)
        if env is None:
            continue
        clip, env = clip_of(R, env)
        fb = paint.rnd_fb(3)
        k, g = native.clear(fb, clip)
        f = list(fb)
        memo = {}
        for kk, i, val, gd in events(st):
            if not S.evalt(gd, env, memo):
                continue
            i = S.evalt(i, env, memo)
            if kk == 'L':
                env[val.a[0]] = f[i]
            elif kk == 'S':
                f[i] = S.evalt(val, env, memo)
            else:
                for j in range(i, S.evalt(val[0], env, memo)):
                    f[j] = S.evalt(val[1], env, memo)
        n += 1
        if k != 'ok' or g != f:
            errs.append('encoding and native code disagree on clearing %s (%s)' % (clip, k))
    return n, errs


def solve(prop, mk, check, limit):
    """explore and decide one case; returns task result, or raises Undecided"""
    out = dict(stats={}, violations=[], errors=[], samples=[])
    S.reset()
    pr = core.Prover(10000)
    deadline = time.time() + limit
    v, cs, base = mk()
    R = None
    try:
        R = explore(v, cs, deadline)
        R.base = base
        core.add_stats(out['stats'], core.engine_stats(R.engine))
        core.add_stats(out['stats'], dict(outcomes=len(R.outs)))
        if not R.outs:
            raise Undecided('no outcome')
        check(R, pr)
        n, e = witness(R, pr)
        core.add_stats(out['stats'], dict(witnesses=n))
        out['errors'] += e
        c = paint.model(R, pr, R.outs[0][1])
        if c is not None:
            out['samples'].append('%s rectangle %s: %d path(s)' % (prop, clip_of(R, c)[0], len(R.outs)))
    except Cex as c:
        v = refute(prop, R, c.env, c.what)
        if not v:
            raise Undecided('counterexample did not reproduce: %s %s' % (c.what, clip_of(R, c.env)[0]))
        out['violations'] += v
    finally:
        core.add_stats(out['stats'], pr.stats())
        core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
    return out


def total(R, pr):
    for kind, st, info in R.outs:
        if kind != 'ret':
            env = paint.model(R, pr, st)
            if env is None:
                raise Undecided('%s path without a model' % kind)
            raise Cex('%s (%s)' % (kind, info), env)
        pr.folded += 1


def valid_task(prop, a, b, N, limit, seed):
    r = random.Random('%d %d %d' % (a, b, seed))
    tm = 16 if b == 10 else 31
    sts = [(s, t) for s in (0, 31, r.randint(1, 30)) for t in {0, tm, r.randint(1, tm), 1} if a < b or s < t]
    N0 = N
    plans = [(None, N, limit), (None, 2, limit)]
    errs = []
    chk = lambda N: (lambda R, pr: obligations(R, pr, a, b, N)) if prop == 'C14' else total
    for st, n, lim in plans:
        try:
            return solve(prop, lambda: valid(a, b, n, st), chk(n), lim)
        except (Undecided, ex.Unsupported, ex.Budget) as e:
            errs.append('%s: %s' % (type(e).__name__, e))
    # column edges concrete
    out = dict(stats={}, violations=[], errors=[], samples=[])
    bad = 0
    end = time.time() + 3 * limit
    for st in sts[:6]:
        if time.time() > end:
            break
        try:
            o = solve(prop, lambda: valid(a, b, 3, st), chk(3), limit)
            core.add_stats(out['stats'], o['stats'])
            out['violations'] += o['violations']
            out['errors'] += o['errors']
        except (Undecided, ex.Unsupported, ex.Budget) as e:
            errs.append('%s: %s' % (type(e).__name__, e))
            bad += 1
    core.add_stats(out['stats'], dict(concrete_columns_instead=1))
    # native replays
    n = 0
    for st in sts:
        for y in (0, r.randint(0, 500), 533):
            for h in (1, 3):
                clip = (32 * a + st[0], y, 32 * b + st[1], y + h)
                d = compare(clip, paint.rnd_fb(y), prop)
                n += 1
                if d and not out['violations']:
                    out['violations'].append(('clearing %s: %s' % (clip, d), dict(clip=clip, fb='seed %d' % y)))
    core.add_stats(out['stats'], dict(fallback_replays=n))
    if bad and not out['violations']:
        out['errors'].append('columns %d..%d: %s' % (a, b, errs[-1]))
    return out


FREE = lambda n, lo=0, hi=M64: S.var(n, 64, lo, hi)
BAD = {
    'reaches below the screen': lambda: (dict(minx=FREE('x0'), miny=FREE('y0'), maxx=FREE('x1'), maxy=FREE('y1', 537)), []),
    'reaches right of the screen': lambda: (dict(minx=FREE('x0'), miny=FREE('y0'), maxx=FREE('x1', 337), maxy=FREE('y1')), []),
    'no columns': lambda: (lambda x0, x1: (dict(minx=x0, miny=FREE('y0'), maxx=x1, maxy=FREE('y1')), [le(x1, x0)]))(FREE('x0'), FREE('x1')),
    'no rows': lambda: (lambda y0, y1: (dict(minx=FREE('x0'), miny=y0, maxx=FREE('x1'), maxy=y1), [le(y1, y0)]))(FREE('y0'), FREE('y1')),
}


def bad_task(prop, name, limit, seed):
    def mk():
        v, cs = BAD[name]()
        return v, cs, v

    def check(R, pr):
        total(R, pr)
        F = S.var('F', 32)
        w = S.var('W1', 64, 0, 5895)
        for kind, st, info in R.outs:
            pc = tuple(conj(st, R.sc))
            ev = events(st)
            if not any(e[0] in 'SR' for e in ev):
                pr.folded += 1
                continue
            fin, left = paint.final_at(pr, pc, ev, w, F)
            need(pr, pc, S.eq(fin, F, 32), 'a pixel changes')
    try:
        return solve(prop, mk, check, limit)
    except (Undecided, ex.Unsupported, ex.Budget) as e:
        out = dict(stats={}, violations=[], errors=[], samples=[])
        r = random.Random(seed)
        pr = core.Prover(3000)
        S.reset()
        v, cs = BAD[name]()
        n = 0
        for i in range(60):
            extra = [le(v[x], r.choice([0, 31, 335, 336, 337, 352, 400, 536, 537, 600, 1 << 32, M64])) for x in r.sample(CLIP, r.randint(1, 4))]
            k, env = pr.solver.check(cs + [c for c in extra if type(c) is T])
            if k != 'sat':
                continue
            clip = tuple(S.evalt(v[x], {**{y.a[0]: y.lo for y in v.values()}, **env}, {}) for x in CLIP)
            d = compare(clip, paint.rnd_fb(i), prop)
            n += 1
            if d:
                out['violations'].append(('clearing %s: %s' % (clip, d), dict(clip=clip, fb='seed %d' % i)))
                break
        core.add_stats(out['stats'], dict(fallback_replays=n))
        if not out['violations']:
            out['errors'].append('%s: %s' % (name, e))
        return out


def dispatch(kind, *a):
    return valid_task(*a) if kind == 'valid' else bad_task(*a)


def main(prop):
    ck = core.Check(prop, 90, 1500)
    build.module()
    for p in ('checked', 'release'):
        native._lib(p)
    tasks = []
    names = []
    pairs = [(a, b) for a in range(11) for b in range(a, 11)]
    if prop == 'C15':
        for nm in BAD:
            tasks.append(('bad', prop, nm, 60, ck.seed))
            names.append(nm)
    N = 40 if ck.quick else 536
    for a, b in pairs:
        tasks.append(('valid', prop, a, b, N, 25 if ck.quick else 200, ck.seed))
        names.append('words %d..%d, up to %d rows' % (a, b, N))
    full = [(0, 10), (3, 3), (4, 5)] if ck.quick else pairs
    rnd = random.Random(ck.seed)
    for a, b in full:
        n = 536
        tasks.append(('valid', prop, a, b, n, 60 if ck.quick else 600, ck.seed))
        names.append('words %d..%d, up to %d rows' % (a, b, n))
    o = sorted(range(len(tasks)), key=lambda i: -tasks[i][4] if tasks[i][0] == 'valid' else -10 ** 6)
    ck.tasks(dispatch, [tasks[i] for i in o], [names[i] for i in o], 200 if ck.quick else 2000)
    ck.assumptions = ['frame buffer contents: all values (each word symbolic)',
                      'LLVM IR of the library (opt-level 2, overflow checks on) inlined into the harness; code generation below IR is trusted']
    ck.coverage['bounds'] = 'all column edges and all top rows; up to %d rows for all 66 word ranges, up to %d rows for %d of them%s' % (
        N, 536, len(full), '; invalid rectangles: all 64-bit corners' if prop == 'C15' else '')
    ck.finish()
