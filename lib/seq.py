"""Texts of several grapheme clusters painted from a symbolic state: the reference's line breaking
enumerated as cases, and two programs (sequences of paint calls) compared path by path."""
import time

import build
import core
import ex
import lia
import native
import oracle
import paint
import sym as S
from ll import P
from paint import le, lt, add, W, FULL, M64, VARS, T


class Case:
    """one way to lay out the text: conditions on the inputs, the pen position of every glyph and
    the final cursor"""

    def __init__(self, name, ranges, conds, pens, cur):
        self.name = name
        self.ranges = ranges
        self.conds = conds
        self.pens = pens
        self.cur = cur


BASE = dict(minx=(0, 335), maxx=(1, 336), maxy=(0, 536), miny=FULL, cx=FULL, cy=FULL, lh=FULL)


def glyphs(style, text):
    return [None if c == '\n' else (oracle.LINE[f],) + tuple(g[:3]) for f, c, g in oracle.segment(style, text)]


def cases(gs, start=None):
    """layouts of the glyph list gs ((H, w, h, yo) or None for a line break) on which every glyph
    is painted: (name, ranges, conds(v), result(v)).  All line heights are covered: where lh takes
    part in a line break it is below 536, as a larger one leaves the screen."""
    out = []

    def go(i, name, rg, cs, pens, pen):
        # pen: functions of v: x, y, line height as (uses lh0, const floor)
        if i == len(gs):
            out.append((name, rg, cs, pens, pen))
            return
        g = gs[i]
        x, y, (u, c) = pen
        if g is None:
            for alt in breaks(u, c, rg):
                r2, cond, d, t = alt
                go(i + 1, name + '/' + t, r2, cs + cond, pens,
                   (lambda v: v['minx'], plus(y, d), (False, 0)))
            return
        H, w, h, yo = g
        K = w + 3
        fit = lambda v, K=K: lt(add(v['minx'], K), v['maxx'])
        r0 = narrow(rg, minx=(0, 335 - K), maxx=(K + 1, 336))
        if r0 is None:
            return

        def place(nm, r, cond, xx, yy, lhs):
            if r is None:
                return
            low = lambda v: lt(add(yy(v), yo), v['maxy'])
            go(i + 1, name + '/' + nm, r, cs + cond + [fit, low], pens + [(xx, yy, g)],
               (plus(xx, lambda v, K=K: K), yy, (lhs[0], max(lhs[1], H))))
        if x is None:
            # arbitrary cursor
            place('in', narrow(r0, cx=(0, 335 - K), cy=(0, 535)),
                  [lambda v: le(v['minx'], v['cx']), lambda v, K=K: lt(add(v['cx'], K), v['maxx'])],
                  lambda v: v['cx'], y, (u, c))
            place('left', narrow(r0, cx=(0, 334 - K), cy=(0, 535)), [lambda v: lt(v['cx'], v['minx'])],
                  lambda v: v['minx'], y, (u, c))
            over = [lambda v, K=K: le(S.sub(v['maxx'], K, W), v['cx'])]
        else:
            place('in', r0, [lambda v, K=K: lt(add(x(v), K), v['maxx'])], x, y, (u, c))
            over = [lambda v, K=K: le(v['maxx'], add(x(v), K))]
        r1 = narrow(r0, cy=(0, 535))
        if r1 is not None:
            for r2, cond, d, t in breaks(u, c, r1):
                place('wrap-' + t, r2, over + cond, lambda v: v['minx'], plus(y, d), (False, 0))

    def breaks(u, c, rg):
        """line heights at a break: (ranges, conds, drop, name)"""
        f = max(c, 24)
        if not u:
            return [(rg, [], lambda v, f=f: f + 1, 'nl')]
        res = []
        a = narrow(rg, lh=(0, f - 1), cy=(0, 535))
        if a is not None:
            res.append((a, [], lambda v, f=f: f + 1, 'nl'))
        b = narrow(rg, cy=(0, 535))
        if b is not None and rg['lh'] == FULL:
            # t is the y of the next line: lh = t - cy - 1
            res.append((dict(b, t=(f + 1, 535)), [lambda v, f=f: le(add(v['cy'], f + 1), v['t'])],
                        lambda v: S.sub(v['t'], v['cy'], W), 'nl-tall'))
        return res
    go(0, '', dict(BASE), [lambda v: lt(v['minx'], v['maxx'])], [],
       start or (None, lambda v: v['cy'], (True, 0)))
    return out


def plus(f, d):
    return lambda v: add(f(v), d(v))


def narrow(rg, **k):
    d = dict(rg)
    for n, (a, b) in k.items():
        l, h = d[n]
        a, b = max(a, l), min(b, h)
        if a > b:
            return None
        d[n] = (a, b)
    return d


class Run:
    pass


def inputs(rg):
    v = {}
    for n in VARS:
        a, b = rg[n]
        v[n] = a if a == b else S.var(n, 64, a, b)
    if 't' in rg:
        v['t'] = S.var('t', 64, *rg['t'])
        v['lh'] = S.sub(S.sub(v['t'], v['cy'], W), 1, W)
    return v


def execute(calls, v, conds, deadline=None, e=None):
    """symbolic run of consecutive paint calls [(style, text)] on one frame buffer and cursor;
    returns (engine, outcomes)"""
    e = ex.Engine(build.module())
    e.max_steps = 200000
    e.deadline = deadline
    st, n = paint.text_state('x', v)
    for c in conds:
        if not e.add_cond(st, c):
            return e, []
    live = [st]
    done = []
    for i, (style, text) in enumerate(calls):
        nxt = []
        for s in live:
            b = text.encode()
            s = s.fork()
            s.frames = []
            c = ex.Cells(len(b))
            c.d = {j: (1, x) for j, x in enumerate(b)}
            s.objs['txt'] = c
            for k, o, info in paint.call(e, s, style, len(b)):
                if k == 'ret':
                    nxt.append(o)
                else:
                    done.append((k, o, info))
        live = nxt
    return e, [('ret', s, None) for s in live] + done


def canon(st, pr, pc):
    """event list with load variables renamed by position, conditions and values resolved under
    the path; and the cursor"""
    ren = {}
    out = []
    for k, i, val, g in paint.events(st):
        i = res(pr, pc, S.subst(i, ren, {}) if type(i) is T else i)
        g = paint.decide(pr, pc, S.subst(g, ren, {}) if type(g) is T else g)
        if type(g) is int and not g:
            continue
        if k == 'L':
            nv = S.var('ld%d' % len(ren), 32)
            ren[val.a[0]] = nv
            out.append((k, i, nv, g))
        elif k == 'S':
            out.append((k, i, res(pr, pc, S.subst(val, ren, {}) if type(val) is T else val), g))
        else:
            out.append((k, i, (res(pr, pc, val[0]), val[1]), g))
    cur = [res(pr, pc, x) for x in paint.cursor_of(st)]
    return out, cur


def res(pr, pc, t):
    return paint.decide_term(pr, pc, t) if type(t) is T else t


class Differ(Exception):
    def __init__(self, what, env):
        Exception.__init__(self, what)
        self.what = what
        self.env = env


def compare(pr, sc, A, B):
    """every pair of compatible paths paints the same and leaves the same cursor"""
    for ka, sa, ia in A:
        for kb, sb, ib in B:
            pc = tuple(dict.fromkeys(paint.conj(sa, sc) + paint.conj(sb, ())))
            if any(type(c) is int and not c for c in pc):
                continue
            if sa.pc != sb.pc or sa.facts != sb.facts:
                r, env = lia.Lia().decide(frozenset(c for c in pc if type(c) is T), (), 1)
                if r == 'unknown' or r is None:
                    r, env = pr.solver.check(list(pc))
                if r == 'unsat':
                    pr.by_lia += 1
                    continue
            if ka != 'ret' or kb != 'ret':
                raise Differ('%s / %s' % (ka, kb), model(pr, pc))
            ea, ca = canon(sa, pr, pc)
            eb, cb = canon(sb, pr, pc)
            for n, x, y in zip('x y line_height'.split(), ca, cb):
                if x is y or (type(x) is int and x == y):
                    pr.folded += 1
                    continue
                paint.need(pr, pc, S.eq(x, y, W), 'cursor %s differs' % n)
            if len(ea) == len(eb) and all(same(x, y) for x, y in zip(ea, eb)):
                pr.folded += 1
                continue
            if len(ea) == len(eb) and all(x[0] == y[0] and x[0] != 'R' for x, y in zip(ea, eb)) and pointwise(pr, pc, ea, eb):
                continue
            # whole-word comparison
            idx = S.var('W1', 64, 0, 5895)
            F = S.var('F', 32)
            fa, _ = paint.final_at(pr, pc, ea, idx, F)
            fb, _ = paint.final_at(pr, pc, eb, idx, F)
            paint.need(pr, pc, S.eq(fa, fb, 32), 'pixels differ')


def same(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'R':
        return eqv(x[1], y[1]) and eqv(x[2][0], y[2][0]) and eqv(x[2][1], y[2][1]) and eqv(x[3], y[3])
    return eqv(x[1], y[1]) and eqv(x[2], y[2]) and eqv(x[3], y[3])


def eqv(a, b):
    return a is b or (type(a) is int and type(b) is int and a == b)


def pointwise(pr, pc, ea, eb):
    for x, y in zip(ea, eb):
        for a, b, w in ((x[1], y[1], W), (x[2], y[2], 32), (x[3], y[3], 1)):
            if eqv(a, b):
                continue
            if w == 1:
                g = S.bor(S.band(a, b), S.band(S.not_(a), S.not_(b)))
            else:
                g = S.eq(a, b, w)
            if pr.prove(list(pc), g) is not True:
                return False
    return True


def model(pr, pc):
    r, env = lia.Lia().decide(frozenset(c for c in pc if type(c) is T), (), 1)
    if r == 'sat':
        return env
    r, env = pr.solver.check(list(pc))
    return env if r == 'sat' else None


def concrete(v, env):
    env = dict(env or {})
    for x in v.values():
        if type(x) is T and x.op == 'v':
            n = x.a[0]
            env[n] = min(max(env.get(n, x.lo), x.lo), x.hi)
    out = [S.evalt(v[n], env, {}) for n in VARS]
    return tuple(out[:4]), tuple(out[4:])


def run_native(calls, clip, cur, fb, prof):
    for style, text in calls:
        k, fb, cur = native.paint(fb, clip, cur, style, text, prof)
        if k != 'ok':
            return k, None, None
    return 'ok', fb, tuple(cur)


def native_differ(a, b, clip, cur, fb, cursor=True):
    for prof in ('checked', 'release'):
        x = run_native(a, clip, cur, fb, prof)
        y = run_native(b, clip, cur, fb, prof)
        if x[0] != 'ok' or y[0] != 'ok':
            if x[0] != y[0]:
                return '%s build: %s / %s' % (prof, x[0], y[0])
            continue
        if x[1] != y[1]:
            return '%s build: %s' % (prof, paint.first_diff(x[1], y[1]).replace('the reference', 'each other'))
        if cursor and x[2] != y[2]:
            return '%s build: cursors %s and %s' % (prof, x[2], y[2])
    return None


def final(v, pen):
    x, y, (u, c) = pen
    lh = v['lh'] if u else 0
    return [x(v) if x else v['cx'], y(v), S.ite(lt(lh, c), c, lh, W) if u else c]


def complete(gs, pr):
    """the cases cover every input on which the reference paints all glyphs of gs (line heights
    below 2^62)"""
    v = {n: S.var('k_' + n, 64) for n in VARS}
    cs = [lt(v['minx'], v['maxx']), le(v['maxx'], 336), le(v['maxy'], 536)]
    big = 1 << 62
    x, y, lh = v['cx'], v['cy'], v['lh']
    cs += [lt(x, big), lt(y, big)]
    for g in gs:
        drop = S.add(S.ite(lt(lh, 24), 24, lh, W), 1, W)
        if g is None:
            cs.append(lt(lh, big))
            cs.append(lt(y, 536))
            cs.append(lt(add(y, drop), 536))
            x, y, lh = v['minx'], add(y, drop), 0
            continue
        H, w, h, yo = g
        K = w + 3
        cs.append(lt(add(v['minx'], K), v['maxx']))
        x1 = S.ite(lt(x, v['minx']), v['minx'], x, W)
        wrap = le(v['maxx'], add(x1, K))
        cs.append(S.bor(S.not_(wrap), lt(lh, big)))
        x = S.ite(wrap, v['minx'], x1, W)
        y = S.ite(wrap, add(y, drop), y, W)
        lh = S.ite(wrap, 0, lh, W)
        cs.append(lt(add(y, yo), v['maxy']))
        x = add(x, K)
        lh = S.ite(lt(lh, H), H, lh, W)
    alts = []
    for name, rg, conds, pens, pen in cases(gs):
        u = dict(v)
        a = []
        for n, (lo, hi) in rg.items():
            if n == 'lh' and 't' in rg:
                continue
            if n == 't':
                u['t'] = add(v['cy'], v['lh'], 1)
                a.append(lt(v['lh'], big))
            if lo:
                a.append(le(lo, u[n]))
            if hi < M64:
                a.append(le(u[n], hi))
        alts.append(S.band(*(a + [f(u) for f in conds])))
    cs = [c for c in cs if not (type(c) is int and c)]
    r = pr.solver.check(cs + [S.not_(S.bor(*alts))])
    pr.by_z3 += r[0] == 'unsat'
    return r
