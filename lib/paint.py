"""Scenarios for painting one grapheme cluster with symbolic clip rectangle, cursor, frame
buffer and glyph bitmap, the obligations over their outcomes, and native replay."""
import random
import time

import build
import core
import ex
import lia
import native
import oracle
import sym as S
from ll import P

W = 64
M64 = (1 << 64) - 1
VARS = ('minx', 'miny', 'maxx', 'maxy', 'cx', 'cy', 'lh')
FULL = (0, M64)


def lt(a, b):
    return S.ult(a, b, W)


def le(a, b):
    return S.not_(S.ult(b, a, W))


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = S.add(r, x, W)
    return r


class Scen:
    """a set of inputs: variable ranges plus conditions, and what the reference does on it.
    kind: paint (glyph drawn), stall (nothing drawn)"""

    def __init__(self, name, kind, ranges, conds, x0=None, yb=None, lh1=None, why='', extra=None, derive=None):
        self.extra = extra or {}
        self.derive = derive or {}
        self.name = name
        self.kind = kind
        self.ranges = ranges
        self.conds = conds
        self.x0 = x0
        self.yb = yb
        self.lh1 = lh1
        self.why = why


BASE = dict(minx=(0, 335), maxx=(1, 336), maxy=(0, 536), miny=FULL, cx=FULL, cy=FULL, lh=FULL)


def scenarios(w, h, yo):
    """a partition of all 2^448 inputs (checked by coverage()) for a w x h glyph at vertical offset yo"""
    def R(**k):
        d = dict(BASE)
        d.update(k)
        return d
    K = w + 3
    out = []
    fit = lambda v: lt(add(v['minx'], K), v['maxx'])
    rect = lambda v: lt(v['minx'], v['maxx'])
    out.append(Scen('inside', 'paint', R(minx=(0, 335 - K), maxx=(K + 1, 336), cx=(0, 335 - K), cy=(0, 535)),
                    lambda v: [rect(v), le(v['minx'], v['cx']), lt(add(v['cx'], K), v['maxx']), lt(add(v['cy'], yo), v['maxy'])],
                    x0=lambda v: add(v['cx'], 1), yb=lambda v: v['cy'], lh1=lambda v: v['lh'],
                    why='fits on the current line'))
    out.append(Scen('left', 'paint', R(minx=(0, 335 - K), maxx=(K + 1, 336), cx=(0, 334 - K), cy=(0, 535)),
                    lambda v: [rect(v), lt(v['cx'], v['minx']), fit(v), lt(add(v['cy'], yo), v['maxy'])],
                    x0=lambda v: add(v['minx'], 1), yb=lambda v: v['cy'], lh1=lambda v: v['lh'],
                    why='cursor left of the clip rectangle'))
    if K < 335:
        out.append(Scen('wrap-short', 'paint', R(minx=(0, 335 - K), maxx=(K + 1, 336), cy=(0, 535), lh=(0, 23)),
                        lambda v: [rect(v), fit(v), le(S.sub(v['maxx'], K, W), v['cx']), lt(add(v['cy'], 25 + yo), v['maxy'])],
                        x0=lambda v: add(v['minx'], 1), yb=lambda v: add(v['cy'], 25), lh1=lambda v: 0,
                        why='wraps, line height below 24'))
        # t is the y of the next line: cy = t - lh - 1
        out.append(Scen('wrap-tall', 'paint', R(minx=(0, 335 - K), maxx=(K + 1, 336), lh=(24, 534)),
                        lambda v: [rect(v), fit(v), le(S.sub(v['maxx'], K, W), v['cx']), lt(add(v['t'], yo), v['maxy']), lt(v['lh'], v['t'])],
                        x0=lambda v: add(v['minx'], 1), yb=lambda v: v['t'], lh1=lambda v: 0,
                        extra=dict(t=((25, 535), lambda v: S.ite(S.band(lt(v['cy'], 536), lt(v['lh'], 536)), add(v['cy'], v['lh'], 1), 0, W))),
                        derive=dict(cy=lambda v: S.sub(S.sub(v['t'], v['lh'], W), 1, W)),
                        why='wraps, line height 24 or more'))
        nowrap = lambda v: lt(v['cx'], S.sub(v['maxx'], K, W))
        low = lambda v, d: S.not_(S.band(lt(v['cy'], v['maxy']), lt(add(v['cy'], d), v['maxy'])))
        out.append(Scen('below', 'stall', R(minx=(0, 335 - K), maxx=(K + 1, 336)),
                        lambda v: [rect(v), fit(v), nowrap(v), low(v, yo)],
                        why='fits on the line, below the clip rectangle'))
        out.append(Scen('wrap-below-short', 'stall', R(minx=(0, 335 - K), maxx=(K + 1, 336), lh=(0, 23)),
                        lambda v: [rect(v), fit(v), S.not_(nowrap(v)), low(v, 25 + yo)],
                        why='wraps to a line below the clip rectangle'))
        out.append(Scen('wrap-below-tall', 'stall', R(minx=(0, 335 - K), maxx=(K + 1, 336), lh=(24, M64)),
                        lambda v: [rect(v), fit(v), S.not_(nowrap(v)),
                                   S.not_(S.band(lt(v['cy'], v['maxy']), lt(v['lh'], v['maxy']),
                                                 lt(add(v['cy'], v['lh'], 1 + yo), v['maxy'])))],
                        why='wraps to a line below the clip rectangle'))
    out.append(Scen('narrow', 'stall', R(),
                    lambda v: [rect(v), le(v['maxx'], add(v['minx'], K))],
                    why='wider than the clip rectangle'))
    F = dict((n, FULL) for n in VARS)
    out.append(Scen('tall-clip', 'stall', dict(F, maxy=(537, M64)), lambda v: [], why='rectangle extends below the screen'))
    out.append(Scen('wide-clip', 'stall', dict(F, maxx=(337, M64)), lambda v: [], why='rectangle extends right of the screen'))
    out.append(Scen('empty-clip', 'stall', F, lambda v: [le(v['maxx'], v['minx'])], why='empty or reversed rectangle'))
    return out


def coverage(w, h, yo, pr):
    """the scenarios cover every input"""
    v = {n: S.var('c_' + n, 64) for n in VARS}
    alts = []
    for s in scenarios(w, h, yo):
        cs = []
        v = dict(v)
        for n, (r, f) in s.extra.items():
            v[n] = f(v)
        for n in VARS + tuple(s.extra):
            a, b = s.ranges[n] if n in s.ranges else s.extra[n][0]
            if a:
                cs.append(le(a, v[n]))
            if b < M64:
                cs.append(le(v[n], b))
        alts.append(S.band(*(cs + s.conds(v))))
    r = pr.solver.check([S.not_(S.bor(*alts))])
    pr.by_z3 += r[0] == 'unsat'
    return r[0] == 'unsat'


# ------------------------------------------------------------------ running

def text_state(text, v, mode='log', init=None):
    s = ex.State()
    s.objs['fb'] = ex.FB(5896, mode, init)
    c = ex.Cells(32, True)
    c.d = {8 * i: (8, v[n]) for i, n in enumerate(VARS[:4])}
    s.objs['clip'] = c
    c = ex.Cells(24, True)
    c.d = {8 * i: (8, v[n]) for i, n in enumerate(VARS[4:])}
    s.objs['cur'] = c
    b = text.encode() if isinstance(text, str) else text
    c = ex.Cells(len(b))
    c.d = {i: (1, x) for i, x in enumerate(b)}
    s.objs['txt'] = c
    return s, len(b)


def call(e, s, style, n):
    return e.run('h_paint', [P('fb', 0), P('clip', 0), P('cur', 0), style, P('txt', 0), n], s)


ROOMY = dict(minx=0, miny=0, maxx=336, maxy=536, cx=6, cy=6, lh=0)


def trace(text, style, v=None):
    """(engine outcomes, constant loads) of a concrete run"""
    e = ex.Engine(build.module())
    e.max_steps = 400000
    e.trace_loads = []
    s, n = text_state(text, v or ROOMY, 'cells', lambda i: 0)
    out = call(e, s, style, n)
    return e, out


def glyph_words(g):
    w, h, yo, rows = g
    n = w * h
    stream = 0
    for r in range(h):
        stream = (stream << w) | rows[r]
    nw = (n + 31) // 32
    stream <<= nw * 32 - n
    return [(stream >> (32 * (nw - 1 - i))) & 0xffffffff for i in range(nw)]


def find_data(text, style, g):
    """(object, offset of the header) of the glyph data the real code reads for text, or None"""
    e, out = trace(text, style)
    w, h, yo, rows = g
    hdr = (w << 16) | (h << 8) | yo
    words = glyph_words(g)
    loads = {(o, f): v for o, f, z, v in e.trace_loads if z == 4}
    for (o, f), v in loads.items():
        if v == hdr and all(loads.get((o, f + 4 + 4 * i), x) == x for i, x in enumerate(words)) \
                and sum((o, f + 4 + 4 * i) in loads for i in range(len(words))) == len(words):
            return o, f
    return None


class Run:
    """one scenario explored: outcomes with their path conditions"""


def explore(text, style, g, scen, symbolic=True, deadline=None, fixed=None, data=None, words=None):
    """run the real code on the scenario; fixed: variable -> value"""
    w, h, yo, rows = g
    e = ex.Engine(build.module())
    e.max_steps = 60000
    e.deadline = deadline
    v = {}
    for n in VARS:
        a, b = scen.ranges[n]
        v[n] = a if a == b else S.var(n, 64, a, b)
        if fixed and n in fixed:
            v[n] = fixed[n]
    for n, ((a, b), f) in scen.extra.items():
        v[n] = S.var(n, 64, a, b)
    for n, f in scen.derive.items():
        v[n] = f(v)
    R = Run()
    R.engine = e
    R.v = v
    R.g = g
    R.scen = scen
    R.text = text
    R.style = style
    R.rows = list(rows)
    R.dvars = {}
    if symbolic and data is not None:
        n = w * h
        nw = (n + 31) // 32
        R.rows = [S.var('B%d' % r, w) for r in range(h)]
        for r in range(h):
            R.dvars['B%d' % r] = rows[r]
        for i in range(nw):
            ps = []
            bit = 32 * i
            while bit < 32 * i + 32:
                r, o = divmod(bit, w)
                if r >= h:
                    ps.append((None, 0, 32 * i + 32 - bit))
                    break
                k = min(w - o, 32 * i + 32 - bit)
                ps.append((R.rows[r], w - o - k, k))
                bit += k
            e.const_override[(data[0], data[1] + 4 + 4 * i, 4)] = S.mk_cat(tuple(ps)) if words is None else words[i + 1]
    s, n = text_state(text, v)
    R.sc = [c for c in scen.conds(v) if not (type(c) is int and c)]
    for c in R.sc:
        if not e.add_cond(s, c):
            R.outs = []
            return R
    R.outs = call(e, s, style, n)
    return R


# ------------------------------------------------------------------ obligations

def events(st, kinds='LSR'):
    return [x for x in st.objs['fb'].ev if x[0] in kinds]


def conj(st, extra=()):
    return st.conds() + [c for c in extra if not (type(c) is int and c)]


def final_at(pr, pc, ev, idx, F):
    """content of frame buffer word idx after the event log, from initial content F, under pc;
    conditions that pc decides are folded.  Also returns the load variables left over."""
    cur = F
    sub = {}
    left = set()
    for k, i, val, g in ev:
        if k == 'R':
            hit = S.band(le(i, idx), lt(idx, val[0]), g)
        else:
            d = S.sub(i, idx, W)
            if type(d) is int:
                if d:
                    if k == 'L':
                        left.add(val)
                    continue
                hit = g
            else:
                a, b = S.diff_iv(i, idx)
                if a > 0 or b < 0:
                    if k == 'L':
                        left.add(val)
                    continue
                hit = S.band(S.eq(i, idx, W), g)
        hit = decide(pr, pc, hit)
        if type(hit) is int and hit == 0:
            if k == 'L':
                left.add(val)
            continue
        if k == 'L':
            sub[val.a[0]] = (hit, cur, val)
            if type(hit) is not int:
                left.add(val)
            continue
        x = val[1] if k == 'R' else val
        if sub and type(x) is T:
            hl = lits(hit)
            x = S.subst(x, {n: c if lits(hc) <= hl else S.ite(hc, c, t, 32) for n, (hc, c, t) in sub.items()}, {})
        cur = x if type(hit) is int else S.ite(hit, x, cur, 32)
    return cur, left


T = S.T


def lits(c):
    if type(c) is int:
        return frozenset()
    return frozenset(c.a) if c.op == 'band' else frozenset((c,))


def decide(pr, pc, c):
    """c simplified under the path condition: implied literals dropped, 0 when contradictory"""
    if type(c) is int:
        return c
    ctx = pr.__dict__.setdefault('_ctx', {})
    P = ctx.get(pc)
    if P is None:
        if len(ctx) > 400:
            ctx.clear()
        fs = set()
        for x in pc:
            if type(x) is T:
                fs |= set(x.a) if x.op == 'band' else {x}
        P = ctx[pc] = (frozenset(fs), {})
    fs, memo = P
    out = []
    for x in (c.a if c.op == 'band' else (c,)):
        if x in fs:
            continue
        r = memo.get(x)
        if r is None:
            r = x
            if S.not_(x) in fs or pr.lia.decide(fs, (), x)[0] == 'unsat':
                r = 0
            elif pr.lia.decide(fs, (), S.not_(x))[0] == 'unsat':
                r = 1
            memo[x] = r
        if type(r) is int and not r:
            return 0
        if type(r) is T:
            out.append(r)
    if not out:
        return 1
    r = S.band(*out)
    if len(out) > 1 and type(r) is T:
        k = memo.get(r)
        if k is None:
            k = memo[r] = 0 if pr.lia.decide(fs, (), r)[0] == 'unsat' else r
        r = k
    return r


class Cex(Exception):
    """an obligation fails: env"""

    def __init__(self, what, env):
        Exception.__init__(self, what)
        self.what = what
        self.env = env


class Undecided(Exception):
    pass


def need(pr, pc, goal, what, least=None, row=None):
    """prove pc => goal; first (cached) from the conditions `least` alone, with the row's bitmap
    variable renamed so that rows share proofs"""
    if least is not None and type(goal) is T:
        g = S.subst(goal, {row[0]: S.var('B', row[1])}, {}) if row else goal
        key = (frozenset(least), g)
        c = pr.__dict__.setdefault('_need', {})
        if key not in c:
            c[key] = pr.solver.check(list(least) + [S.not_(g)])[0] == 'unsat' if type(g) is T else bool(g)
        if c[key]:
            pr.by_z3 += 1
            return
    r = pr.prove(list(pc), goal)
    if r is True:
        return
    if r is None:
        raise Undecided(what)
    raise Cex(what, r)


def xspan(R):
    """left edge and top of the glyph; the pen's line is R.pen_y when set (the line the code
    itself moved to), else the reference's"""
    v = R.v
    y = R.scen.yb(v) if getattr(R, 'pen_y', None) is None else R.pen_y
    return R.scen.x0(v), add(y, R.g[2])


def inrows(R, r):
    x0, y0 = xspan(R)
    y = add(y0, r)
    return S.band(le(R.v['miny'], y), lt(y, R.v['maxy']))


def is_nop_store(ev, pos):
    """the store at pos writes back the value just loaded from the same word"""
    k, i, val, g = ev[pos]
    for q in range(pos - 1, -1, -1):
        kk, ii, vv, gg = ev[q]
        if kk == 'L' and vv is val:
            return S.sub(ii, i, W) == 0 if True else False
        if kk == 'S' and S.sub(ii, i, W) == 0:
            return False
    return False


def check_exact(R, pr, only=None):
    """C03: the frame buffer changes exactly by the clipped, aligned glyph bitmap"""
    w, h, yo, rows = R.g
    v = R.v
    for kind, st, info in R.outs:
        if kind != 'ret':
            raise Cex('%s (%s)' % (kind, info), model(R, pr, st))
        R.pen_y = None
        if R.scen.name.startswith('wrap') and R.scen.kind == 'paint':
            # on the line the cursor was moved to (which line that is belongs to C05)
            R.pen_y = st.objs['cur'].d[8][1]
            R.pen_y = decide_term(pr, tuple(conj(st, R.sc)), R.pen_y)
            if S.hi(R.pen_y) > 2000:
                R.pen_y = None
        ev = events(st)
        pc0 = tuple(conj(st, R.sc))
        if R.scen.kind == 'stall':
            nothing_painted(R, pr, st, ev, pc0)
            continue
        x0, y0 = xspan(R)
        base = S.mul(y0, 11, W)
        q = S.lshr(x0, 5, W)
        sh = S.trunc(S.and_(x0, 31, W), W, 32)
        k = S.var('k', 64, 0, 10)
        F = S.var('F', 32)
        # nothing outside the glyph's rows
        lo = base
        hi = add(base, 11 * h)
        for e in ev:
            if e[0] == 'L':
                continue
            if e[0] == 'R':
                need(pr, pc0, S.bor(S.not_(e[3]), S.band(le(lo, e[1]), le(e[2][0], hi))), 'fill outside of the glyph rows')
                continue
            a, b = S.diff_iv(e[1], base)
            if a >= 0 and b < 11 * h:
                pr.folded += 1
                continue
            need(pr, pc0, S.bor(S.not_(e[3]), S.band(le(lo, e[1]), lt(e[1], hi))), 'store outside of the glyph rows')
        for r in range(h):
            if only is not None and r not in only:
                continue
            inr = inrows(R, r)
            B = rows[r] if not R.dvars else R.rows[r]
            B = S.zext(B, w, 32) if w < 32 else B
            evr = []
            for e in ev:
                if e[0] != 'R':
                    a, b = S.diff_iv(e[1], base)
                    if a > 11 * r + 10 or b < 11 * r:
                        continue
                evr.append(e)
            for cond, on in ((inr, True), (S.not_(inr), False)):
                if type(cond) is int and not cond:
                    continue
                pcr = tuple(list(pc0) + ([cond] if type(cond) is T else []))
                for which in (0, 1, 2):
                    if which == 0:
                        idx = add(base, 11 * r, q)
                        exp = S.shl(B, sh, 32)
                        extra = []
                    elif which == 1:
                        idx = add(base, 11 * r, q, 1)
                        exp = spill(B, w, sh)
                        extra = [lt(q, 10)]
                    else:
                        idx = add(base, 11 * r, k)
                        exp = 0
                        extra = [S.not_(S.eq(k, q, W)), S.not_(S.eq(k, add(q, 1), W))]
                    if not on:
                        exp = 0
                    pcw = tuple(list(pcr) + [x for x in extra if type(x) is T])
                    fin, left = final_at(pr, pcw, evr, idx, F)
                    goal = S.eq(fin, S.xor(F, exp, 32), 32)
                    need(pr, pcw, goal, 'row %d word %s differs from the glyph bitmap%s' % (
                        r, ('', '+1', '(other)')[which], '' if on else ' (row outside of the clip rectangle)'),
                         least=R.sc + [x for x in extra if type(x) is T], row=('B%d' % r, w) if R.dvars else None)


def spill(B, w, sh):
    """bits of B << sh that fall into the next word"""
    z = S.zext(B, 32, 64)
    return S.slice_(S.shl(z, S.zext(sh, 32, 64), 64), 32, 32, 64)


def nothing_painted(R, pr, st, ev, pc0):
    W1 = S.var('W1', 64, 0, 5895)
    F = S.var('F', 32)
    if not any(e[0] in 'SR' for e in ev):
        pr.folded += 1
        return
    fin, left = final_at(pr, pc0, ev, W1, F)
    need(pr, pc0, S.eq(fin, F, 32), 'a pixel changes although nothing should be painted')


def decide_term(pr, pc, t):
    """t with if-then-elses resolved that pc settles"""
    for _ in range(8):
        f = lia.find_ite(t)
        if f is None:
            break
        c = decide(pr, pc, f.a[0])
        if type(c) is not int:
            break
        t = lia.under(t, f.a[0], c, {})
        if type(t) is int:
            break
    return t


def check_inside(R, pr, box=None, what='the clip rectangle'):
    """C02: only pixels inside the clip rectangle and the screen change; box(st): another
    rectangle, in place of the clip rectangle"""
    v = R.v
    y = S.var('y', 64, 0, 535)
    k = S.var('k', 64, 0, 10)
    idx = add(S.mul(y, 11, W), k)
    F = S.var('F', 32)
    empty = R.scen.name in ('tall-clip', 'wide-clip', 'empty-clip')
    for kind, st, info in R.outs:
        if kind != 'ret':
            continue
        ev = events(st)
        pc0 = tuple(conj(st, R.sc))
        if box:
            v = dict(zip(VARS, box(st)))
        for pos, e in enumerate(ev):
            if e[0] == 'L':
                continue
            if e[0] == 'R':
                fin = e[2][1]
                pce = list(pc0) + conds(e[3]) + [le(e[1], idx), lt(idx, e[2][0])]
                chg = S.xor(fin, F, 32)
                here = idx
                kk, yy = k, y
            else:
                pce = list(pc0) + conds(e[3])
                # value relative to what the word held before this event
                fin = e[2]
                sub = {}
                cur = F
                for b in ev[:pos]:
                    d = S.sub(b[1], e[1], W) if b[0] != 'R' else None
                    if b[0] == 'L':
                        if type(d) is int:
                            if d == 0:
                                sub[b[2].a[0]] = cur
                    elif b[0] == 'S' and type(d) is int and d == 0:
                        # the state before this store is arbitrary: start over
                        sub = {}
                        cur = F
                fin = S.subst(fin, sub, {}) if type(fin) is T else fin
                chg = S.xor(fin, F, 32)
                if type(chg) is int and chg == 0:
                    pr.folded += 1
                    continue
                # row and column of this store
                yy, kk = rowcol(R, e[1], y, k)
                if yy is y:
                    pce.append(S.eq(e[1], idx, W))
            # the changed bits must lie in [minx - 32k, maxx - 32k) of a row in [miny, maxy)
            ok_y = S.band(le(v['miny'], yy), lt(yy, v['maxy']), lt(yy, 536))
            if empty:
                ok_y = 0
            need(pr, pce, S.bor(ok_y, S.eq(chg, 0, 32)), 'a row outside of %s changes' % what)
            if type(ok_y) is int:
                continue
            px = S.mul(kk, 32, W)
            # bit positions below a or from b on must not change
            lim = lambda t: S.ite(lt(t, px), 0, S.ite(lt(S.add(px, 32, W), t), 32, S.trunc(S.sub(t, px, W), W, 32), 32), 32)
            a = lim(v['minx'])
            b = lim(v['maxx'])
            z = S.zext(chg, 32, 64)
            la = S.sub(S.shl(1, S.zext(a, 32, 64), 64), 1, 64)
            bv = [n for n in S.term_vars(chg) if n[0] == 'B'] if type(chg) is T else []
            row = (bv[0], R.g[0]) if len(bv) == 1 else None
            least = R.sc + ([] if yy is not y else pce[-1:])
            need(pr, pce, S.eq(S.and_(z, la, 64), 0, 64), 'a pixel left of %s changes' % what, least, row)
            need(pr, pce, S.eq(S.lshr(z, S.zext(b, 32, 64), 64), 0, 64), 'a pixel right of %s changes' % what, least, row)


def conds(g):
    if type(g) is int:
        return [] if g else [0]
    return list(g.a) if g.op == 'band' else [g]


def rowcol(R, idx, y, k):
    """row and word column of a store when its index is 11*(y0+r) + column by structure"""
    if R.scen.kind == 'paint':
        x0, y0 = xspan(R)
        d = S.sub(idx, S.mul(y0, 11, W), W)
        if type(d) is int:
            return add(y0, d // 11), d % 11
        a, b = S.diff_iv(idx, S.mul(y0, 11, W))
        if a >= 0 and a // 11 == b // 11:
            r = a // 11
            return add(y0, r), S.sub(d, 11 * r, W)
    return y, k


def cursor_of(st):
    return [st.objs['cur'].d[8 * i][1] for i in range(3)]


def check_advance(R, pr):
    """C04: advance by width + 3, wrapping exactly at the right edge"""
    if R.scen.kind != 'paint':
        return
    v = R.v
    for kind, st, info in R.outs:
        if kind != 'ret':
            raise Cex('%s (%s)' % (kind, info), model(R, pr, st))
        pc0 = conj(st, R.sc)
        x, y, lh = cursor_of(st)
        need(pr, pc0, S.eq(x, add(R.scen.x0(v), R.g[0] + 2), W), 'cursor x is wrong')
        if R.scen.name.startswith('wrap'):
            need(pr, pc0, lt(v['cy'], y), 'the glyph should wrap to a lower line')
        else:
            need(pr, pc0, S.eq(y, v['cy'], W), 'the cursor leaves its line although the glyph fits')
    if R.scen.name.startswith('wrap'):
        check_exact(R, pr)


def check_lines(R, pr):
    """C05: line spacing and line height bookkeeping"""
    if R.scen.kind != 'paint':
        return
    v = R.v
    H = R.H
    lh1 = R.scen.lh1(v)
    for kind, st, info in R.outs:
        if kind != 'ret':
            raise Cex('%s (%s)' % (kind, info), model(R, pr, st))
        pc0 = conj(st, R.sc)
        x, y, lh = cursor_of(st)
        need(pr, pc0, S.eq(lh, S.ite(lt(lh1, H), H, lh1, W), W), 'line height is wrong')
        if R.scen.name.startswith('wrap'):
            need(pr, pc0, S.eq(y, R.scen.yb(v), W), 'line spacing is wrong')


def check_total(R, pr):
    """C01: every path returns"""
    for kind, st, info in R.outs:
        if kind == 'ret':
            pr.folded += 1
            continue
        env = model(R, pr, st)
        if env is None:
            raise Undecided('%s path without a model' % kind)
        raise Cex('%s (%s)' % (kind, info), env)


def check_pure(R, pr):
    """C13: what is inverted and the cursor do not depend on frame buffer contents, so painting
    again inverts the same pixels"""
    F = S.var('F', 32)
    G = S.var('G', 32)
    for kind, st, info in R.outs:
        lv = {e[2].a[0] for e in events(st, 'L')}
        if kind != 'ret':
            continue
        dep = set()
        for c in st.conds():
            dep |= S.term_vars(c) & lv
        for i in range(3):
            t = st.objs['cur'].d[8 * i][1]
            if type(t) is T:
                dep |= S.term_vars(t) & lv
        if dep:
            raise Cex('control flow or cursor depends on frame buffer contents', model(R, pr, st))
        pr.folded += 1
        ev = events(st)
        pc0 = tuple(conj(st, R.sc))
        for pos, e in enumerate(ev):
            if e[0] == 'L':
                continue
            gl = conds(e[3])
            free = [c for c in gl if type(c) is int or not (S.term_vars(c) & lv)]
            bound = [c for c in gl if type(c) is T and S.term_vars(c) & lv]
            if e[0] == 'R':
                need(pr, list(pc0) + gl, 0, 'a fill overwrites pixels')
                continue
            sub = {}
            for b in ev[:pos]:
                d = S.sub(b[1], e[1], W) if b[0] != 'R' else None
                if type(d) is int and d == 0:
                    if b[0] == 'L':
                        sub[b[2].a[0]] = F
                    else:
                        sub = {}
            val = e[2]
            fin = S.subst(val, sub, {}) if type(val) is T else val
            m1 = S.xor(fin, F, 32)
            if bound:
                m1 = S.ite(S.subst(S.band(*bound), sub, {}), m1, 0, 32)
            m2 = S.subst(m1, {'F': G}, {}) if type(m1) is T else m1
            need(pr, list(pc0) + free, S.eq(m1, m2, 32), 'the change depends on what the frame buffer held')


def model(R, pr, st, extra=()):
    """a concrete input that takes the path of outcome st"""
    pc = conj(st, list(R.sc) + list(extra))
    r, env = lia.Lia().decide(frozenset(c for c in pc if type(c) is T), (), 1)
    if r == 'sat':
        return env
    r, env = pr.solver.check(pc)
    return env if r == 'sat' else None


def fb_from(R, st, env, fb):
    """frame buffer fb with the initial contents env assigns to the words loaded on the path"""
    env = full_env(R, env)
    for n, x in R.dvars.items():
        env.setdefault(n, x)
    fb = list(fb)
    stored = set()
    memo = {}
    try:
        for k, i, val, g in events(st):
            if not S.evalt(g, env, memo):
                continue
            i = S.evalt(i, env, memo)
            if k == 'L':
                if i not in stored and val.a[0] in env:
                    fb[i] = env[val.a[0]]
            elif k == 'S':
                stored.add(i)
    except IndexError:
        pass
    return fb


# ------------------------------------------------------------------ native replay

def concrete(R, env):
    """(clip, cursor) of a counterexample or witness"""
    env = full_env(R, env)
    out = [S.evalt(R.v[n], env, {}) for n in VARS]
    return tuple(out[:4]), tuple(out[4:])


def full_env(R, env):
    env = dict(env or {})
    for x in R.v.values():
        if type(x) is T and x.op == 'v':
            n = x.a[0]
            env[n] = min(max(env.get(n, x.lo), x.lo), x.hi)
    return env


def shape_text(cands):
    return cands


def rnd_fb(seed):
    r = random.Random(seed)
    return [r.getrandbits(32) for _ in range(5896)]


def compare(text, style, clip, cur, fb, prop, single=True):
    """native result against the reference, for the given property; None or a description"""
    exp, ecur = oracle.model_paint(fb, clip, cur, style, text)
    msgs = []
    for prof in ('checked', 'release'):
        k, g, c = native.paint(fb, clip, cur, style, text, prof)
        if k != 'ok':
            if prop == 'C01':
                msgs.append('%s build: %s' % (prof, k))
            elif prop in ('C03', 'C04', 'C05', 'C13') and ecur is not None:
                msgs.append('%s build: %s' % (prof, k))
            continue
        if prop == 'C02':
            d = outside(fb, g, clip)
            if d:
                msgs.append('%s build: %s' % (prof, d))
        elif prop == 'C03':
            if g != exp:
                msgs.append('%s build: %s' % (prof, first_diff(exp, g)))
        elif prop == 'C04' and ecur is not None:
            if c[0] != ecur[0]:
                msgs.append('%s build: cursor x %d, expected %d' % (prof, c[0], ecur[0]))
        elif prop == 'C04x' and ecur is not None:
            if c[0] != ecur[0] or c[1] != ecur[1]:
                msgs.append('%s build: cursor (%d, %d), expected (%d, %d)' % (prof, c[0], c[1], ecur[0], ecur[1]))
        elif prop == 'C05' and ecur is not None:
            if c[1] != ecur[1] or c[2] != ecur[2] or c[0] != ecur[0]:
                msgs.append('%s build: cursor %s, expected %s' % (prof, tuple(c), ecur))
        elif prop == 'C13':
            k2, g2, c2 = native.paint(g, clip, cur, style, text, prof)
            if k2 != 'ok' or g2 != fb or c2 != c:
                msgs.append('%s build: painting twice does not restore the frame buffer' % prof)
            fb3 = [x ^ 0xffffffff for x in fb]
            k3, g3, c3 = native.paint(fb3, clip, cur, style, text, prof)
            if k3 != 'ok' or c3 != c or any(a ^ b != x ^ y for a, b, x, y in zip(fb, g, fb3, g3)):
                msgs.append('%s build: the change depends on the background' % prof)
    return '; '.join(msgs) or None


def outside(fb, g, clip):
    minx, miny, maxx, maxy = clip
    empty = maxx > 336 or maxy > 536 or minx >= maxx or miny >= maxy
    for i, (a, b) in enumerate(zip(fb, g)):
        if a != b:
            y, k = divmod(i, 11)
            for p in range(32):
                if (a ^ b) >> p & 1:
                    x = 32 * k + p
                    if empty or not (minx <= x < maxx and miny <= y < maxy):
                        return 'pixel (%d, %d) outside of the clip rectangle changed' % (x, y)
    return None


def first_diff(exp, got):
    n = 0
    f = None
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            n += bin(a ^ b).count('1')
            if f is None:
                d = a ^ b
                f = (32 * (i % 11) + (d & -d).bit_length() - 1, i // 11)
    return '%d pixels differ from the reference, first at %s' % (n, f)


def predict(R, st, env, fb):
    """frame buffer and cursor according to the encoding, for a concrete model of an outcome"""
    env = full_env(R, env)
    env.update(R.dvars)
    fb = list(fb)
    memo = {}
    for k, i, val, g in events(st):
        if not S.evalt(g, env, memo):
            continue
        i = S.evalt(i, env, memo)
        if k == 'L':
            env[val.a[0]] = fb[i]
        elif k == 'S':
            fb[i] = S.evalt(val, env, memo)
        else:
            for j in range(i, S.evalt(val[0], env, memo)):
                fb[j] = val[1]
    c = [S.evalt(st.objs['cur'].d[8 * j][1], env, memo) for j in range(3)]
    return fb, c
