"""C18: the cells of different glyphs are disjoint.

One glyph painted from an arbitrary state, then a line break.  With N(c) the line to which a line
break moves cursor c:
  same line:  the changed pixels lie right of the cursor before (from the left edge of the clip
              rectangle when the cursor is left of it), not right of the cursor after, in rows
              y .. N(after) - 1, and N(after) >= N(before);
  wrap:       the same from the left edge, and the new line is at or below N(before);
  break:      the next line is N(before), and N never lies above the cursor.
By induction over the text no pixel belongs to two glyphs, and every row of a line is above the
next one."""
import random
import time

import build
import checks_paint
import core
import ex
import native
import oracle
import paint
import sym as S
from paint import le, lt, add, W, Scen

NL = '\n'
BIG = 1 << 62


def scens(w, h, yo, H):
    """the painting scenarios with the line height split so that every bound is a difference"""
    out = []
    for s in paint.scenarios(w, h, yo):
        if s.kind != 'paint':
            continue
        if s.name in ('inside', 'left'):
            r = dict(s.ranges, lh=(0, H))
            out.append(Scen(s.name + '-low', s.kind, r, s.conds, s.x0, s.yb, s.lh1))
            r = dict(s.ranges)
            t = ((H + 2, BIG), lambda v: add(v['cy'], v['lh'], 1))
            out.append(Scen(s.name + '-high', s.kind, r,
                            lambda v, f=s.conds: f(v) + [lt(add(v['cy'], H + 1), v['t']), le(v['t'], BIG)],
                            s.x0, s.yb, s.lh1, extra=dict(t=t), derive=dict(lh=lambda v: S.sub(S.sub(v['t'], v['cy'], W), 1, W))))
        else:
            out.append(s)
    return out


def after_break(R, st, cur=None):
    """cursor y after a line break from state st: [(path state, y)]"""
    s = st.fork()
    s.frames = []
    c = ex.Cells(1)
    c.d = {0: (1, 10)}
    s.objs['txt'] = c
    out = []
    for k, o, info in paint.call(R.engine, s, R.style, 1):
        if k != 'ret':
            raise paint.Cex('line break: %s' % k, None)
        out.append((o, paint.cursor_of(o)[1]))
    return out


def check(R, pr):
    v = R.v
    s0, n = paint.text_state('x', v)
    for c in R.sc:
        if not R.engine.add_cond(s0, c):
            return
    before = after_break(R, s0)
    for o, nb in before:
        need(pr, paint.conj(o, R.sc), le(v['cy'], nb), 'a line break moves up')
    outs = R.outs
    for kind, st, info in outs:
        if kind != 'ret':
            raise paint.Cex('%s (%s)' % (kind, info), paint.model(R, pr, st))
        for o, na in after_break(R, st):
            R.outs = [('ret', o, None)]
            x1, y1, lh = paint.cursor_of(st)
            pc0 = paint.conj(o, R.sc)
            for b, nb in before:
                pcb = pc0 + [c for c in b.conds() if c not in pc0]
                if R.scen.name.startswith('wrap'):
                    need(pr, pcb, le(nb, y1), 'the wrapped line starts above the end of the line before')
                else:
                    need(pr, pcb, le(nb, na), 'the line becomes less tall')
            need(pr, pc0, le(y1, na), 'a line break moves up')
            lo = add(v['cx'], 1) if R.scen.name.startswith('inside') else v['minx']
            paint.check_inside(R, pr, lambda st: (lo, y1, add(x1, 1), na), 'the cell of the glyph')
    R.outs = outs


def need(pr, pc, goal, what):
    paint.need(pr, pc, goal, what)


def native_bad(text, style, clip, cur, fb, inside):
    """the same statements about one concrete run; None or what fails"""
    for prof in ('checked', 'release'):
        k, g, c = native.paint(fb, clip, cur, style, text, prof)
        k1, _, nb = native.paint(fb, clip, cur, style, NL, prof)
        if k != 'ok' or k1 != 'ok':
            continue
        k2, _, na = native.paint(fb, clip, c, style, NL, prof)
        if k2 != 'ok':
            continue
        wrapped = c[1] != cur[1]
        lo = cur[0] + 1 if cur[0] >= clip[0] and not wrapped else clip[0]
        if wrapped and c[1] < nb[1]:
            return '%s build: the wrapped line starts at y %d, the line before ends at %d' % (prof, c[1], nb[1])
        if not wrapped and na[1] < nb[1]:
            return '%s build: the next line moves up from %d to %d' % (prof, nb[1], na[1])
        for i, (a, b) in enumerate(zip(fb, g)):
            d = a ^ b
            if not d:
                continue
            y, q = divmod(i, 11)
            for p in range(32):
                if d >> p & 1:
                    x = 32 * q + p
                    if not (lo <= x <= c[0] and c[1] <= y < na[1]):
                        return '%s build: pixel (%d, %d) is outside of the cell: columns %d to %d, rows %d to %d (next line)' % (
                            prof, x, y, lo, c[0], c[1], na[1] - 1)
    return None


def task(prop, name, shape, clusters, style, names, limit, seed=1):
    g = oracle.fonts()[name].glyph[clusters[0]]
    text = clusters[0]
    H = oracle.LINE[name]
    out = dict(stats={}, violations=[], errors=[], samples=[])
    deadline = time.time() + limit
    data = paint.find_data(text, style, g)
    for sc in scens(*shape, H):
        if names and sc.name.split('-')[0] not in names:
            continue
        err = None
        env = None
        for attempt in ((True, False) if data else (False,)):
            S.reset()
            pr = core.Prover(8000)
            err = None
            try:
                R = paint.explore(text, style, g, sc, attempt, deadline, data=data)
                core.add_stats(out['stats'], dict(outcomes=len(R.outs)))
                if not R.outs:
                    err = 'no outcome'
                else:
                    R.engine.deadline = deadline
                    check(R, pr)
                core.add_stats(out['stats'], core.engine_stats(R.engine))
            except paint.Cex as c:
                err = c.what
                env = c.env
            except (paint.Undecided, ex.Unsupported, ex.Budget) as e:
                err = '%s: %s' % (type(e).__name__, e)
            core.add_stats(out['stats'], pr.stats())
            core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
            if err is None or env is not None or time.time() > deadline:
                break
        if err is None:
            if not out['samples']:
                out['samples'].append('%s (%s %s) %s' % (ascii(text), name, shape, sc.name))
            continue
        tries = [env, wide(pr, R, env)]
        r = random.Random('%s %s' % (seed, text))
        for _ in range(20):
            tries.append(another(pr, R, sc, r))
        bad = None
        for t in inked(name, clusters):
            for env in tries:
                if env is None:
                    continue
                clip, cur = paint.concrete(R, env)
                core.add_stats(out['stats'], dict(witnesses=1))
                for fb in (paint.rnd_fb(1), [0] * 5896):
                    bad = native_bad(t, style, clip, cur, fb, None)
                    if bad:
                        out['violations'].append(('%s: painting %s in style %d with clip %s cursor %s: %s' % (err, ascii(t), style, clip, cur, bad),
                                                  dict(text=t, style=style, clip=clip, cursor=cur, fb='seed 1')))
                        return out
        out['errors'].append('%s/%s %s: %s' % (name, shape, sc.name, err))
    return out


def wide(pr, R, env):
    """env's cursor with as much of the screen in the clip rectangle as the scenario allows"""
    if env is None:
        return None
    env = paint.full_env(R, env)
    cs = list(R.sc)
    v = R.v
    want = [S.eq(v['lh'], S.evalt(v['lh'], env, {}), W), S.eq(v['miny'], 0, W), S.eq(v['maxy'], 536, W),
            S.eq(v['minx'], 0, W), S.eq(v['maxx'], 336, W), S.eq(v['cy'], S.evalt(v['cy'], env, {}), W), le(v['cy'], 400),
            S.eq(v['cx'], S.evalt(v['cx'], env, {}), W)]
    for w in want:
        if pr.solver.check(cs + [w])[0] == 'sat':
            cs.append(w)
    k, e = pr.solver.check(cs)
    return e if k == 'sat' else None


def inked(name, clusters):
    """clusters whose bitmaps reach the edges of their cells"""
    F = oracle.fonts()[name]

    def score(c):
        w, h, yo, rows = F.glyph[c]
        last = max([i for i in range(h) if rows[i]] + [-1])
        first = min([i for i in range(h) if rows[i]] + [h])
        right = max([r.bit_length() for r in rows] + [0])
        return last, first, right
    xs = sorted(clusters, key=score)
    out = []
    for c in (xs[-3:] + xs[:2] + sorted(clusters, key=lambda c: score(c)[1])[:2] + sorted(clusters, key=lambda c: score(c)[2])[-2:]):
        if c not in out:
            out.append(c)
    return out


def another(pr, R, sc, r):
    cs = list(R.sc)
    for nm in r.sample(paint.VARS, 5):
        x = R.v[nm]
        if type(x) is int or x.op != 'v':
            continue
        a, b = x.lo, x.hi
        b = min(b, a + 700) if r.random() < .8 else b
        k = r.randint(a, b)
        t = [paint.le(k, x), paint.le(x, min(b, k + r.choice([0, 1, 3, 40])))]
        if pr.solver.check(cs + t)[0] == 'sat':
            cs += t
    k, env = pr.solver.check(cs)
    return env if k == 'sat' else None


def main(prop):
    ck = core.Check(prop, 100, 3000)
    oracle.fonts()
    checks_paint.warm()
    for p in ('checked', 'release'):
        native._lib(p)
    sh = checks_paint.shapes()
    rnd = random.Random(ck.seed)
    ext = set(map(tuple, checks_paint.extremes(sh, rnd, 2)))
    # of shapes with the same font and lowest row the widest and the narrowest stand for all:
    # quick checks those, thorough all
    tasks, names = [], []
    for i, x in enumerate(sorted(sh)):
        name, shape = x
        for st in ([checks_paint.STYLE_OF[name]] if name in checks_paint.STYLE_OF else [i % 3]):
            cl = [c for c in sh[x] if checks_paint.reachable(name, c, st)]
            if not cl:
                continue
            nm = None if not ck.quick or x in ext else ['inside']
            tasks.append(('C18', name, shape, cl, st, nm, 100, ck.seed))
            names.append('%s %dx%d+%d style %d %s' % (name, shape[0], shape[1], shape[2], st, nm or 'all'))
    order = list(range(len(tasks)))
    rnd.shuffle(order)
    order.sort(key=lambda i: tasks[i][5] is not None)
    ck.tasks(task, [tasks[i] for i in order], [names[i] for i in order], 200)
    ck.assumptions = [
        'induction over the text: one glyph from an arbitrary cursor, then a line break (lib/checks_cells.py states the invariant)',
        'glyph bitmaps are symbolic: the statement is about the cell, whatever is drawn in it',
        'LLVM IR of the library (opt-level 2, overflow checks on); code generation below IR is trusted',
    ]
    ck.coverage['bounds'] = 'every glyph shape (font, width, height, offset) of the fonts, every cursor on the screen, clip rectangle and line height up to 2^62 (quick: cursor left of the clip rectangle and wraps for %d shapes)' % len(ext)
    ck.finish()
