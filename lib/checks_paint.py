"""C01, C02, C03, C04, C05, C13: one grapheme cluster painted from an arbitrary state."""
import random
import time

import build
import checks_long
import core
import ex
import native
import oracle
import paint
import sym as S

FN = {'C01': paint.check_total, 'C02': paint.check_inside, 'C03': paint.check_exact,
      'C04': paint.check_advance, 'C05': paint.check_lines, 'C13': paint.check_pure}

STYLE_OF = {'small': 0, 'regular': 1, 'bold': 2}


def shapes():
    """{(font, (w, h, yo)): [cluster]} in a stable order"""
    out = {}
    for name, f in oracle.fonts().items():
        for c in sorted(f.glyph):
            out.setdefault((name, f.glyph[c][:3]), []).append(c)
    return out


def reachable(name, c, style):
    """does painting c on its own use this font's glyph for c?"""
    return oracle.lookup(style, c) == (name, c)


def refute(prop, R, env, what, texts, style, pr):
    """replay a counterexample natively: [(what, replay)] when it reproduces"""
    clip, cur = paint.concrete(R, env)
    fbs = [paint.rnd_fb(1), [0] * 5896, [0xffffffff] * 5896]
    if prop == 'C13':
        for kind, st, info in R.outs:
            for _ in range(2):
                m = paint.model(R, pr, st)
                if m:
                    fbs.append(paint.fb_from(R, st, m, [0] * 5896))
        for kind, st, info in R.outs:
            if env:
                fbs.append(paint.fb_from(R, st, env, [0] * 5896))
    for t in texts:
        for fb in fbs:
            d = paint.compare(t, style, clip, cur, fb, prop)
            if d:
                return [('%s: painting %s with clip %s cursor %s: %s' % (what, ascii(t), clip, cur, d),
                         dict(text=t, style=style, clip=clip, cursor=cur, fb='seed 1' if fb is fbs[0] else 'see code'))]
    return []


def witness(prop, R, pr, text, style, n):
    """replay one model of an outcome natively and compare it with what the encoding predicts"""
    errs = []
    done = 0
    for kind, st, info in R.outs:
        if kind != 'ret' or done >= n:
            continue
        env = paint.model(R, pr, st)
        if env is None:
            continue
        done += 1
        clip, cur = paint.concrete(R, env)
        fb = paint.rnd_fb(2)
        k, g, c = native.paint(fb, clip, cur, style, text)
        f, pc = paint.predict(R, st, env, fb)
        if k != 'ok' or g != f or list(c) != pc:
            errs.append('encoding and native code disagree on %s clip %s cursor %s (%s)' % (ascii(text), clip, cur, k))
    return done, errs


def fallback(prop, text, style, g, sc, H, seed):
    """the scenario could not be encoded: replay solver-chosen inputs natively"""
    S.reset()
    pr = core.Prover(3000)
    r = random.Random('%s %s %s %s' % (seed, text, sc.name, prop))
    v = {n: (sc.ranges[n][0] if sc.ranges[n][0] == sc.ranges[n][1] else S.var(n, 64, *sc.ranges[n])) for n in paint.VARS}
    for n, (rg, f) in sc.extra.items():
        v[n] = S.var(n, 64, *rg)
    for n, f in sc.derive.items():
        v[n] = f(v)
    R = paint.Run()
    R.v = v
    R.dvars = {}
    n = 0
    for i in range(24):
        cs = list(sc.conds(v))
        for nm in r.sample(paint.VARS, 5):
            a, b = sc.ranges[nm]
            b = min(b, a + 700) if r.random() < .8 else b
            x = r.randint(a, b)
            y = min(b, x + r.choice([0, 1, 3, 40]))
            t = [paint.le(x, v[nm]), paint.le(v[nm], y)]
            if pr.solver.check(cs + t)[0] == 'sat':
                cs += t
        k, env = pr.solver.check(cs)
        if k != 'sat':
            continue
        n += 1
        clip, cur = paint.concrete(R, env)
        d = paint.compare(text, style, clip, cur, paint.rnd_fb(i), prop)
        if d:
            return n, [('painting %s with clip %s cursor %s: %s' % (ascii(text), clip, cur, d),
                        dict(text=text, style=style, clip=clip, cursor=cur, fb='seed %d' % i))]
    return n, []


def task(prop, name, shape, clusters, style, names, symbolic, limit, nwit=1, seed=1, cover=False):
    """all obligations of prop for one glyph shape"""
    g = oracle.fonts()[name].glyph[clusters[0]]
    text = clusters[0]
    H = oracle.LINE[name]
    out = dict(stats={}, violations=[], errors=[], samples=[])
    deadline = time.time() + limit
    data = paint.find_data(text, style, g) if symbolic else None
    if symbolic and data is None:
        symbolic = False
        core.add_stats(out['stats'], dict(real_bitmap_instead=1))
    if cover:
        S.reset()
        pr = core.Prover()
        if not paint.coverage(shape[0], shape[1], shape[2], pr):
            out['errors'].append('scenario partition not shown complete')
        core.add_stats(out['stats'], pr.stats())
    for sc in paint.scenarios(*shape):
        if names and sc.name not in names:
            continue
        ok = False
        for attempt in ((symbolic, False) if symbolic else (False,)):
            S.reset()
            pr = core.Prover(8000)
            err = None
            try:
                R = paint.explore(text, style, g, sc, attempt, deadline, data=data)
                R.H = H
                R.engine.deadline = None
                pr.deadline = deadline
                core.add_stats(out['stats'], core.engine_stats(R.engine))
                core.add_stats(out['stats'], dict(outcomes=len(R.outs)))
                if not R.outs:
                    err = 'no outcome'
                FN[prop](R, pr)
                if nwit and err is None:
                    n, e = witness(prop, R, pr, text, style, nwit)
                    core.add_stats(out['stats'], dict(witnesses=n))
                    out['errors'] += e
                    if n == 0:
                        err = 'scenario is unreachable'
                ok = err is None
                if ok and len(out['samples']) < 1:
                    out['samples'].append('%s %s %s/%s: %d paths' % (prop, ascii(text), name, sc.name, len(R.outs)))
            except paint.Cex as c:
                v = refute(prop, R, c.env, c.what, clusters if attempt else [text], style, pr)
                if v:
                    out['violations'] += v
                    ok = True
                else:
                    err = 'counterexample did not reproduce: %s %s' % (c.what, paint.concrete(R, c.env))
            except (paint.Undecided, ex.Unsupported, ex.Budget) as e:
                err = '%s: %s' % (type(e).__name__, e)
            core.add_stats(out['stats'], pr.stats())
            core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
            if ok or time.time() > deadline:
                break
        if not ok:
            n, v = fallback(prop, text, style, g, sc, H, seed)
            core.add_stats(out['stats'], dict(fallback_replays=n))
            out['violations'] += v
            if not v:
                out['errors'].append('%s/%s %s: %s' % (name, shape, sc.name, err))
        if out['violations']:
            break
    return out


def glyph_task(prop, name, clusters, style, symbolic, seed=1):
    """C03: the bitmap drawn for each cluster is the one in the sprite sheet.  The lookup of the
    concrete cluster folds in the encoding; with symbolic=True the cursor and clip are symbolic."""
    out = dict(stats={}, violations=[], errors=[], samples=[])
    F = oracle.fonts()[name]
    for text in clusters:
        S.reset()
        g = F.glyph[text]
        clip, cur = (0, 0, 336, 536), (6, 6, 0)
        bad = None
        st = {}
        if symbolic:
            r = task(prop, name, g[:3], [text], style, ['inside'], False, 100, 0, seed)
            core.add_stats(out['stats'], r['stats'])
            out['violations'] += r['violations']
            out['errors'] += r['errors']
            continue
        try:
            e, outs = paint.trace(text, style)
            core.add_stats(out['stats'], core.engine_stats(e))
            exp, ecur = oracle.model_paint([0] * 5896, clip, cur, style, text)
            if [k for k, s, i in outs] != ['ret']:
                bad = outs[0][0]
            else:
                got = outs[0][1].objs['fb'].d
                w = {i: x for i, x in enumerate(exp) if x}
                if {i: x for i, x in got.items() if x} != w:
                    bad = 'pixels'
        except ex.Unsupported as e:
            bad = 'unsupported %s' % e
        if bad is None:
            core.add_stats(out['stats'], dict(folded=1, obligations=1))
            continue
        d = paint.compare(text, style, clip, cur, paint.rnd_fb(seed), prop)
        if d:
            out['violations'].append(('%s: painting %s: %s' % (prop, ascii(text), d),
                                      dict(text=text, style=style, clip=clip, cursor=cur, fb='seed %d' % seed)))
            break
        out['errors'].append('%s: %s' % (ascii(text), bad))
    return out


def pick(pool, k, rnd):
    pool = sorted(pool, key=str)
    if len(pool) <= k:
        return pool
    return rnd.sample(pool, k)


def extremes(sh, rnd, k):
    """per font: widest, narrowest, tallest, lowest, plus k others"""
    out = []
    for f in ('emoji', 'hanzi', 'bold', 'regular', 'small'):
        mine = [x for x in sh if x[0] == f]
        e = []
        for key in (lambda s: s[1][0], lambda s: -s[1][0], lambda s: s[1][1], lambda s: s[1][2], lambda s: s[1][1] + s[1][2]):
            m = max(mine, key=lambda s: (key(s), s))
            if m not in e:
                e.append(m)
        rest = [x for x in mine if x not in e]
        out += e + pick(rest, k, rnd)
    return out


def glyph_tasks(quick, seed, symbolic=False):
    tasks = []
    names = []
    for name, f in oracle.fonts().items():
        for st in ([STYLE_OF[name]] if name in STYLE_OF else [seed % 3]):
            cl = [c for c in sorted(f.glyph) if reachable(name, c, st)]
            n = 20 if symbolic else 100
            for i in range(0, len(cl), n):
                tasks.append(('C03', name, cl[i:i + n], st, symbolic, seed))
                names.append('%s glyphs %d.. %s' % (name, i, 'symbolic position' if symbolic else ''))
    return tasks, names


def warm():
    """parse what painting needs before forking"""
    build.module()
    for st in (0, 1, 2):
        for t in ('a\n', '\u56e1', '\U0001f600', '\U000e1000'):
            try:
                paint.trace(t, st)
            except ex.Unsupported:
                pass


def main(prop):
    ck = core.Check(prop, 200 if prop in ('C01', 'C03') else 120, 3000)
    oracle.fonts()
    warm()
    for p in ('checked', 'release'):
        native._lib(p)
    sh = shapes()
    rnd = random.Random(ck.seed)
    paint_sc = ['inside', 'left', 'wrap-short', 'wrap-tall']
    if ck.quick:
        if prop == 'C03':
            sel = [(x, ['inside']) for x in sorted(sh)]
            ext = extremes(sh, rnd, 1)
            sel += [(x, ['left', 'wrap-short', 'wrap-tall', 'below', 'narrow']) for x in ext]
        elif prop in ('C04', 'C05'):
            ext = extremes(sh, rnd, 3)
            byw = {}
            for x in sorted(sh):
                byw.setdefault((x[0], x[1][0]), x)
            sel = [(x, ['inside', 'left'] if prop == 'C04' else ['inside', 'wrap-short', 'wrap-tall']) for x in sorted(set(byw.values()))]
            sel += [(x, paint_sc) for x in ext]
            done = {x for x, _ in sel}
            if prop == 'C04':
                sel += [(x, ['inside']) for x in sorted(sh) if x not in done]
        else:
            ext = extremes(sh, rnd, 3)
            sel = [(x, None) for x in ext] + [(x, ['inside']) for x in sorted(sh) if x not in ext]
    else:
        sel = [(x, None) for x in sorted(sh)]
    tasks = []
    names = []
    for i, ((name, shape), scs) in enumerate(sel):
        styles = [STYLE_OF[name]] if name in STYLE_OF else [i % 3]
        for st in styles:
            cl = [c for c in sh[(name, shape)] if reachable(name, c, st)]
            if not cl:
                continue
            tasks.append((prop, name, shape, cl, st, scs, True, 120, 1 if ck.quick else 2, ck.seed, i % 20 == 0))
            names.append('%s %dx%d+%d style %d %s' % (name, shape[0], shape[1], shape[2], st, scs or 'all'))
    order = list(range(len(tasks)))
    rnd.shuffle(order)
    if prop == 'C03':
        gt, gn = glyph_tasks(ck.quick, ck.seed)
        ck.tasks(glyph_task, gt, gn, 200)
    ck.tasks(task, [tasks[i] for i in order], [names[i] for i in order], 200)
    if prop == 'C03' and not ck.quick:
        gt, gn = glyph_tasks(ck.quick, ck.seed, True)
        ck.tasks(glyph_task, gt, gn, 600)
    if prop == 'C01':
        import checks_chars
        xt, xn = checks_chars.c01_plan(ck)
        ck.tasks(checks_chars.dispatch, xt, xn, 240 if ck.quick else 1200, recycle=20)
        checks_long.extend(prop, ck)
    if prop == 'C05':
        import checks_seq
        st, sn = checks_seq.plan5(ck.quick, ck.seed)
        ck.tasks(checks_seq.dispatch, st, sn, 200 if ck.quick else 1000, recycle=12)
    ck.assumptions = [
        'the string is one grapheme cluster of the repertoire; longer strings follow by induction because the state before it is arbitrary (C12 covers the step from clusters to strings)',
        'LLVM IR of the library (opt-level 2, overflow checks on) inlined into the harness; code generation below IR is trusted',
        'glyph bitmaps are symbolic (w*h free bits, zero padding) unless counted under real_bitmap_instead',
    ]
    ck.coverage['bounds'] = 'clip corners, cursor and line height: all 64-bit values, split into the scenarios of lib/paint.py (their union is proved complete); glyph sizes: %d of %d font shapes' % (
        len({(t[1], t[2]) for t in tasks}), len(sh))
    ck.finish()
