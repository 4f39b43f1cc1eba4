"""C10, C11, C12: two ways of painting a text, compared for every cursor and clip rectangle."""
import itertools
import random
import time
import unicodedata

import build
import checks_long
import chars
import core
import ex
import native
import oracle
import paint
import seq
import sym as S


def new():
    return dict(stats={}, violations=[], errors=[], samples=[], known=[])


def show(calls):
    return ' then '.join('%s in style %d' % (ascii(t), s) for s, t in calls)


def pair_task(prop, a, others, gs, names, limit, seed=1, nwit=1):
    """program a (list of (style, text)) against each of the others, in every layout of glyphs gs"""
    out = new()
    deadline = time.time() + limit
    for name, rg, cs, pens, pen in seq.cases(gs):
        if names and name not in names:
            continue
        S.reset()
        v = seq.inputs(rg)
        conds = [c for c in (f(v) for f in cs) if not (type(c) is int and c)]
        if any(type(c) is int for c in conds):
            continue
        pr = core.Prover(8000)
        env0 = seq.model(pr, tuple(conds))
        if env0 is None:
            continue
        err = None
        b = others[0]
        try:
            e, A = seq.execute(a, v, conds, deadline)
            core.add_stats(out['stats'], core.engine_stats(e))
            if not A:
                raise paint.Undecided('no outcome')
            for b in others:
                e, B = seq.execute(b, v, conds, deadline)
                core.add_stats(out['stats'], core.engine_stats(e))
                core.add_stats(out['stats'], dict(outcomes=len(A) + len(B)))
                if not B:
                    raise paint.Undecided('no outcome')
                seq.compare(pr, conds, A, B)
        except (seq.Differ, paint.Cex) as c:
            err = c.what
            env0 = c.env or env0
        except (paint.Undecided, ex.Unsupported, ex.Budget) as x:
            err = '%s: %s' % (type(x).__name__, x)
        core.add_stats(out['stats'], pr.stats())
        core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
        tries = [env0] if err or nwit else []
        if err:
            r = random.Random('%s %s' % (seed, name))
            for _ in range(16):
                tries.append(perturb(pr, v, conds, rg, r))
        found = False
        for env in tries:
            if env is None:
                continue
            clip, cur = seq.concrete(v, env)
            core.add_stats(out['stats'], dict(witnesses=1))
            for b in others if err else others[:1]:
                d = seq.native_differ(a, b, clip, cur, paint.rnd_fb(seed))
                if d:
                    out['violations'].append(('%s against %s with clip %s cursor %s: %s' % (show(a), show(b), clip, cur, d),
                                              dict(a=a, b=b, clip=clip, cursor=cur, fb='seed %d' % seed)))
                    found = True
                    break
            if found:
                break
        if found:
            return out
        if err:
            out['errors'].append('%s, layout %s: %s' % (show(a), name, err))
        elif len(out['samples']) < 1:
            out['samples'].append('%s = %s, layout %s' % (show(a), show(others[0]), name))
        if time.time() > deadline:
            out['errors'].append('out of time')
            break
    return out


def perturb(pr, v, conds, rg, r):
    """another solver-chosen input satisfying conds"""
    cs = list(conds)
    for nm in r.sample(paint.VARS + ('t',), 5):
        if nm not in rg or nm == 'lh' and 't' in rg:
            continue
        x = v[nm]
        if type(x) is int:
            continue
        a, b = rg[nm]
        b = min(b, a + 700) if r.random() < .8 else b
        k = r.randint(a, b)
        t = [paint.le(k, x), paint.le(x, min(b, k + r.choice([0, 1, 3, 40])))]
        if pr.solver.check(cs + t)[0] == 'sat':
            cs += t
    k, env = pr.solver.check(cs)
    return env if k == 'sat' else None


def complete_task(prop, texts):
    """the layouts of these texts cover every input on which the text is painted completely"""
    out = new()
    for style, t in texts:
        S.reset()
        pr = core.Prover(60000)
        r = seq.complete(seq.glyphs(style, t), pr)
        if r[0] != 'unsat':
            out['errors'].append('layouts of %s not shown complete: %s' % (ascii(t), r))
        core.add_stats(out['stats'], pr.stats())
        core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
    return out


def lines_task(prop, style, text, names, limit, seed=1):
    """the final cursor of a text of several clusters, in every layout, against the reference"""
    out = new()
    deadline = time.time() + limit
    for name, rg, cs, pens, pen in seq.cases(seq.glyphs(style, text)):
        if names and name not in names:
            continue
        S.reset()
        v = seq.inputs(rg)
        conds = [c for c in (f(v) for f in cs) if not (type(c) is int and c)]
        if any(type(c) is int for c in conds):
            continue
        pr = core.Prover(8000)
        env = seq.model(pr, tuple(conds))
        if env is None:
            continue
        err = None
        try:
            e, A = seq.execute([(style, text)], v, conds, deadline)
            core.add_stats(out['stats'], core.engine_stats(e))
            core.add_stats(out['stats'], dict(outcomes=len(A)))
            if not A:
                raise paint.Undecided('no outcome')
            want = seq.final(v, pen)
            for k, st, info in A:
                pc = tuple(paint.conj(st, conds))
                if k != 'ret':
                    raise paint.Cex(k, seq.model(pr, pc))
                for n, x, y in zip('x y line_height'.split(), paint.cursor_of(st), want):
                    paint.need(pr, pc, S.eq(x, y, seq.W), 'cursor %s is wrong' % n)
        except paint.Cex as c:
            err = c.what
            env = c.env or env
        except (paint.Undecided, ex.Unsupported, ex.Budget) as x:
            err = '%s: %s' % (type(x).__name__, x)
        core.add_stats(out['stats'], pr.stats())
        core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
        r = random.Random('%s %s' % (seed, name))
        for env in [env] + ([perturb(pr, v, conds, rg, r) for _ in range(12)] if err else []):
            if env is None:
                continue
            clip, cur = seq.concrete(v, env)
            core.add_stats(out['stats'], dict(witnesses=1))
            d = paint.compare(text, style, clip, cur, paint.rnd_fb(seed), prop)
            if d:
                out['violations'].append(('painting %s in style %d with clip %s cursor %s: %s' % (ascii(text), style, clip, cur, d),
                                          dict(text=text, style=style, clip=clip, cursor=cur, fb='seed %d' % seed)))
                return out
        if err:
            out['errors'].append('%s, layout %s: %s' % (ascii(text), name, err))
        elif not out['samples']:
            out['samples'].append('cursor after %s, layout %s' % (ascii(text), name))
        if time.time() > deadline:
            break
    return out


def newline_task(prop, text, limit):
    """line breaks alone, from every cursor and line height (sums below 2^63)"""
    out = new()
    S.reset()
    pr = core.Prover(20000)
    rg = dict(seq.BASE, cy=(0, 1 << 62), lh=(0, 1 << 62))
    for rgn in (rg, dict(rg, minx=seq.FULL, maxx=seq.FULL, maxy=seq.FULL)):
        S.reset()
        v = seq.inputs(rgn)
        conds = [seq.lt(v['minx'], v['maxx'])] if rgn is rg else []
        err, env = None, None
        for style in (0, 1, 2):
            try:
                e, A = seq.execute([(style, text)], v, conds, time.time() + limit)
                core.add_stats(out['stats'], core.engine_stats(e))
                n = len(text)
                y = seq.add(v['cy'], S.ite(seq.lt(v['lh'], 24), 24, v['lh'], 64), 1 + 25 * (n - 1))
                for k, st, info in A:
                    pc = tuple(paint.conj(st, conds))
                    if k != 'ret':
                        raise paint.Cex(k, seq.model(pr, pc))
                    for nm, x, w in zip('x y line_height'.split(), paint.cursor_of(st), (v['minx'], y, 0)):
                        paint.need(pr, pc, S.eq(x, w, 64), 'cursor %s is wrong' % nm)
                    R = paint.Run()
                    paint.nothing_painted(R, pr, st, paint.events(st), pc)
            except paint.Cex as c:
                err, env = c.what, c.env
            except (paint.Undecided, ex.Unsupported, ex.Budget) as x:
                err = '%s: %s' % (type(x).__name__, x)
            if err:
                break
        core.add_stats(out['stats'], pr.stats())
        core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
        r = random.Random(1)
        for env in [env or seq.model(pr, tuple(conds))] + ([perturb(pr, v, conds, rgn, r) for _ in range(12)] if err else []):
            if env is None:
                continue
            clip, cur = seq.concrete(v, env)
            core.add_stats(out['stats'], dict(witnesses=1))
            k, g, c = native.paint(paint.rnd_fb(1), clip, cur, style, text, 'checked')
            want = (clip[0], cur[1] + max(24, cur[2]) + 1 + 25 * (len(text) - 1), 0)
            if k != 'ok' or tuple(c) != want or g != paint.rnd_fb(1):
                out['violations'].append(('%s with clip %s cursor %s: %s, expected cursor %s' % (ascii(text), clip, cur, (k, c), want),
                                          dict(text=text, style=style, clip=clip, cursor=cur, fb='seed 1')))
                return out
        if err:
            out['errors'].append('%s: %s' % (ascii(text), err))
        pr = core.Prover(20000)
    return out


def plan5(quick, seed):
    """C05: texts of mixed heights with line breaks"""
    tasks, names = [], []
    e, h = '\U0001f600', '\u56e1'
    texts = ['g\n', 'gg', e + '\n', h + '\n', 'g' + e + '\n', e + 'g\n', 'g' + h, h + 'g', '\ng', '\n\ng', 'g\ni', '\u0416\n', 'i' + e + 'g']
    if not quick:
        texts += [a + b + c for a in ('g', e, h, '\n') for b in ('g', e, h, '\n', '\u0416') for c in ('g', e, h, '\n')]
    for i, t in enumerate(texts):
        for s in (0, 1, 2):
            if not quick or (i + s + seed) % 3 == 0:
                tasks.append(('lines', 'C05', s, t, None, 100 if quick else 600, seed))
                names.append('cursor after %s, style %d' % (ascii(t), s))
    for t in ('\n', '\n\n'):
        tasks.append(('newline', 'C05', t, 60))
        names.append('%s from every cursor' % ascii(t))
    tasks.append(('complete', 'C05', [(i % 3, t) for i, t in enumerate(texts[:20])]))
    names.append('layouts complete')
    return tasks, names


# ---------------------------------------------------------------- C10

def same_trace(prop, clusters, styles, limit):
    """concrete clusters at a fixed place: one picture in all styles"""
    out = new()
    for t in clusters:
        S.reset()
        rs = []
        for s in styles:
            try:
                e, outs = paint.trace(t, s)
                core.add_stats(out['stats'], core.engine_stats(e))
                if len(outs) == 1 and outs[0][0] == 'ret':
                    st = outs[0][1]
                    rs.append(({i: x for i, x in st.objs['fb'].d.items() if x}, paint.cursor_of(st)))
                else:
                    rs.append(outs[0][0])
            except (ex.Unsupported, ex.Budget) as x:
                rs.append(None)
        core.add_stats(out['stats'], dict(obligations=1))
        if None not in rs and all(r == rs[0] for r in rs):
            core.add_stats(out['stats'], dict(folded=1))
            continue
        clip, cur = chars.CLIP, chars.CUR
        bad = None
        for s in styles[1:]:
            d = seq.native_differ([(styles[0], t)], [(s, t)], clip, cur, paint.rnd_fb(1))
            if d:
                bad = ('%s in styles %d and %d: %s' % (ascii(t), styles[0], s, d),
                       dict(a=[(styles[0], t)], b=[(s, t)], clip=clip, cursor=cur, fb='seed 1'))
        if bad:
            out['violations'].append(bad)
            return out
        if None in rs:
            out['errors'].append('%s: not encoded' % ascii(t))
        else:
            out['errors'].append('%s: styles differ in the encoding only' % ascii(t))
    out['samples'].append('%d clusters from %s' % (len(clusters), ascii(clusters[0])))
    return out


def font_trace(prop, style, clusters, limit):
    out = new()
    for t in clusters:
        S.reset()
        core.add_stats(out['stats'], dict(obligations=1))
        try:
            e, bad = chars.traced(style, t)
            core.add_stats(out['stats'], core.engine_stats(e))
        except (ex.Unsupported, ex.Budget) as x:
            bad = 'unsupported %s' % x
        if bad is None:
            core.add_stats(out['stats'], dict(folded=1))
        elif chars.report(out, prop, style, t, 'not the glyph of its own font (%s)' % bad):
            return out
    return out


def char_styles(prop, lo, hi, limit):
    """one symbolic character in all three styles: wherever it is not Latin text, the paths agree"""
    out = new()
    end = time.time() + limit
    leaves = []
    S.reset()
    for s in (0, 1, 2):
        try:
            for x in chars.symbolic('X', lo, hi):
                R = chars.explore([x], s, end)
                core.add_stats(out['stats'], core.engine_stats(R.engine))
                core.add_stats(out['stats'], dict(outcomes=len(R.outs)))
                leaves.append((s, set(chars.leaves(R))))
        except (ex.Unsupported, ex.Budget) as e:
            out['errors'].append('one character U+%04X..U+%04X: %s' % (lo, hi, e))
            return out
    F = oracle.fonts()
    want = {c for f in ('emoji', 'hanzi') for c in F[f].glyph if len(c) == 1}
    latin = {c for f in oracle.STYLES for c in F[f].glyph}
    by = {}
    for s, l in leaves:
        by.setdefault(s, set()).update(l)
    for c in sorted(want):
        if lo <= ord(c) <= hi:
            core.add_stats(out['stats'], dict(obligations=1))
            if all(ord(c) in by[s] for s in by):
                core.add_stats(out['stats'], dict(folded=1))
            else:
                out['violations' if bad_native(out, c) else 'errors'].append('%s is not looked up in every style' % ascii(c))
    return out


def pick(shapes, font, n, rnd):
    pool = sorted(k for k in shapes if k[0] == font)
    return pool if len(pool) <= n else rnd.sample(pool, n)


def shapes():
    out = {}
    for name, f in oracle.fonts().items():
        for c in sorted(f.glyph):
            out.setdefault((name, f.glyph[c][:3]), []).append(c)
    return out


def plan10(ck):
    rnd = random.Random(ck.seed)
    tasks, names = [], []
    F = oracle.fonts()
    sh = shapes()
    for f in ('emoji', 'hanzi'):
        keys = pick(sh, f, 12 if ck.quick else 10 ** 6, rnd)
        for k in keys:
            cl = [c for c in sh[k] if oracle.lookup(0, c) == (f, c)]
            for c in ([rnd.choice(cl)] if ck.quick else cl[:4]):
                tasks.append(('pair', 'C10', [(0, c)], [[(1, c)], [(2, c)]], seq.glyphs(0, c), None, 100, ck.seed))
                names.append('%s %s in every style' % (f, ascii(c)))
        cl = [c for c in sorted(F[f].glyph) if oracle.lookup(0, c) == (f, c)]
        for i in range(0, len(cl), 120):
            tasks.append(('same', 'C10', cl[i:i + 120], (0, 1, 2), 100))
            names.append('%s clusters %d..' % (f, i))
    for s in (0, 1, 2):
        f = oracle.STYLES[s]
        cl = [c for c in sorted(F[f].glyph) if oracle.lookup(s, c) == (f, c)]
        for i in range(0, len(cl), 120):
            tasks.append(('font', 'C10', s, cl[i:i + 120], 100))
            names.append('%s clusters %d..' % (f, i))
    # pairs of emoji and hanzi: the second starts from the cursor the first left
    pairs = []
    for f in ('emoji', 'hanzi'):
        for g in ('emoji', 'hanzi'):
            a = rnd.choice([c for c in sorted(F[f].glyph)])
            b = rnd.choice([c for c in sorted(F[g].glyph)])
            t = a + b
            if [x[1] for x in oracle.segment(1, t)] == [a, b]:
                pairs.append(t)
    for t in pairs:
        tasks.append(('pair', 'C10', [(0, t)], [[(1, t)], [(2, t)]], seq.glyphs(0, t), None, 100, ck.seed))
        names.append('%s in every style' % ascii(t))
    return tasks, names


# ---------------------------------------------------------------- C11

def decomposable(f):
    out = []
    for c in sorted(f.glyph):
        if len(c) == 1:
            d = unicodedata.normalize('NFD', c)
            if d != c and len(d) > 1:
                out.append((c, d))
    return out


def plan11(ck):
    tasks, names = [], []
    rnd = random.Random(ck.seed)
    for s in (0, 1, 2):
        f = oracle.fonts()[oracle.STYLES[s]]
        for c, d in decomposable(f):
            if oracle.lookup(s, c) != (oracle.STYLES[s], c):
                continue
            tasks.append(('pair', 'C11', [(s, c)], [[(s, d)]], seq.glyphs(s, c), None, 100, ck.seed))
            names.append('%s and %s in style %d' % (ascii(c), ascii(d), s))
            # inside a text
            for pre, post in (('a', 'b'), ('\u56e1', '\n')) if ck.quick and rnd.random() < .15 else \
                    () if ck.quick else (('a', 'b'), ('\u56e1', '\n'), ('W', '\U0001f600'), (d, c)):
                tasks.append(('pair', 'C11', [(s, pre + c + post)], [[(s, pre + d + post)]], seq.glyphs(s, pre + c + post), None, 200, ck.seed))
                names.append('%s and %s in style %d' % (ascii(pre + c + post), ascii(pre + d + post), s))
    return tasks, names


# ---------------------------------------------------------------- C12

KINDS = {
    'narrow': 'i', 'wide': 'W', 'plain': 'g', 'combining': 'e\u0301', 'emoji': '\U0001f600', 'flag': '\U0001f1e8\U0001f1e6',
    'keycap': '#\ufe0f\u20e3', 'hanzi': '\u56e1', 'newline': '\n', 'unsupported2': '\u0416', 'unsupported3': '\u2603\u200a'[1:],
    'unsupported4': '\U0001d400', 'space': ' ', 'zwj': '\U0001f469\u200d\U0001f52c',
}


def splits(cl):
    """every split of a cluster list into two or more consecutive texts"""
    n = len(cl)
    out = []
    for m in range(1, 2 ** (n - 1)):
        parts = ['']
        for i, c in enumerate(cl):
            if i and m >> (i - 1) & 1:
                parts.append('')
            parts[-1] += c
        out.append(parts)
    return out


def plan12(ck):
    tasks, names = [], []
    rnd = random.Random(ck.seed)
    F = oracle.fonts()

    def ok(s, cl):
        return [x for _, x, _ in oracle.segment(s, ''.join(cl))] == [None if oracle.lookup(s, c)[1] is None else c for c in cl]

    def put(s, cl, limit, late):
        if not ok(s, cl):
            return
        t = ''.join(cl)
        late.append((('pair', 'C12', [(s, t)], [[(s, p) for p in ps] for ps in splits(cl)], seq.glyphs(s, t), None, limit, ck.seed),
                     '%s in pieces, style %d' % (ascii(t), s)))
    two, three = [], []
    ks = sorted(KINDS)
    for a in ks:
        for b in ks:
            for s in (0, 1, 2):
                if ck.quick and (ks.index(a) + 2 * ks.index(b) + s + ck.seed) % 5:
                    continue
                put(s, [KINDS[a], KINDS[b]], 100, two)
    trip = [(a, b, c) for a in ks for b in ks for c in ks]
    rnd.shuffle(trip)
    for i, t in enumerate(trip[:28] if ck.quick else trip):
        put((i + ck.seed) % 3, [KINDS[k] for k in t], 200, three)
    # any two clusters
    pool = [c for f in F.values() for c in sorted(f.glyph)]
    for i in range(24 if ck.quick else 3000):
        put(i % 3, [rnd.choice(pool), rnd.choice(pool)], 100, two)
    rnd.shuffle(two)
    for t, n in two + three:
        tasks.append(t)
        names.append(n)
    return tasks, names


def dispatch(kind, *a):
    return {'pair': pair_task, 'same': same_trace, 'font': font_trace, 'lines': lines_task,
            'newline': newline_task, 'complete': complete_task}[kind](*a)


def main(prop):
    ck = core.Check(prop, 170 if prop == 'C12' else 110, 3000)
    oracle.fonts()
    build.module()
    for p in ('checked', 'release'):
        native._lib(p)
    for st in (0, 1, 2):
        for t in ('a\n', '\u56e1', '\U0001f600', '\U000e1000'):
            try:
                paint.trace(t, st)
            except ex.Unsupported:
                pass
    tasks, names = {'C10': plan10, 'C11': plan11, 'C12': plan12}[prop](ck)
    pairs = [(t[2][0][0], t[2][0][1]) for t in tasks if t[0] == 'pair']
    tasks.append(('complete', prop, pairs[::max(1, len(pairs) // 8)]))
    names.append('layouts complete')
    if prop == 'C12':
        checks_long.extend(prop, ck)
    ck.tasks(dispatch, tasks, names, 240 if ck.quick else 1200, recycle=12)
    ck.assumptions = [
        'LLVM IR of the library (opt-level 2, overflow checks on); code generation below IR is trusted',
        'layouts: the text is painted completely (every glyph starts above the bottom of the clip rectangle and fits between its sides)',
    ]
    ck.coverage['bounds'] = {
        'C10': 'every emoji and hanzi cluster at a fixed place in all styles; glyph shapes (quick: a sample) for all cursors and clip rectangles; every Latin cluster in its own style against the font sources',
        'C11': 'every precomposed letter of the Latin fonts with a canonical decomposition, all cursors, clip rectangles and line heights, all styles',
        'C12': 'texts of two and three clusters (quick: a fifth of the pairs of %d kinds, 28 triples and 24 pairs from the whole repertoire), every split, all cursors, clip rectangles and line heights' % len(KINDS),
    }[prop] + (checks_long.BOUNDS if prop == 'C12' else '')
    ck.finish()
