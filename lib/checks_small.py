"""C16 (clip rectangles, cursors, points) and C17 (style numbers, height hints): small loop-free
functions, all inputs symbolic at full width."""
import random

import build
import core
import ex
import native
import oracle
import paint
import sym as S
from ll import P
from paint import W, M64, T, add, le, lt, need

NAMES = ['rect_new', 'rect_full', 'rect_padded', 'cursor_tl', 'cursor_new', 'pt_new', 'pt_cmp', 'pt_ops', 'rect_eq',
         'cursor_eq', 'style_from', 'style_into', 'style_round', 'hint']
NARG = dict(rect_new=4, rect_full=0, rect_padded=0, cursor_tl=4, cursor_new=3, pt_new=2, pt_cmp=4, pt_ops=4, rect_eq=8,
            cursor_eq=6, style_from=1, style_into=1, style_round=1, hint=1)
NOUT = dict(rect_new=4, rect_full=4, rect_padded=4, cursor_tl=3, cursor_new=3, pt_new=2)


def ref(name, a):
    """the reference, on terms or integers"""
    lo = lambda x, y: S.ite(lt(y, x), y, x, W)
    hi = lambda x, y: S.ite(lt(y, x), x, y, W)
    z = lambda c: c if type(c) is int else S.zext(c, 1, W)
    if name == 'rect_new':
        return [lo(a[0], a[2]), lo(a[1], a[3]), hi(a[0], a[2]), hi(a[1], a[3])]
    if name == 'rect_full':
        return [0, 0, 336, 536]
    if name == 'rect_padded':
        return [6, 6, 330, 530]
    if name == 'cursor_tl':
        return [a[0], a[1], 0]
    if name in ('cursor_new', 'pt_new'):
        return list(a)
    if name in ('pt_cmp', 'pt_ops'):
        eqx, eqy = S.eq(a[0], a[2], W), S.eq(a[1], a[3], W)
        less = S.bor(lt(a[0], a[2]), S.band(eqx, lt(a[1], a[3])))
        same = S.band(eqx, eqy)
        if name == 'pt_cmp':
            return [S.ite(less, 0, S.ite(same, 1, 2, W), W)]
        more = S.not_(S.bor(less, same))
        bits = [same, S.not_(same), less, S.bor(less, same), more, S.not_(less)]
        r = 0
        for i, b in enumerate(bits):
            r = S.add(r, S.mul(z(b), 1 << i, W), W)
        return [r]
    if name in ('rect_eq', 'cursor_eq'):
        n = len(a) // 2
        return [z(S.band(*[S.eq(a[i], a[n + i], W) for i in range(n)]))]
    if name == 'style_from':
        return [S.ite(S.eq(a[0], 0, W), 0, S.ite(S.eq(a[0], 2, W), 2, 1, W), W)]
    if name in ('style_into', 'style_round'):
        # the harness maps 0, 1, anything else to small, regular, bold
        return [S.ite(S.eq(a[0], 0, W), 0, S.ite(S.eq(a[0], 1, W), 1, 2, W), W)]
    if name == 'hint':
        return [S.ite(S.eq(a[0], 0, W), oracle.LINE['small'], oracle.LINE['bold'], W)]
    raise KeyError(name)


def run(name, args):
    e = ex.Engine(build.module())
    s = ex.State()
    a = list(args)
    if name in ('cursor_tl', 'rect_eq', 'cursor_eq'):
        n = {'cursor_tl': [4], 'rect_eq': [4, 4], 'cursor_eq': [3, 3]}[name]
        a = []
        k = 0
        for j, m in enumerate(n):
            c = ex.Cells(8 * m, True)
            c.d = {8 * i: (8, args[k + i]) for i in range(m)}
            k += m
            s.objs['in%d' % j] = c
            a.append(P('in%d' % j, 0))
    if name in NOUT:
        c = ex.Cells(8 * NOUT[name], True)
        c.d = {8 * i: (8, 0) for i in range(NOUT[name])}
        s.objs['out'] = c
        a.append(P('out', 0))
    outs = e.run('h_' + name, a, s)
    res = []
    for kind, st, info in outs:
        if kind != 'ret':
            res.append((kind, st, None))
        elif name in NOUT:
            res.append((kind, st, [st.objs['out'].d[8 * i][1] for i in range(NOUT[name])]))
        else:
            r = st.ret
            if type(r) is T and r.w < 64:
                r = S.zext(r, r.w, 64)
            res.append((kind, st, [r]))
    return e, res


def task(prop, name):
    S.reset()
    pr = core.Prover(10000)
    out = dict(stats={}, violations=[], errors=[], samples=[])
    args = [S.var('a%d' % i, 64) for i in range(NARG[name])]
    exp = ref(name, args)
    k = NAMES.index(name)

    def concrete(env):
        return [env.get('a%d' % i, 0) for i in range(len(args))]

    def cex(env, what):
        a = concrete(env)
        want = ref(name, a)
        for prof in ('checked', 'release'):
            r, o = native.small(k, a, prof)
            if r != 'ok' or o[:len(want)] != want:
                out['violations'].append(('%s%s: %s build gives %s, expected %s' % (name, tuple(a), prof, o[:len(want)] if o else r, want),
                                          dict(function=name, args=a)))
                return
        if what:
            out['errors'].append('%s: counterexample %s did not reproduce (%s)' % (name, a, what))
    try:
        e, res = run(name, args)
        core.add_stats(out['stats'], core.engine_stats(e))
        core.add_stats(out['stats'], dict(outcomes=len(res)))
        if not res:
            out['errors'].append('no outcome')
        for kind, st, got in res:
            pc = st.conds()
            k0, env = pr.solver.check(pc)
            if k0 != 'sat':
                continue
            if kind != 'ret':
                cex(env, kind)
                break
            a = concrete(env)
            memo = {}
            full = {'a%d' % i: x for i, x in enumerate(a)}
            r, o = native.small(k, a)
            pred = [S.evalt(x, full, memo) for x in got]
            core.add_stats(out['stats'], dict(witnesses=1))
            if r != 'ok' or o[:len(pred)] != pred:
                out['errors'].append('encoding and native code disagree on %s%s' % (name, tuple(a)))
            out['samples'].append('%s%s = %s' % (name, tuple(a), pred))
            bad = False
            for i, (x, y) in enumerate(zip(got, exp)):
                r = pr.prove(pc, S.eq(x, y, W))
                if r is None:
                    out['errors'].append('%s result %d undecided' % (name, i))
                elif r is not True:
                    cex(r, 'result %d' % i)
                    bad = True
                    break
            if bad:
                break
    except (ex.Unsupported, ex.Budget) as e:
        out['errors'].append('%s: %s' % (name, e))
    if out['errors'] and not out['violations']:
        # no answer from the encoding: compare natively on edge values
        r = random.Random(1)
        for i in range(150):
            a = [r.choice([0, 1, 2, 3, 5, 7, 255, 335, 336, 337, 536, 537, 1 << 32, M64 - 1, M64]) for _ in args]
            core.add_stats(out['stats'], dict(fallback_replays=1))
            cex({'a%d' % i: x for i, x in enumerate(a)}, None)
            if out['violations']:
                break
    core.add_stats(out['stats'], pr.stats())
    core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
    return out


def hint_task(prop, style):
    """a line of the style's text moves the cursor down by the hint plus one"""
    out = dict(stats={}, violations=[], errors=[], samples=[])
    name = oracle.STYLES[style]
    k, o = native.small(NAMES.index('hint'), [style])
    F = oracle.fonts()[name]
    chars = [c for c in sorted(F.glyph) if oracle.lookup(style, c) == (name, c)]
    texts = [chars[0], '\u00e9', 'W', '\ufffd', ' ']
    for text in texts:
        S.reset()
        pr = core.Prover(10000)
        v = dict(minx=S.var('minx', 64, 0, 300), miny=S.var('miny', 64, 0, 100), maxx=336, maxy=536,
                 cx=0, cy=S.var('cy', 64, 0, 400), lh=0)
        v['cx'] = v['minx']
        e = ex.Engine(build.module())
        e.max_steps = 60000
        # one style's text followed by a line break, line height starting at 0
        st, n = paint.text_state(text + '\n', v)
        try:
            outs = paint.call(e, st, style, n)
            core.add_stats(out['stats'], core.engine_stats(e))
            core.add_stats(out['stats'], dict(outcomes=len(outs)))
            for kind, s, info in outs:
                cy = s.objs['cur'].d[8][1] if kind == 'ret' else 0
                pc = s.conds()
                r = pr.prove(pc, S.eq(cy, add(v['cy'], (o[0] if k == 'ok' else 0) + 1), W))
                if r is None:
                    out['errors'].append('hint %s undecided' % name)
                elif r is not True:
                    r = dict(dict(minx=0, miny=0, cy=0), **r)
                    clip, cur = (r['minx'], r['miny'], 336, 536), (r['minx'], r['cy'], 0)
                    kk, g, c = native.paint(paint.rnd_fb(1), clip, cur, style, text + '\n')
                    if k != 'ok' or kk != 'ok' or c[1] - cur[1] != o[0] + 1:
                        out['violations'].append(('style %d: painting %s and a newline from %s moves the cursor to %s, hint %s' % (
                            style, ascii(text), cur, c, o and o[0]), dict(text=text + '\n', style=style, clip=clip, cursor=cur)))
                        break
                    out['errors'].append('hint counterexample did not reproduce')
            out['samples'].append('style %d %s: hint %s' % (style, ascii(text), o and o[0]))
        except (ex.Unsupported, ex.Budget) as x:
            out['errors'].append('hint %s: %s' % (name, x))
        core.add_stats(out['stats'], pr.stats())
        core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
        if out['violations']:
            break
    return out


def dispatch(kind, *a):
    return task(*a) if kind == 'fn' else hint_task(*a)


def main(prop):
    ck = core.Check(prop, 90, 300)
    oracle.fonts()
    build.module()
    for p in ('checked', 'release'):
        native._lib(p)
    mine = NAMES[:10] if prop == 'C16' else NAMES[10:13]
    tasks = [('fn', prop, n) for n in mine]
    if prop == 'C17':
        tasks += [('hint', prop, s) for s in (0, 1, 2)]
    ck.tasks(dispatch, tasks, [' '.join(map(str, t)) for t in tasks], 60)
    ck.coverage['bounds'] = 'none: all arguments symbolic at full 64-bit width' + (
        '; the height hint is compared for 5 texts per style, with all clip edges and cursor rows on the screen' if prop == 'C17' else '')
    ck.assumptions = ['LLVM IR of the library (opt-level 2, overflow checks on) inlined into the harness; code generation below IR is trusted']
    ck.finish()
