"""Histories: sequences of unrelated calls.  The library has no state of its own, so a call's result
depends on its arguments only and the other tasks, which start from the initial program state, decide
every history.  When the current tree does have mutable statics, this is no longer so: the properties
are then also checked over sequences of calls in one program run (fixed texts, places and orders, the
frame buffer's every word symbolic)."""
import ctypes
import random
import time

import build
import chars
import checks_chars
import core
import ex
import native
import oracle
import paint
import sym as S
from ll import P

CLIPS = [(0, 0, 336, 536), (6, 6, 330, 530), (33, 10, 203, 301), (0, 20, 64, 60)]
CURS = [(0, 0, 0), (6, 6, 0), (40, 12, 33), (301, 100, 24), (0, 22, 0)]


def stateful():
    """mutable statics of the encoded library, other than the web demo's frame buffer"""
    return sorted(n for n, (size, b, p, const) in build.module().globals.items() if not const and size != 4 * 5896)


def pools(prop):
    F = oracle.fonts()
    emo = ['\U0001f600', '\u2639\ufe0f', '\U0001f1ec\U0001f1e7', '\u00a9\ufe0f', '\U0001f44d\U0001f3fd']
    emo = [c for c in emo if c in F['emoji'].glyph] + sorted(F['emoji'].glyph, key=len)[-2:]
    han = sorted(c for c in F['hanzi'].glyph)[:3]
    lat = ['a', 'b', 'W', 'i', '\u00e9', 'e\u0301', '\u00c5', 'A\u030a', ' ', '~']
    bad = ['\x7f', '\u0e01', '\U00010348']
    mixed = ['aB', 'i\u00e9W', han[0] + 'x', emo[0] + 'a', 'a\nb', 'x' + bad[1] + 'y']
    return dict(C06=bad + ['x' + b for b in bad] + ['a'], C07=lat[:5] + emo[:2] + han + bad, C08=[e for e in emo if len(e) > 1] + lat[5:8] + ['e'],
                C09=['aB', 'Wi', 'i', 'ii', ' a', 'xyz'], C10=emo + han + lat[:5], C11=lat[4:8], C12=mixed + ['aB' * 9],
                C03=lat[:5] + emo[:3] + han, C13=lat[:4] + emo[:2] + han[:1] + mixed,
                C14=['a'], C15=['a']).get(prop, lat[:5] + emo[:2] + han[:1] + mixed)


def histories(prop, seed, quick):
    rnd = random.Random('%s %s hist' % (prop, seed))
    pool = pools(prop)
    out = []

    def p(t, st, cur=None, clip=None):
        return ('p', clip or CLIPS[0], cur or CURS[0], st, t)
    if prop in ('C14', 'C15'):
        line = 'gW' * 20
        for y, a in ((30, (40, 30, 90, 31)), (10, (5, 10, 330, 11)), (20, (64, 20, 65, 40)), (3, (0, 3, 336, 30)), (500, (31, 510, 33, 536))):
            pp = p(line, 2, (0, max(0, y - 15), 0))
            out.append([pp, ('c', a), ('c', a)])
            out.append([('c', a), pp, ('c', a)])
            out.append([('c', a), pp, ('c', (0, 0, 1, 1)), ('c', a)])
            out.append([pp, ('c', a), pp, ('c', a), pp, ('c', a)])
        R = [(0, 0, 336, 536), (3, 4, 50, 60), (32, 0, 64, 9), (100, 100, 101, 101), (1, 1, 1, 1), (9, 9, 3, 20), (0, 0, 337, 536), (0, 530, 336, 537)]
        for a in R:
            for b in R:
                out.append([('c', a), ('c', b), ('c', a)])
        for _ in range(20):
            out.append([('c', rnd.choice(R)) if rnd.random() < .7 else p('aW', 1, rnd.choice(CURS)) for _ in range(8)])
        return out
    if prop == 'C13':
        for t in pool:
            for st in (0, 1, 2):
                for cur in CURS[:3]:
                    out.append([p(t, st, cur), p(t, st, cur)])
                    out.append([p(rnd.choice(pool), rnd.randrange(3), cur), p(t, st, cur), p(t, st, cur)])
        return out
    items = [(t, st) for t in pool for st in (0, 1, 2)]
    pairs = [(a, b) for a in items for b in items]
    rnd.shuffle(pairs)
    for (a, s), (b, u) in pairs[:400 if quick else 4000]:
        clip = rnd.choice(CLIPS[:3])
        out.append([p(a, s, rnd.choice(CURS), clip), p(b, u, rnd.choice(CURS), rnd.choice(CLIPS[:3]))])
    for _ in range(30 if quick else 200):
        h = []
        for _ in range(rnd.choice((4, 12, 40))):
            t, st = rnd.choice(items)
            r = rnd.random()
            h.append(('c', rnd.choice(CLIPS)) if r < .1 else p(t, st, rnd.choice(CURS), rnd.choice(CLIPS)))
        out.append(h)
    h = []
    for i in range(300 if quick else 1500):
        t, st = rnd.choice(items)
        h.append(p(t, st, rnd.choice(CURS), rnd.choice(CLIPS)))
    out.append(h)
    return out


def step_native(lib, buf, c):
    if c[0] == 'c':
        return lib.r_clear(buf, (ctypes.c_uint64 * 4)(*c[1])), None
    b = c[4].encode()
    C3 = (ctypes.c_uint64 * 3)(*c[2])
    rc = lib.r_paint(buf, (ctypes.c_uint64 * 4)(*c[1]), C3, ctypes.c_uint64(c[3]), b, ctypes.c_uint64(len(b)))
    return rc, list(C3)


def run_native(h, fb, prof):
    """[(rc, frame buffer, cursor)] of the calls, in one process"""
    lib = native._lib(prof)

    def f():
        buf = (ctypes.c_uint32 * 5896)(*fb)
        r = []
        for c in h:
            rc, cur = step_native(lib, buf, c)
            r.append((rc, list(buf), cur))
        return r
    return native.isolated(f, 60)


def judge(prop, c, before, after, cur, exp):
    """what is wrong with one step, given concrete frame buffers"""
    if c[0] == 'c':
        if prop in ('C14', 'C15', 'C01') and after != exp[0]:
            return paint.first_diff(exp[0], after)
        return None
    if prop == 'C02':
        x0, y0, x1, y1 = c[1]
        m = ((1 << x1) - 1) & ~((1 << x0) - 1)
        for i, (a, b) in enumerate(zip(before, after)):
            y, k = divmod(i, 11)
            w = m >> 32 * k & 0xffffffff if y0 <= y < y1 else 0
            if (a ^ b) & ~w:
                return 'word %d of line %d changed outside the clip rectangle' % (k, y)
        return None
    if prop in ('C14', 'C15', 'C01'):
        return None
    if prop not in ('C04', 'C05', 'C13') and after != exp[0]:
        return paint.first_diff(exp[0], after)
    if prop not in ('C03', 'C13', 'C06', 'C07', 'C08', 'C09') and exp[1] is not None and tuple(cur) != tuple(exp[1]):
        return 'cursor %s, expected %s' % (tuple(cur), tuple(exp[1]))
    return None


def check_native(prop, h, fb):
    for prof in ('checked', 'release'):
        k, r = run_native(h, fb, prof)
        if k != 'ok':
            return '%s build: %s' % (prof, k) if prop == 'C01' else None
        b = fb
        for i, (c, (rc, a, cur)) in enumerate(zip(h, r)):
            if rc:
                return '%s build: step %d panics' % (prof, i + 1) if prop in ('C01', 'C15') else None
            exp = (oracle.model_clear(b, c[1]), None) if c[0] == 'c' else oracle.model_paint(b, c[1], c[2], c[3], c[4])
            d = judge(prop, c, b, a, cur, exp)
            if d:
                return '%s build: step %d: %s' % (prof, i + 1, d)
            b = a
        if prop == 'C13' and (r[-1][1] != ([fb] + [x[1] for x in r])[-3] or r[-1][2] != r[-2][2]):
            return '%s build: painting it twice does not restore the screen, or moves the cursor elsewhere' % prof
    return None


def put(st, key, vals, n):
    o = ex.Cells(n * len(vals), True)
    o.d = {n * i: (n, x) for i, x in enumerate(vals)}
    st.objs[key] = o


def walk(h, out, end):
    """symbolic run of one history: None when it agrees with the reference everywhere, else
    (what, values of frame buffer words, history up to there)"""
    e = ex.Engine(build.module())
    e.max_steps = 10 ** 7
    e.deadline = end
    F = {}

    def init(i):
        if i not in F:
            F[i] = S.var('F%d' % i, 32)
        return F[i]
    exp = {}
    st = ex.State()
    st.objs['fb'] = ex.FB(5896, 'cells', init)
    states = [st]
    try:
        for n, c in enumerate(h):
            nxt = []
            for st in states:
                st = st.fork()
                st.frames = []
                put(st, 'clip', c[1], 8)
                if c[0] == 'c':
                    nxt += e.run('h_clear', [P('fb', 0), P('clip', 0)], st)
                else:
                    put(st, 'cur', c[2], 8)
                    b = c[4].encode()
                    put(st, 'txt', b, 1)
                    nxt += paint.call(e, st, c[3], len(b))
            want = None
            if c[0] == 'c':
                for i, m in enumerate(oracle.model_clear([0] * 5896, c[1])):
                    if m:
                        exp[i] = S.or_(exp.get(i, init(i)), m, 32)
            else:
                d, want = oracle.model_paint([0] * 5896, *c[1:])
                for i, m in enumerate(d):
                    if m:
                        exp[i] = S.xor(exp.get(i, init(i)), m, 32)
            if len(nxt) > 12:
                return 'too many paths', None, h[:n + 1]
            states = []
            for kind, st, info in nxt:
                core.add_stats(out['stats'], dict(obligations=1, outcomes=1))
                cs = [x for x in st.conds() if type(x) is not int]
                bad = []
                if kind == 'ret':
                    got = st.objs['fb'].d
                    for i in set(got) | set(exp):
                        x = S.eq(got.get(i, init(i)), exp.get(i, init(i)), 32)
                        if type(x) is not int or not x:
                            bad.append(S.not_(x))
                    if want is not None:
                        for x, y in zip(want, (st.objs['cur'].d[8 * i][1] for i in range(3))):
                            q = S.eq(x, y, 64)
                            if type(q) is not int or not q:
                                bad.append(S.not_(q))
                else:
                    bad.append(1)
                if bad:
                    bad = S.bor(*bad)
                    r, env = e.solver.check(cs + ([bad] if type(bad) is not int else []))
                    if r == 'sat':
                        return 'differs', {i: env['F%d' % i] for i in F if 'F%d' % i in env}, h[:n + 1]
                    if r != 'unsat':
                        return 'unknown', None, h[:n + 1]
                    core.add_stats(out['stats'], dict(z3=1))
                else:
                    core.add_stats(out['stats'], dict(folded=1))
                if kind == 'ret':
                    states.append(st)
    except (ex.Unsupported, ex.Budget) as x:
        return '%s: %s' % (type(x).__name__, x), None, h
    finally:
        core.add_stats(out['stats'], core.engine_stats(e))
    return None


def task(prop, hs, limit):
    out = dict(stats={}, violations=[], errors=[], samples=[])
    end = time.time() + limit
    for h in hs:
        S.reset()
        r = walk(h, out, end)
        if r is None:
            continue
        core.add_stats(out['stats'], dict(witnesses=1))
        fb = paint.rnd_fb(11)
        for i, x in (r[1] or {}).items():
            fb[i] = x
        h = r[2]
        d = check_native(prop, h, fb)
        if d:
            out['violations'].append(('after a history of calls, ending in %s: %s' % (ascii(h[-3:]), d), dict(history=h, fb=fb)))
            break
        # not this property: the reference of this comparison is stronger
        core.add_stats(out['stats'], dict(other_property=1))
        if r[0] != 'differs':
            out['errors'].append('history: ' + r[0])
        if time.time() > end:
            break
    return out


def call_step(style, text, cur):
    return ('p', chars.CLIP, cur, style, text)


def confirm(out, prop, style, texts, what):
    """consecutive paint calls of texts, natively in one process, against the reference"""
    cur = chars.CUR
    h = []
    for t in texts:
        h.append(call_step(style, t, cur))
        cur = oracle.model_paint([0] * 5896, chars.CLIP, cur, style, t)[1]
    core.add_stats(out['stats'], dict(witnesses=1))
    fb = paint.rnd_fb(11)
    d = check_native(prop, h, fb)
    if d:
        out['violations'].append(('%s: painting %s in consecutive calls: %s' % (what, ascii(texts), d), dict(history=h, fb=fb)))
    return bool(d)


def symbolic(prop, style, L, other, first, limit):
    """two calls, one of them with any character of L bytes: first: before the other text"""
    S.reset()
    out = dict(stats={}, violations=[], errors=[], samples=[])
    x = chars.X('X', L)
    parts = [x, other] if first else [other, x]
    text = lambda v: [chr(v), other] if first else [other, chr(v)]
    what = 'two calls'
    try:
        R = chars.explore(parts, style, time.time() + limit, split=True)
    except (ex.Unsupported, ex.Budget) as e:
        out['errors'].append('%s: %s' % (type(e).__name__, e))
        return out
    core.add_stats(out['stats'], core.engine_stats(R.engine))
    core.add_stats(out['stats'], dict(outcomes=len(R.outs)))
    if not first:
        rep = checks_chars.repertoire(style, L)
        lv = set(chars.leaves(R))
        core.add_stats(out['stats'], dict(obligations=1, folded=1))
        for v in sorted(rep - lv)[:3]:
            if confirm(out, prop, style, text(v), 'a character of the repertoire is not looked up'):
                return out
    exp, cur = oracle.model_paint([0] * 5896, chars.CLIP, chars.CUR, style, text(0xfffd)[0])
    exp, cur = oracle.model_paint(exp, chars.CLIP, cur, style, text(0xfffd)[1])
    for k, st, info in R.outs:
        if k == 'conc':
            continue
        core.add_stats(out['stats'], dict(obligations=1))
        if k == 'ret' and chars.cells_are(st, exp) and tuple(st.objs['cur'].d[8 * i][1] for i in range(3)) == tuple(cur):
            core.add_stats(out['stats'], dict(folded=1))
            continue
        r, v = chars.witness(st, x, out)
        if r == 'sat':
            if confirm(out, prop, style, text(v), 'an unsupported character'):
                return out
        elif r == 'unsat':
            core.add_stats(out['stats'], dict(z3=1))
        else:
            out['errors'].append('path without a witness')
    return out


def extend(ck):
    if ck.pid not in ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15').split():
        return
    try:
        g = stateful()
    except Exception:
        return
    if not g:
        return
    hs = histories(ck.pid, ck.seed, ck.quick)
    hs.sort(key=len)
    n = 24
    ck.deadline = max(ck.deadline, time.time() + 100)
    ck.tasks(task, [(ck.pid, hs[i::n], 90) for i in range(n)], ['histories %d' % i for i in range(n)], 200)
    if ck.pid in ('C03', 'C06', 'C07', 'C08', 'C10', 'C12'):
        rnd = random.Random(ck.seed)
        pool = pools(ck.pid)
        ts = []
        for L in (1, 2, 3, 4):
            for first in (True, False):
                for o in rnd.sample(pool, min(len(pool), 6 if ck.quick else 40)):
                    ts.append((ck.pid, rnd.randrange(3), L, o, first, 60))
        ck.tasks(symbolic, ts, ['two calls %s' % ascii(t[2:5]) for t in ts], 120)
    ck.notes.append('the library has mutable statics (%s): %d histories of calls checked' % (', '.join(g)[:200], len(hs)))
