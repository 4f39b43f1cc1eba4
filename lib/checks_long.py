"""Long texts (parts of C01, C06, C09, C12): a fixed text that fills the screen, on a frame buffer with
every word symbolic.  What the short symbolic texts of the other tasks cannot show is that nothing
depends on how long the text is; a text that stays above the bottom of the clip rectangle has at
most some 1400 clusters, so these are as long as it gets."""
import random
import time

import build
import chars
import core
import ex
import oracle
import paint
import seq
import sym as S

FULLCLIP = (0, 0, 336, 536)


def show(s):
    return ascii(s) if len(s) < 60 else '%s... (%d bytes)' % (ascii(s[:24]), len(s.encode()))


def run(calls, clip, cur, end):
    """(engine, kind, {word: inverted bits}, cursor) of consecutive calls; raises Undecided"""
    e = ex.Engine(build.module())
    e.max_steps = 2 * 10 ** 7
    e.deadline = end
    F = {}

    def init(i):
        if i not in F:
            F[i] = S.var('F%d' % i, 32)
        return F[i]
    v = dict(zip(paint.VARS, tuple(clip) + tuple(cur)))
    st, n = paint.text_state('x', v, 'cells', init)
    for style, text in calls:
        b = text.encode()
        st = st.fork()
        st.frames = []
        c = ex.Cells(len(b))
        c.d = {j: (1, x) for j, x in enumerate(b)}
        st.objs['txt'] = c
        outs = paint.call(e, st, style, len(b))
        if len(outs) != 1:
            raise paint.Undecided('%d outcomes' % len(outs))
        k, st, info = outs[0]
        if k != 'ret':
            return e, '%s %s' % (k, info), None, None
        if st.conds():
            raise paint.Undecided('control flow depends on the frame buffer')
    fb = {}
    for i, w in st.objs['fb'].d.items():
        x = S.xor(w, init(i), 32)
        if type(x) is not int:
            raise paint.Undecided('word %d is not an exclusive or' % i)
        if x:
            fb[i] = x
    return e, 'ret', fb, tuple(st.objs['cur'].d[8 * i][1] for i in range(3))


def native_text(calls, clip, cur, want):
    """painted natively on noise against the reference's inverted bits and cursor"""
    fb = paint.rnd_fb(7)
    for prof in ('checked', 'release'):
        k, g, c = seq.run_native(calls, clip, cur, fb, prof)
        if k != 'ok':
            return '%s build: %s' % (prof, k)
        if want is None:
            continue
        exp = [w ^ want[0].get(i, 0) for i, w in enumerate(fb)]
        if g != exp:
            return '%s build: %s' % (prof, paint.first_diff(exp, g))
        if want[1] is not None and tuple(c) != tuple(want[1]):
            return '%s build: cursor %s, expected %s' % (prof, c, want[1])
    return None


def task(prop, kind, style, text, clip, cur, pieces, limit):
    """kind 'model': against the reference; 'pieces': one call against several; 'safe': no panic"""
    S.reset()
    out = dict(stats={}, violations=[], errors=[], samples=[], known=[])
    end = time.time() + limit
    want = None
    bad = None
    name = '%s, style %d, %d characters' % (show(text), style, len(text))
    st = out['stats']
    if kind == 'model':
        m, c = oracle.model_paint([0] * 5896, clip, cur, style, text)
        want = ({i: x for i, x in enumerate(m) if x}, c)
    try:
        e, k, fb, c = run([(style, text)], clip, cur, end)
        core.add_stats(st, core.engine_stats(e))
        core.add_stats(st, dict(outcomes=1, obligations=1))
        if k != 'ret':
            bad = k
        elif want and fb != want[0]:
            bad = 'pixels differ from the reference'
        elif want and want[1] is not None and c != tuple(want[1]):
            bad = 'cursor %s, expected %s' % (c, want[1])
        else:
            core.add_stats(st, dict(folded=1))
        for ps in pieces if bad is None else []:
            core.add_stats(st, dict(obligations=1))
            e, k2, fb2, c2 = run([(style, p) for p in ps], clip, cur, end)
            core.add_stats(st, core.engine_stats(e))
            core.add_stats(st, dict(outcomes=1))
            if k2 != 'ret' or fb2 != fb or c2 != c:
                d = seq.native_differ([(style, text)], [(style, p) for p in ps], clip, cur, paint.rnd_fb(7))
                what = '%s against %d calls: %s' % (name, len(ps), d or 'differ')
                if d:
                    out['violations'].append((what, dict(a=text, b=ps, style=style, clip=clip, cursor=cur, fb='noise 7')))
                else:
                    out['errors'].append(what + ' (not reproduced)')
                break
            core.add_stats(st, dict(folded=1))
    except (ex.Unsupported, ex.Budget, paint.Undecided) as x:
        bad = '%s: %s' % (type(x).__name__, x)
    if bad or kind != 'pieces':
        core.add_stats(st, dict(witnesses=1))
        d = native_text([(style, text)], clip, cur, want)
        if d:
            out['violations'].append(('%s: %s' % (name, d), dict(text=text, style=style, clip=clip, cursor=cur, fb='noise 7')))
        elif bad:
            out['errors'].append('%s: %s' % (name, bad))
    out['samples'].append(name)
    return out


def fill(style, make, rnd, clip, cur, most=6000):
    """clusters from make() until the reference leaves the clip rectangle"""
    cl = []
    known = [k[1] for k in chars.known_list('C09')]
    cx, cy, lh = cur
    while len(cl) < most:
        c = make(len(cl))
        t = oracle.segment(style, c)
        if len(t) != 1:
            continue
        f, x, g = t[0]
        if cl and (len(oracle.segment(style, cl[-1] + c)) != 2 or any(k in cl[-1] + c for k in known)):
            continue
        if x == '\n':
            nx, ny, nl = clip[0], cy + max(lh, 24) + 1, 0
        else:
            w, h, yo, rows = g
            nx, ny, nl = cx, cy, lh
            if nx + w + 3 >= clip[2]:
                nx, ny, nl = clip[0], cy + max(lh, 24) + 1, 0
            nx, nl = nx + w + 3, max(nl, oracle.LINE[f])
        if ny + max(nl, 24) + 40 >= clip[3]:
            break
        cl.append(c)
        cx, cy, lh = nx, ny, nl
    # clusters of three and more may still merge: keep what segments as built
    while [x for _, x, _ in oracle.segment(style, ''.join(cl))] != [oracle.segment(style, c)[0][1] for c in cl]:
        seg = oracle.segment(style, ''.join(cl))
        k = next((i for i, c in enumerate(cl) if i >= len(seg) or seg[i][1] != oracle.segment(style, c)[0][1]), len(cl) - 1)
        del cl[max(0, k - 1):k + 1]
        if not cl:
            break
    return cl


def cuts(cl, rnd, n):
    out = []
    for _ in range(n):
        ks = sorted(rnd.sample(range(1, len(cl)), min(len(cl) - 1, rnd.randint(1, 3))))
        out.append(ks)
    out.append([len(cl) - 1])
    out.append([1])
    out.append([len(cl) // 2])
    res = []
    for ks in out:
        ks = [0] + ks + [len(cl)]
        res.append([''.join(cl[a:b]) for a, b in zip(ks, ks[1:])])
    res.append(list(cl))
    return res


BOUNDS = '; long texts, up to a full screen (a fixed text and place, every frame buffer)'


def texts(prop, ck):
    rnd = random.Random('%s %s' % (prop, ck.seed))
    F = oracle.fonts()
    latin = {0: 'Small', 1: 'Regular', 2: 'Bold'}
    names = {n.lower(): n for n in F}

    def pool(n):
        return sorted(F[names[n.lower()]].glyph)
    emo, han = pool('emoji'), pool('hanzi')
    lat = {s: pool(latin[s]) for s in (0, 1, 2)}
    longest = sorted(emo, key=lambda c: -len(c.encode()))[:60]
    thin = {s: min((c for c in lat[s] if len(c) == 1), key=lambda c: F[names[latin[s].lower()]].glyph[c][0]) for s in (0, 1, 2)}
    bad = ['\x7f', '\u03a9', '\u0e01', '\U00010348']
    out = []
    for s in (0, 1, 2):
        out.append((s, 'thinnest', lambda i, s=s: thin[s]))
    out.append((0, 'small i', lambda i: 'i'))
    out.append((0, 'ASCII', lambda i: chr(rnd.randint(0x20, 0x7e))))
    out.append((1, 'ASCII lines', lambda i: '\n' if rnd.random() < .02 else chr(rnd.randint(0x20, 0x7e))))
    out.append((2, 'longest clusters', lambda i: rnd.choice(longest)))
    out.append((1, 'mixed', lambda i: rnd.choice((emo, han, lat[1], lat[1])[rnd.randrange(4)])))
    out.append((0, 'mixed', lambda i: rnd.choice((emo, han, lat[0], lat[0])[rnd.randrange(4)])))
    out.append((0, 'unsupported', lambda i: bad[i % 4] if i % 3 else 'i'))
    out.append((1, 'unsupported only', lambda i: bad[rnd.randrange(4)]))
    out.append((2, 'line breaks', lambda i: '\n'))
    if not ck.quick:
        for k in range(40):
            s = k % 3
            out.append((s, 'mixed %d' % k, lambda i, s=s: rnd.choice((emo, han, lat[s], lat[s], bad, ['\n'], longest)[rnd.choice((0, 1, 2, 2, 3, 4, 5, 6))])))
    return out, rnd


def plan(prop, ck):
    """(tasks, names) for this property"""
    tasks, names = [], []
    ts, rnd = texts(prop, ck)
    limit = 120 if ck.quick else 400

    def add(kind, s, n, text, clip, cur, pieces=()):
        tasks.append(('long', prop, kind, s, text, clip, cur, list(pieces), limit))
        names.append('long text: %s, %d bytes, style %d' % (n, len(text.encode()), s))
    for s, n, make in ts:
        if prop == 'C12':
            for clip in (FULLCLIP, (7, 0, 201, 536)) if not ck.quick else (FULLCLIP,):
                cl = fill(s, make, rnd, clip, (clip[0], 0, 0))
                if len(cl) > 3:
                    add('pieces', s, n, ''.join(cl), clip, (clip[0], 0, 0), cuts(cl, rnd, 2 if ck.quick else 8))
        elif prop == 'C06':
            if 'unsupported' in n or 'mixed' in n:
                cl = fill(s, make, rnd, FULLCLIP, (3, 2, 0))
                if 'mixed' in n:
                    # an unsupported character late in the text, and at its end
                    for b in ('\u0e01', '\U00010348'):
                        c2 = cl[:-2] + [b] if rnd.random() < .5 else cl[:-3] + [b, 'A']
                        add('model', s, n, ''.join(c2), FULLCLIP, (3, 2, 0))
                add('model', s, n, ''.join(cl), FULLCLIP, (3, 2, 0))
        elif prop == 'C09':
            if 'ASCII' in n or n in ('small i', 'thinnest'):
                cl = fill(s, make, rnd, FULLCLIP, (5, 1, 0))
                add('model', s, n, ''.join(cl), FULLCLIP, (5, 1, 0))
        elif prop == 'C01':
            # longer than the screen, and where nothing fits
            cl = fill(s, make, rnd, FULLCLIP, (0, 0, 0))
            t = ''.join(cl)
            if n in ('ASCII', 'mixed', 'unsupported', 'longest clusters', 'line breaks'):
                add('safe', s, n, (t * 6)[:2500] if len(t) < 2500 else t, FULLCLIP, (0, 300, 0))
            if n in ('ASCII lines', 'unsupported only'):
                add('safe', s, n, t[:1500], (100, 200, 104, 220), (100, 200, 0))
                add('safe', s, n, t[:1500], FULLCLIP, (0, 2 ** 64 - 1, 2 ** 64 - 1))
    return tasks, names


def short_task(prop, items, limit):
    """items: (style, clusters, clip, cursor): one call against every split"""
    import checks_seq
    out = dict(stats={}, violations=[], errors=[], samples=[], known=[])
    end = time.time() + limit
    for style, cl, clip, cur in items:
        if time.time() > end:
            out['errors'].append('%s..: out of time' % ascii(''.join(cl)))
            break
        o = task(prop, 'pieces', style, ''.join(cl), clip, cur, checks_seq.splits(cl), limit)
        core.add_stats(out['stats'], o['stats'])
        out['violations'] += o['violations']
        out['errors'] += o['errors']
        out['samples'] = out['samples'] or o['samples']
        if out['violations']:
            break
    return out


# fixed places where a short text is painted completely: roomy, near the right edge, narrow rectangle
PLACES = [(FULLCLIP, (6, 6, 0)), (FULLCLIP, (290, 40, 30)), ((33, 10, 75, 500), (33, 10, 0))]


def short_plan(ck):
    import checks_seq
    rnd = random.Random('short %s' % ck.seed)
    K = [checks_seq.KINDS[k] for k in sorted(checks_seq.KINDS)]
    pool = sorted({c for f in oracle.fonts().values() for c in f.glyph})
    texts = [(s, [a, b]) for a in K for b in K for s in (0, 1, 2)]
    texts += [(s, [a, b, c]) for a in K for b in K for c in K for s in ((0, 1, 2) if not ck.quick else (rnd.randrange(3),))]
    texts += [(i % 3, [rnd.choice(pool), rnd.choice(K), rnd.choice(pool)]) for i in range(1500 if ck.quick else 20000)]
    texts += [(i % 3, [rnd.choice(pool), rnd.choice(K)]) for i in range(1500 if ck.quick else 20000)]
    known = [k[1] for k in chars.known_list('C09')]
    items = []
    for s, cl in texts:
        t = ''.join(cl)
        seg = oracle.segment(s, t)
        if len(seg) != len(cl) or any(x != (None if oracle.lookup(s, c)[1] is None else c) for (_, x, _), c in zip(seg, cl)):
            continue
        if any(k in t for k in known):
            continue
        items.append((s, cl) + PLACES[len(items) % 3])
    rnd.shuffle(items)
    n = 120
    return [('short', 'C12', items[i:i + n], 120) for i in range(0, len(items), n)], ['short texts %d..' % i for i in range(0, len(items), n)]


def dispatch(kind, *a):
    if kind == 'short':
        return short_task(*a)
    return task(*a)


def extend(prop, ck, limit=240):
    t, n = plan(prop, ck)
    if prop == 'C12':
        t2, n2 = short_plan(ck)
        t, n = t + t2, n + n2
    ck.tasks(dispatch, t, n, limit, recycle=12)
