"""C06, C07, C08, C09: what painting does for arbitrary characters."""
import json
import os
import random
import time

import build
import chars
import checks_long
import core
import ex
import native
import oracle
import paint
import sym as S
from chars import X

STYLES = (0, 1, 2)


def new():
    return dict(stats={}, violations=[], errors=[], samples=[], known=[])


def note(out, R):
    core.add_stats(out['stats'], core.engine_stats(R.engine))
    core.add_stats(out['stats'], dict(outcomes=len(R.outs)))


def trace_all(out, prop, style, texts, what):
    """each concrete text through the encoding against the reference"""
    for t in texts:
        try:
            e, bad = chars.traced(style, t)
            core.add_stats(out['stats'], core.engine_stats(e))
        except (ex.Unsupported, ex.Budget) as x:
            bad = 'unsupported %s' % x
        core.add_stats(out['stats'], dict(obligations=1))
        if bad is None:
            core.add_stats(out['stats'], dict(folded=1))
        elif chars.report(out, prop, style, t, '%s (%s)' % (what, bad)):
            return False
    return True


def rest_path(out, prop, R, style, want_text, sample):
    """the paths on which no table lookup pinned the character paint the replacement: compare
    with the reference for want_text; sample: texts that take such a path, replayed natively"""
    for k, st, info in R.outs:
        if k == 'conc':
            continue
        core.add_stats(out['stats'], dict(obligations=1))
        cur = None
        bad = None
        if k != 'ret':
            bad = k
        else:
            exp, c = chars.expected(style, want_text)
            got = tuple(st.objs['cur'].d[8 * i][1] for i in range(3))
            if not chars.cells_are(st, exp):
                bad = 'pixels'
            elif got != tuple(c):
                bad = 'cursor %s, expected %s' % (got, c)
        if bad is None:
            core.add_stats(out['stats'], dict(folded=1))
            continue
        # a character on this path
        x = R.xs[0]
        cand = [v for v in sample if chars.holds(st, {x.name: v})]
        if not cand:
            r, v = chars.witness(st, x, out)
            if r == 'unsat':
                core.add_stats(out['stats'], dict(z3=1))
                continue
            if r == 'sat':
                cand = [v]
        if not cand:
            out['errors'].append('path of unsupported characters (%s) without a witness' % bad)
            continue
        t = chars.text_of(R.parts, {x.name: cand[0]})
        if chars.report(out, prop, style, t, 'unsupported character (%s)' % bad):
            return False
    return True


# ---------------------------------------------------------------- C07

def repertoire(style, L):
    """supported single characters of UTF-8 length L (other than the line break)"""
    a, b = chars.RANGE[L]
    out = set()
    F = oracle.fonts()
    for n in ('emoji', oracle.STYLES[style], 'hanzi'):
        for c in F[n].glyph:
            if len(c) == 1 and a <= ord(c) <= b:
                out.add(ord(c))
    out.discard(10)
    return out


def unsupported_sample(style, x, rnd, n):
    rep = repertoire(style, x.L)
    out = []
    edge = [x.lo, x.hi, x.lo + 1, x.hi - 1, 0x30000, 0x20001, 0x7f, 0x1f650, 0xe0041]
    for v in edge + [rnd.randint(x.lo, x.hi) for _ in range(3 * n)]:
        if x.lo <= v <= x.hi and v not in rep and v != 10 and not 0xd800 <= v < 0xe000 and v not in out:
            out.append(v)
    return out[:n]


def c07_task(prop, style, L, seed, full):
    out = new()
    S.reset()
    x = X('X', L)
    rnd = random.Random('%d %d %d' % (style, L, seed))
    rep = repertoire(style, L)
    un = unsupported_sample(style, x, rnd, 60)
    try:
        R = chars.explore([x], style, time.time() + 150)
        note(out, R)
        lv = set(chars.leaves(R))
        lv.discard(10)
    except (ex.Unsupported, ex.Budget) as e:
        out['errors'].append('symbolic character of %d bytes: %s: %s' % (L, type(e).__name__, e))
        trace_all(out, prop, style, [chr(v) for v in rnd.sample(sorted(rep), min(400, len(rep))) + un], 'character')
        core.add_stats(out['stats'], dict(fallback_replays=1))
        return out
    core.add_stats(out['stats'], dict(pinned=len(lv)))
    miss = sorted(rep - lv)
    extra = sorted(lv - rep)
    for v in miss[:3]:
        if chars.report(out, prop, style, chr(v), 'U+%04X is in the repertoire but no table lookup finds it' % v):
            return out
    if not trace_all(out, prop, style, [chr(v) for v in extra], 'character outside of the repertoire'):
        return out
    core.add_stats(out['stats'], dict(obligations=1, folded=1) if not miss else {})
    if not rest_path(out, prop, R, style, '\ufffd', un):
        return out
    # vacuity: unsupported samples take a non-pinned path, and the native code agrees
    free = [s for k, s, i in R.outs if k != 'conc']
    for v in un[:12]:
        core.add_stats(out['stats'], dict(witnesses=1))
        if v not in lv and not any(chars.holds(s, {'X': v}) for s in free):
            out['errors'].append('U+%04X takes no explored path' % v)
        d = chars.native_diff(style, chr(v))
        if d and v not in lv:
            out['violations'].append(('unsupported character: painting %s in style %d: %s' % (ascii(chr(v)), style, d),
                                      dict(text=chr(v), style=style, clip=chars.CLIP, cursor=chars.CUR)))
            return out
    out['samples'].append('style %d, %d-byte characters: %d table lookups succeed, all others draw U+FFFD' % (style, L, len(lv)))
    return out


def c07_trace(prop, style, cps):
    out = new()
    S.reset()
    trace_all(out, prop, style, [chr(v) for v in cps], 'character')
    return out


def c07_plan(ck):
    tasks, names = [], []
    for L in (3, 4, 1, 2):
        for st in STYLES:
            tasks.append(('explore', 'C07', st, L, ck.seed, not ck.quick))
            names.append('all %d-byte characters, style %d' % (L, st))
    tasks.append(('explore7', 'C07', '\n'))
    names.append('newline')
    for st in STYLES:
        for L in (1, 2, 3, 4):
            rep = sorted(repertoire(st, L))
            for i in range(0, len(rep), 250):
                tasks.append(('trace', 'C07', st, rep[i:i + 250]))
                names.append('glyphs of %d-byte characters from U+%04X, style %d' % (L, rep[i], st))
    return tasks, names


# ---------------------------------------------------------------- C06

CONTEXTS = [('', ''), ('A', ''), ('', 'B'), ('A', 'B'), ('\u00e9', 'z'), ('\U0001f600', 'B'), ('A', '\u4e2d'), ('\u4e2d', ''),
            ('A', '\n'), ('\n', 'B'), ('\U0001f44d\U0001f3fd', '\U0001f600'), ('', '\ufffd'), ('\U000f0000', 'B'), ('', '\U000f0000')]


def c06_task(prop, style, pre, post, x, seed, limit):
    out = new()
    S.reset()
    rnd = random.Random('%s %s %s' % (pre, post, seed))
    un = unsupported_sample(style, x, rnd, 20)
    un = [v for v in un if oracle.segment(style, pre + chr(v) + post) == oracle.segment(style, pre) +
          oracle.segment(style, chr(v)) + oracle.segment(style, post)]
    fb = lambda v: pre + chr(v) + post
    want = pre + '\ufffd' + post
    try:
        R = chars.explore([pre, x, post], style, time.time() + limit)
        note(out, R)
        lv = chars.leaves(R)
        rep = repertoire(style, x.L)
        # a character pinned by a lookup that has no glyph of its own: the whole text against the reference
        odd = [v for v in lv if v not in rep and v != 10]
        if not trace_all(out, prop, style, [fb(v) for v in odd], 'unsupported character'):
            return out
        if not rest_path(out, prop, R, style, want, un):
            return out
    except (ex.Unsupported, ex.Budget) as e:
        out['errors'].append('%s %s %s: %s: %s' % (ascii(pre), x, ascii(post), type(e).__name__, e))
    for v in un[:4]:
        core.add_stats(out['stats'], dict(witnesses=1))
        d = chars.native_diff(style, fb(v))
        if d:
            out['violations'].append(('unsupported character: painting %s in style %d: %s' % (ascii(fb(v)), style, d),
                                      dict(text=fb(v), style=style, clip=chars.CLIP, cursor=chars.CUR)))
            return out
    out['samples'].append('%s + %s + %s, style %d' % (ascii(pre), x, ascii(post), style))
    return out


def c06_plan(ck):
    tasks, names = [], []
    # hanzi and emoji ranges in the middle of a text are explored range by range; characters the
    # fonts cover are C07's subject, so for speed the covered hanzi blocks are left out in quick
    if ck.quick:
        parts = [X('X', 1), X('X', 2), X('X', 3, 0x800, 0x33ff), X('X', 3, 0x4dc0, 0x4dff), X('X', 3, 0xa000, 0xffff),
                 X('X', 4, 0x10000, 0x1efff), X('X', 4, 0x1f000, 0x1ffff), X('X', 4, 0x2ceb0, 0x10ffff)]
    else:
        parts = [X('X', 1), X('X', 2), X('X', 3), X('X', 4)]
    for i, (a, b) in enumerate(CONTEXTS):
        for st in STYLES if not ck.quick else ((i + ck.seed) % 3,):
            for x in parts:
                tasks.append(('c06', 'C06', st, a, b, x, ck.seed, 60 if ck.quick else 300))
                names.append('%s %s %s style %d' % (ascii(a), x, ascii(b), st))
    # after every kind of cluster: joiners, selectors, marks and tags (which belong to clusters but stand for themselves here)
    narrow = [X('X', 2, 0x300, 0x3ff), X('X', 3, 0x2000, 0x20ff), X('X', 3, 0xfe00, 0xfe0f), X('X', 4, 0xe0000, 0xe01ff)]
    for st in STYLES:
        reps = {}
        cl = clusters(st)
        for f, c in cl:
            if f == 'emoji' and st != ck.seed % 3:
                continue
            reps.setdefault((f, ord(c[-1]), len(c) if f == 'emoji' else 0), c)
        for c in sorted(reps.values()):
            for x in narrow:
                tasks.append(('c06', 'C06', st, c, 'B', x, ck.seed, 60 if ck.quick else 300))
                names.append('%s %s B style %d' % (ascii(c), x, st))
        for i in range(0, len(cl), 200):
            tasks.append(('c06t', 'C06', st, cl[i:i + 200], ck.seed if ck.quick else None))
            names.append('after clusters %d.. style %d' % (i, st))
    return tasks, names


AFTER = ['\ufe0f', '\u200d', '\u20e3', '\U000e0067', '\u0301', '\u0416', '\u2e9a', '\U0001d400', '\x01']


def c06_trace(prop, style, cl, seed):
    """every cluster followed by an unsupported character"""
    out = new()
    S.reset()
    for j, (n, c) in enumerate(cl):
        if oracle.lookup(style, c) != (n, c):
            continue
        for k, u in enumerate(AFTER):
            if seed is not None and (j + k + seed) % len(AFTER):
                continue
            t = c + u + 'x'
            if oracle.lookup(style, u)[1] is not None or \
                    oracle.segment(style, t) != oracle.segment(style, c) + oracle.segment(style, u) + oracle.segment(style, 'x'):
                continue
            if not trace_all(out, prop, style, [t], 'unsupported character after a cluster'):
                return out
    return out


# ---------------------------------------------------------------- C08

def clusters(style):
    """multi-codepoint clusters reachable in the style: [(font, cluster)]"""
    out = []
    F = oracle.fonts()
    for n in ('emoji', oracle.STYLES[style], 'hanzi'):
        for c in sorted(F[n].glyph):
            if len(c) > 1:
                out.append((n, c))
    return out


ALL = [(1, None, None), (2, None, None), (3, None, None), (4, None, None)]
PLAIN = (0x0900, 0x097f)     # characters no font covers
FOLLOW = ('a', '\U0001f600', '\u4e2d', '\u200d', '\ufe0f')


def c08_task(prop, style, cl, lens, limit, sample):
    out = new()
    texts = []
    for n, c in cl:
        f, got = oracle.lookup(style, c)
        if (f, got) == (n, c):
            texts.append(c)
        # otherwise a font with precedence lists the same cluster
    S.reset()
    end = time.time() + limit
    seen = supported()
    for j, c in enumerate(texts):
        if time.time() > end:
            out['cut'] = ['style %d: %s' % (style, ascii(t)) for t in texts[j:]]
            break
        S.reset()
        alone, cur = chars.expected(style, c)
        # the glyph chosen, whatever follows
        for L in lens if sample or j % 8 == 0 else ():
            S.reset()
            x = X('X', L)
            try:
                R = chars.explore([c, x], style, end, stop_fork=True)
            except (ex.Unsupported, ex.Budget) as e:
                if time.time() > end:
                    break
                out['errors'].append('%s + %s: %s' % (ascii(c), x, e))
                continue
            note(out, R)
            for k, st, info in R.outs:
                core.add_stats(out['stats'], dict(obligations=1))
                if k == 'fork' and chars.cells_are(st, alone):
                    core.add_stats(out['stats'], dict(folded=1))
                    continue
                t = None
                if k == 'conc':
                    v = info['X']
                    if chars.cells_are(st, alone) and st.objs['fb'].d:
                        core.add_stats(out['stats'], dict(folded=1))
                        continue
                    if not x.lo <= v <= x.hi or 0xd800 <= v < 0xe000 or not chars.holds(st, info):
                        core.add_stats(out['stats'], dict(folded=1))
                        continue
                    if v not in seen:
                        # merging with an unsupported character is C09's subject
                        core.add_stats(out['stats'], dict(folded=1))
                        continue
                    t = c + chr(v)
                else:
                    r, v = chars.witness(st, x, out)
                    if r == 'unsat':
                        core.add_stats(out['stats'], dict(z3=1))
                        continue
                    if r != 'sat':
                        out['errors'].append('%s + %s: %s path undecided' % (ascii(c), x, k))
                        continue
                    t = c + chr(v)
                if chars.traced(style, t)[1] is None:
                    core.add_stats(out['stats'], dict(folded=1))
                    continue
                if chars.report(out, prop, style, t, 'cluster followed by another character'):
                    return out
        # consumed as a whole: what follows is painted next
        S.reset()
        x = X('X', 3, *PLAIN)
        try:
            R = chars.explore([c, x], style, end)
            note(out, R)
            if not rest_path(out, prop, R, style, c + '\ufffd', x.values()[:8]):
                return out
            for v in chars.leaves(R):
                if not trace_all(out, prop, style, [c + chr(v)], 'cluster followed by another character'):
                    return out
        except (ex.Unsupported, ex.Budget) as e:
            if time.time() > end:
                out['cut'] = ['style %d: %s' % (style, ascii(t)) for t in texts[j:]]
                break
            out['errors'].append('%s + %s: %s' % (ascii(c), x, e))
        if not trace_all(out, prop, style, [c + FOLLOW[j % len(FOLLOW)] + 'b'], 'cluster followed by another character'):
            return out
    out['samples'].append('style %d: %s' % (style, ', '.join(ascii(t) for t in texts[:3])))
    return out


_sup = None


def supported():
    """every character of the repertoire or of one of its clusters"""
    global _sup
    if _sup is None:
        _sup = set()
        for f in oracle.fonts().values():
            for c in f.glyph:
                _sup.update(map(ord, c))
    return _sup


def c08_trace(prop, style, cl):
    out = new()
    S.reset()
    mine = [c for n, c in cl if oracle.lookup(style, c) == (n, c)]
    if trace_all(out, prop, style, mine, 'cluster'):
        trace_all(out, prop, style, [c + FOLLOW[j % len(FOLLOW)] + 'b' for j, c in enumerate(mine)], 'cluster followed by another character')
    return out


def c08_plan(ck):
    tasks, names = [], []
    k = 8
    for st in STYLES:
        cl = clusters(st)
        for i in range(0, len(cl), 200):
            tasks.append(('c08t', 'C08', st, cl[i:i + 200]))
            names.append('glyphs of clusters %d.. style %d' % (i, st))
    for st in STYLES:
        cl = clusters(st)
        emoji = [x for x in cl if x[0] == 'emoji']
        other = [x for x in cl if x[0] != 'emoji']
        if ck.quick:
            if st == ck.seed % 3:
                emoji = [x for i, x in enumerate(emoji) if (i + ck.seed) % 3 == 0]
            else:
                emoji = [x for i, x in enumerate(emoji) if (i + ck.seed) % 40 == 0]
        both = other + emoji
        for i in range(0, len(both), k):
            tasks.append(('c08', 'C08', st, both[i:i + k], (3, 4) if ck.quick else (1, 2, 3, 4), 60 if ck.quick else 600, not ck.quick))
            names.append('clusters %d.. style %d' % (i, st))
    return tasks, names


# ---------------------------------------------------------------- C09

def c09_report(out, prop, style, t, what):
    return chars.report(out, prop, style, t, what)


def c09_task(prop, style, firsts, lens, limit):
    """first characters, each followed by one arbitrary character: which pairs become one glyph"""
    out = new()
    end = time.time() + limit
    for c in firsts:
        S.reset()
        alone, cur = chars.expected(style, c)
        for L in lens:
            S.reset()
            x = X('X', L)
            try:
                R = chars.explore([c, x], style, end, stop_fork=True)
            except (ex.Unsupported, ex.Budget) as e:
                out['errors'].append('%s + %s: %s' % (ascii(c), x, e))
                continue
            note(out, R)
            n = 0
            for k, st, info in R.outs:
                core.add_stats(out['stats'], dict(obligations=1))
                if k == 'fork' and chars.cells_are(st, alone):
                    core.add_stats(out['stats'], dict(folded=1))
                    n += 1
                    continue
                if k == 'conc':
                    v = info['X']
                    if not x.lo <= v <= x.hi or 0xd800 <= v < 0xe000 or not chars.holds(st, info) or \
                            (chars.cells_are(st, alone) and st.objs['fb'].d):
                        core.add_stats(out['stats'], dict(folded=1))
                        continue
                    t = c + chr(v)
                else:
                    r, v = chars.witness(st, x, out)
                    if r == 'unsat':
                        core.add_stats(out['stats'], dict(z3=1))
                        continue
                    if r != 'sat':
                        out['errors'].append('%s + %s: %s path undecided' % (ascii(c), x, k))
                        continue
                    t = c + chr(v)
                if chars.traced(style, t)[1] is None:
                    core.add_stats(out['stats'], dict(folded=1))
                    continue
                if chars.report(out, prop, style, t, 'characters that form no listed cluster'):
                    if not getattr(chars, 'collect', None):
                        return out
    out['samples'].append('style %d: %s followed by any character' % (style, ', '.join(ascii(t) for t in firsts[:6])))
    return out


def cases(pr, conds, x):
    """satisfiability of conds by case split over the values of the (7-bit) character x: normalisation closes most cases"""
    conds = list(conds)[::-1]
    unknown = False
    for v in range(x.lo, x.hi + 1):
        memo = {}
        left = []
        for c in conds:
            c = S.subst(c, {x.name: v}, memo)
            if type(c) is int:
                if not c:
                    break
                continue
            left.append(c)
        else:
            r, env = pr.check(left) if left else ('sat', {})
            if r == 'sat':
                return r, dict(env, **{x.name: v})
            unknown |= r != 'unsat'
    return ('unknown' if unknown else 'unsat'), None


def c09_ascii(prop, style, firsts, limit, n=2):
    """an ASCII character followed by n arbitrary ASCII characters"""
    out = new()
    end = time.time() + limit
    pr = ex.Solver(30000, oneshot=True)
    for c in firsts:
        S.reset()
        xs = [X('X%d' % i, 1) for i in range(n)]
        alone, cur = chars.expected(style, c)
        try:
            R = chars.explore([c] + xs, style, end, stop_fork=True, stop=False)
        except (ex.Unsupported, ex.Budget) as e:
            out['errors'].append('%s + %d ASCII characters: %s' % (ascii(c), n, e))
            continue
        note(out, R)
        for k, st, info in R.outs:
            core.add_stats(out['stats'], dict(obligations=1))
            if time.time() > end + 30:
                out['errors'].append('%s + %d ASCII characters: out of time' % (ascii(c), n))
                break
            if k in ('fork', 'conc') and chars.cells_are(st, alone) and (st.objs['fb'].d or c == '\n'):
                core.add_stats(out['stats'], dict(folded=1))
                continue
            q = pr.queries
            r, env = cases(pr, st.conds(), xs[0])
            if r == 'unsat':
                core.add_stats(out['stats'], {'z3' if pr.queries > q else 'folded': 1})
                continue
            if r != 'sat':
                out['errors'].append('%s + %d ASCII characters: %s path undecided' % (ascii(c), n, k))
                continue
            t = c + ''.join(chr(env.get(x.name, 0x20)) for x in xs)
            if chars.traced(style, t)[1] is None:
                core.add_stats(out['stats'], dict(folded=1))
                continue
            if chars.report(out, prop, style, t, 'ASCII text'):
                return out
    core.add_stats(out['stats'], dict(queries=pr.queries, solver_s=pr.time))
    out['samples'].append('style %d: %s followed by any %d ASCII characters' % (style, ', '.join(ascii(t) for t in firsts[:6]), n))
    return out


# ---------------------------------------------------------------- C01: texts that may panic

def c01_task(prop, style, parts, stop, limit):
    """no panic while a text with symbolic characters is painted (at a fixed place)"""
    out = new()
    S.reset()
    pr = ex.Solver(20000, oneshot=True)
    xs = [p for p in parts if type(p) is X]
    name = ' '.join(p if type(p) is str and p.isascii() else ascii(p) if type(p) is str else repr(p) for p in parts)
    try:
        R = chars.explore(parts, style, time.time() + limit, stop=stop)
    except (ex.Unsupported, ex.Budget) as e:
        out['errors'].append('%s: %s %s' % (name, type(e).__name__, e))
        return out
    note(out, R)
    for k, st, info in R.outs:
        core.add_stats(out['stats'], dict(obligations=1))
        if k in ('ret', 'conc'):
            core.add_stats(out['stats'], dict(folded=1))
            continue
        r, env = pr.check(st.conds())
        if r == 'unsat':
            core.add_stats(out['stats'], dict(z3=1))
            continue
        if r != 'sat':
            out['errors'].append('%s: %s path undecided' % (name, k))
            continue
        t = ''.join(p if type(p) is str else chr(env.get(p.name, p.lo)) for p in parts)
        d = None
        for prof in ('checked', 'release'):
            n, g, c = native.paint(paint.rnd_fb(1), chars.CLIP, chars.CUR, style, t, prof)
            core.add_stats(out['stats'], dict(witnesses=1))
            if n != 'ok':
                d = d or '%s build: %s' % (prof, n)
        if d:
            out['violations'].append(('painting %s in style %d: %s' % (ascii(t), style, d),
                                      dict(text=t, style=style, clip=chars.CLIP, cursor=chars.CUR, fb='seed 1')))
            return out
        out['errors'].append('%s: %s for %s does not reproduce natively' % (name, k, ascii(t)))
    core.add_stats(out['stats'], dict(queries=pr.queries, solver_s=pr.time))
    out['samples'].append('style %d: %s' % (style, name))
    return out


def c01_plan(ck):
    tasks, names = [], []

    def add(s, parts, stop):
        tasks.append(('c01', 'C01', s, parts, stop, 100 if ck.quick else 900))
        names.append('symbolic text %s style %d' % (' '.join(map(ascii, parts)), s))
    big = [X('X', 4, 0x10000, 0x1efff), X('X', 4, 0x20000, 0x10ffff)]
    for s in STYLES:
        for L in (1, 2, 3, 4):
            for a, b in (('', ''), ('a', 'b'), ('', '\u56e1')) if not ck.quick or s == ck.seed % 3 else (('', ''), ('W', '\U0001f600')):
                add(s, [a, X('X', L), b], L > 2)
        if ck.quick and s != (ck.seed + 1) % 3:
            continue
        for x in [X('X', 1), X('X', 2)] + ([X('X', 3, 0x800, 0x1fff), X('X', 3, 0xe000, 0xffff)] if ck.quick else [X('X', 3)]) + big:
            for L in (1, 2, 3, 4):
                add(s, [x, X('Y', L)], True)
        for x in (X('X', 2, 0x400), X('X', 3, 0xe000, 0xfffc), big[1]):
            for y in (X('Y', 2, 0x400), X('Y', 3, 0xe000, 0xfffc), X('Y', 4, 0x20000, 0x10ffff)):
                for L in (1, 4) if ck.quick else (1, 2, 3, 4):
                    add(s, [x, y, X('Z', L)], True)
    rnd = random.Random(ck.seed)
    for n, k in (('emoji', 8), ('hanzi', 4), ('regular', 8)):
        fs = firsts(n)
        for i, c in enumerate(rnd.sample(fs, min(k, len(fs))) if ck.quick else fs):
            for L in (1, 2, 3, 4):
                add(i % 3, [c, X('X', L)], True)
    return tasks, names


def firsts(name):
    return sorted({c[0] for c in oracle.fonts()[name].glyph})


def c09_plan(ck):
    tasks, names, late, lnames = [], [], [], []
    # text that starts with an emoji is style independent (C10): one style
    em = firsts('emoji')
    hz = firsts('hanzi')
    st = ck.seed % 3
    if ck.quick:
        em = every_block(em, 5)
        hz = every_block(hz, 8)
    emx = [c for c in em if ord(c) > 127]
    lim = 100 if ck.quick else 900
    asc = [chr(i) for i in range(128)]
    for s in STYLES:
        la = sorted(set(firsts(oracle.STYLES[s])) | set(asc))
        # without pixels the exploration does not stop after the first glyph: on their own
        for c in [c for c in la if not any(chars.expected(s, c)[0])]:
            la.remove(c)
            for L in (1, 2, 3, 4) if not ck.quick or c != '\n' else (1, 2) if s == st else (1,):
                tasks.append(('c09', 'C09', s, [c], (L,), lim))
                names.append('blank %s style %d' % (ascii(c), s))
        for i in range(0, len(la), 20):
            tasks.append(('c09', 'C09', s, la[i:i + 20], (1, 2, 3, 4), lim))
            names.append('Latin %s.. style %d' % (ascii(la[i]), s))
        for n in (2, 11) if ck.quick else (2, 3, 4, 5, 6, 7, 11, 31, 63):
            for i in range(0, 128, 16):
                late.append(('c09a', 'C09', s, [c for c in asc[i:i + 16] if c != '\n'], lim, n))
                lnames.append('ASCII %s.. and %d more, style %d' % (ascii(asc[i]), n, s))
    for i in range(0, len(emx), 5):
        tasks.append(('c09', 'C09', st, emx[i:i + 5], (3, 4), lim))
        names.append('emoji from U+%04X' % ord(emx[i]))
    for i in range(0, len(hz), 40):
        tasks.append(('c09', 'C09', st, hz[i:i + 40], (3, 4), lim))
        names.append('hanzi from U+%04X' % ord(hz[i]))
    return tasks + late, names + lnames


def every_block(cs, n):
    """a spread of n characters of every run of 256 codepoints"""
    by = {}
    for c in cs:
        by.setdefault(ord(c) >> 8, []).append(c)
    out = []
    for k in sorted(by):
        v = by[k]
        m = n if len(v) > n else len(v)
        out += [v[(i * len(v)) // m] for i in range(m)]
    return out


# ---------------------------------------------------------------- driver

def dispatch(kind, *a):
    if kind == 'explore':
        return c07_task(*a)
    if kind == 'explore7':
        out = new()
        trace_all(out, 'C07', 1, ['\n'], 'newline')
        return out
    if kind == 'trace':
        return c07_trace(*a)
    if kind == 'c06':
        return c06_task(*a)
    if kind == 'c06t':
        return c06_trace(*a)
    if kind == 'c01':
        return c01_task(*a)
    if kind == 'c09':
        return c09_task(*a)
    if kind == 'c09a':
        return c09_ascii(*a)
    if kind == 'c08t':
        return c08_trace(*a)
    if kind == 'c08':
        return c08_task(*a)
    raise KeyError(kind)


def main(prop):
    ck = core.Check(prop, 110, 3000)
    oracle.fonts()
    build.module()
    for p in ('checked', 'release'):
        native._lib(p)
    for st in STYLES:
        for t in ('a\n', '\u56e1', '\U0001f600', '\U000e1000'):
            try:
                paint.trace(t, st)
            except ex.Unsupported:
                pass
    tasks, names = {'C06': c06_plan, 'C07': c07_plan, 'C08': c08_plan, 'C09': c09_plan}[prop](ck)
    if prop in ('C06', 'C09'):
        checks_long.extend(prop, ck)
    ck.tasks(dispatch, tasks, names, 240 if ck.quick else 1200, recycle=12)
    ck.assumptions = ['painted at a fixed position with room for the whole text (C01-C05 cover every position for every glyph)',
                      'the oracle is the font sources under codegen/: sprite sheets, index and alias files',
                      'LLVM IR of the library (opt-level 2, overflow checks on); code generation below IR is trusted']
    BOUNDS = {
        'C07': 'all Unicode scalar values, one symbolic codepoint per UTF-8 length and style; the glyph of every pinned character compared in every style',
        'C06': 'one symbolic character (quick: outside the hanzi blocks) in %d contexts of neighbouring text; symbolic joiners, selectors, marks and tags after every kind of cluster; fixed ones after every cluster' % len(CONTEXTS),
        'C08': 'every multi-codepoint cluster in every style alone; then (quick: the Latin ones in all styles, a third of the emoji ones in one) followed by an arbitrary supported character (glyph choice; quick: an eighth of them), and followed by an arbitrary unsupported one (consumption)',
        'C09': 'every first character (quick: every Latin and ASCII one, a spread of the others over all blocks) followed by one arbitrary character; every ASCII character followed by 2 and by 11 (thorough: 2..63) arbitrary ASCII characters, up to its first glyph',
    }
    ck.known = [k for k in chars.still_known(prop)] + [k for k in ck.known if k not in set(chars.still_known(prop))]
    ck.coverage['bounds'] = BOUNDS[prop] + (checks_long.BOUNDS if prop in ('C06', 'C09') else '')
    ck.finish()
