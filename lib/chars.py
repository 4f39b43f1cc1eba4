"""Texts with symbolic characters, painted at a fixed roomy position: which characters reach a
font table entry (the hash comparison inverts to a codepoint), and what is painted otherwise."""
import os
import re
import time

import build
import core
import ex
import native
import oracle
import paint
import sym as S

T = S.T
WIDTHS = {1: 7, 2: 11, 3: 16, 4: 21}
RANGE = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}
CLIP = (0, 0, 336, 536)
CUR = (6, 6, 0)


def utf8_terms(cp, L):
    w = WIDTHS[L]
    if L == 1:
        return [S.zext(cp, 7, 8)]
    n = 6 * (L - 1)
    hv, hn = {2: (0b110, 3), 3: (0b1110, 4), 4: (0b11110, 5)}[L]
    out = [S.mk_cat(((None, hv, hn), (cp, n, w - n)))]
    for i in range(L - 1):
        out.append(S.mk_cat(((None, 2, 2), (cp, 6 * (L - 2 - i), 6))))
    return out


class X:
    """a symbolic character: UTF-8 length L, codepoint in [lo, hi]"""

    def __init__(self, name, L, lo=None, hi=None):
        a, b = RANGE[L]
        self.name = name
        self.L = L
        self.lo = a if lo is None else max(a, lo)
        self.hi = b if hi is None else min(b, hi)

    def __repr__(self):
        return '<U+%04X..U+%04X>' % (self.lo, self.hi)

    def values(self):
        return [c for c in range(self.lo, self.hi + 1) if not 0xd800 <= c < 0xe000]


def symbolic(name, lo, hi):
    """X's covering [lo, hi]"""
    return [X(name, L, max(lo, a), min(hi, b)) for L, (a, b) in RANGE.items() if max(lo, a) <= min(hi, b)]


class Result:
    pass


def explore(parts, style, deadline=None, stop_store=False, stop=True, max_steps=10 ** 7, stop_fork=False, split=False):
    """parts: strings and X's.  Outcomes: 'conc' (a symbolic character was pinned by a table
    lookup), 'ret', 'store' (stop_store), ..."""
    e = ex.Engine(build.module())
    e.max_steps = max_steps
    e.deadline = deadline
    e.lazy = lambda c: True
    xs = [p for p in parts if type(p) is X]
    parts = [p for p in parts if p != '']
    e.stop_vars = frozenset(x.name for x in xs) if stop else frozenset()
    e.stop_store = stop_store
    e.stop_fork = stop_fork
    bs = []
    cs = []
    env = {}
    for p in parts:
        if type(p) is X and p.lo == p.hi:
            bs += list(chr(p.lo).encode())
        elif type(p) is X:
            if p.name not in env:
                env[p.name] = S.var(p.name, WIDTHS[p.L], p.lo, p.hi)
                if p.lo < 0xe000 and p.hi >= 0xd800:
                    cs.append(S.bor(S.ult(env[p.name], 0xd800, 16), S.not_(S.ult(env[p.name], 0xe000, 16))))
            bs += utf8_terms(env[p.name], p.L)
        else:
            bs += list(p.encode())
    if split:
        return calls(e, [list(p.encode()) if type(p) is str else utf8_terms(env[p.name], p.L) for p in parts], cs, style, xs, parts)
    st, n = paint.text_state('x' * len(bs), paint.ROOMY, 'cells', lambda i: 0)
    st.objs['txt'].d = {i: (1, b) for i, b in enumerate(bs)}
    for c in cs:
        e.add_cond(st, c)
    R = Result()
    R.engine = e
    R.parts = parts
    R.xs = xs
    R.outs = paint.call(e, st, style, n)
    return R


def calls(e, texts, cs, style, xs, parts):
    """each text in a call of its own, one after the other"""
    st, n = paint.text_state('', paint.ROOMY, 'cells', lambda i: 0)
    for c in cs:
        e.add_cond(st, c)
    R = Result()
    R.engine, R.parts, R.xs, R.outs = e, parts, xs, []
    states = [st]
    for i, bs in enumerate(texts):
        nxt = []
        for st in states:
            st = st.fork()
            st.frames = []
            c = ex.Cells(len(bs))
            c.d = {j: (1, b) for j, b in enumerate(bs)}
            st.objs['txt'] = c
            nxt += paint.call(e, st, style, len(bs))
        if i == len(texts) - 1:
            R.outs += nxt
            break
        R.outs += [o for o in nxt if o[0] != 'ret']
        states = [o[1] for o in nxt if o[0] == 'ret']
    return R


def pinned(st, x):
    """candidate values of x when the path fixes all but a few bits of an invertible function of
    it (a hash compared in part): the free bits are enumerated and the function inverted, so that
    no value outside the list takes the path.  None when no such fact is found."""
    facts = [(t, iv) for t, iv in st.facts.items() if t.op in ('cat', 'xor', 'sum', 'v') and x.name in S.term_vars(t)]
    cands = []
    for t, iv in facts:
        n = sum(b - a + 1 for a, b in iv)
        if t.op == 'cat':
            vs = [p for p in t.a if p[0] is not None]
            if len(vs) != 1 or any(p[0] is None and p is not t.a[0] and p is not t.a[-1] for p in t.a):
                continue
            h, l, k = vs[0]
            sh = t.a[0][2] if t.a[0][0] is None else 0
            n <<= h.w - k
            cands.append((n, h, l, k, sh, iv, (t, iv, x.name)))
        elif t.op != 'v':
            cands.append((n, t, 0, t.w, 0, iv, (t, iv, x.name)))
    cands = [c for c in cands if c[0] <= 65536]
    cands.sort(key=lambda c: (c[6] not in _pinned, c[0]))
    for _, h, l, k, sh, iv, key in cands:
        if key not in _pinned:
            if len(_pinned) > 200:
                _pinned.clear()
            _pinned[key] = invert(h, l, k, sh, iv, x)
        if _pinned[key] is not None:
            return _pinned[key]
    return None


def invert(h, l, k, sh, iv, x):
    out = []
    for a, b in iv:
        for v in range(a, b + 1):
            y = (v >> sh) & ((1 << k) - 1)
            for f in range(1 << (h.w - k)):
                z = (f & ((1 << l) - 1)) | y << l | f >> l << (l + k)
                e = S.eq(h, z, h.w)
                if type(e) is int:
                    if e:
                        return None
                    continue
                if e.op == 'eq' and type(e.a[1]) is int and e.a[0].op == 'v' and e.a[0].a[0] == x.name:
                    out.append(e.a[1])
                else:
                    return None
    return out


_pinned = {}


def witness(st, x, out, timeout=20000):
    """('sat', value) | ('unsat', None) | ('unknown', None): a character that takes the path"""
    c = pinned(st, x)
    if c is not None:
        core.add_stats(out['stats'], dict(inversions=1))
        for v in c:
            if x.lo <= v <= x.hi and holds(st, {x.name: v}):
                return 'sat', v
        return 'unsat', None
    s = ex.Solver(timeout, oneshot=True)
    r, env = s.check(st.conds())
    core.add_stats(out['stats'], dict(queries=s.queries, solver_s=s.time))
    return r, env.get(x.name, x.lo) if env else None


def text_of(parts, env):
    return ''.join(chr(env[p.name]) if type(p) is X else p for p in parts)


def holds(st, env):
    memo = {}
    for c in st.conds():
        if not S.evalt(c, env, memo):
            return False
    return True


def leaves(R, before_store=None):
    """codepoint values pinned on some feasible path (single symbolic character)"""
    out = {}
    for k, st, info in R.outs:
        if k == 'conc':
            x = R.xs[0]
            v = info[x.name]
            if x.lo <= v <= x.hi and not 0xd800 <= v < 0xe000 and holds(st, info):
                out.setdefault(v, st)
    return out


def cells_are(st, fb):
    """frame buffer of a concrete-cell state equals the reference picture (initially zero)"""
    d = st.objs['fb'].d
    want = {i: x for i, x in enumerate(fb) if x}
    got = {}
    for i, x in d.items():
        if type(x) is not int:
            return False
        if x:
            got[i] = x
    return got == want


_blank = [0] * 5896


def expected(style, text):
    return oracle.model_paint(_blank, CLIP, CUR, style, text)


def traced(style, text, st=None):
    """concrete run of the encoding against the reference: None or what is wrong"""
    exp, cur = expected(style, text)
    e, outs = paint.trace(text, style)
    if len(outs) != 1 or outs[0][0] != 'ret':
        return e, outs[0][0]
    s = outs[0][1]
    if not cells_are(s, exp):
        return e, 'pixels'
    if cur is not None and tuple(s.objs['cur'].d[8 * i][1] for i in range(3)) != tuple(cur):
        return e, 'cursor'
    return e, None


def native_diff(style, text, n=1):
    """natively painted text against the reference: None or a description"""
    fb = paint.rnd_fb(n)
    exp, cur = oracle.model_paint(fb, CLIP, CUR, style, text)
    for prof in ('checked', 'release'):
        k, g, c = native.paint(fb, CLIP, CUR, style, text, prof)
        if k != 'ok':
            return '%s build: %s' % (prof, k)
        if g != exp:
            return '%s build: %s' % (prof, paint.first_diff(exp, g))
        if cur is not None and tuple(c) != tuple(cur):
            return '%s build: cursor %s, expected %s' % (prof, c, cur)
    return None


class Known:
    """findings listed in known-findings.txt: sequences drawn as another cluster's glyph"""

    def __init__(self, seqs):
        self.seqs = seqs

    def __enter__(self):
        F = oracle.fonts()
        self.add = []
        for f, s, g in self.seqs:
            for n in ('small', 'regular', 'bold') if f == 'latin' else (f,):
                if s not in F[n].glyph and g in F[n].glyph:
                    F[n].glyph[s] = F[n].glyph[g]
                    self.add.append((n, s))
                    F[n]._ml = None

    def __exit__(self, *a):
        F = oracle.fonts()
        for n, s in self.add:
            del F[n].glyph[s]
            F[n]._ml = None


_known = None


def known_list(prop):
    """[(font, sequence, drawn as)] of the property's known findings, in file order"""
    global _known
    if _known is None:
        _known = []
        with open(os.path.join(core.VERIF, 'known-findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) font=(\S+) text=(\S+) draws=(\S+)', line)
                if m:
                    _known.append((m.group(1), m.group(2), unhex(m.group(3)), unhex(m.group(4))))
    return [k[1:] for k in _known if k[0] == prop]


def unhex(s):
    return ''.join(chr(int(x[2:], 16)) for x in s.split(','))


def hexs(s):
    return ','.join('U+%04X' % ord(c) for c in s)


def known_line(k):
    return 'the characters %s are drawn as the glyph of %s' % (hexs(k[1]), hexs(k[2]))


def still_known(prop):
    """the listed findings that (still) fail natively"""
    out = []
    for k in known_list(prop):
        st = 1
        fb = paint.rnd_fb(1)
        exp, cur = oracle.model_paint(fb, CLIP, CUR, st, k[1])
        r, g, c = native.paint(fb, CLIP, CUR, st, k[1], 'release')
        if r == 'ok' and g != exp:
            out.append(known_line(k))
    return out


def report(out, prop, style, text, what):
    """a suspicious text: replay natively; True when it is a violation"""
    d = native_diff(style, text)
    core.add_stats(out['stats'], dict(witnesses=1))
    if d:
        ks = [k for k in known_list(prop) if k[1] in text]
        if ks:
            with Known(ks):
                if native_diff(style, text) is None:
                    for k in ks:
                        if known_line(k) not in out['known']:
                            out['known'].append(known_line(k))
                    return False
        out['violations'].append(('%s: painting %s in style %d: %s' % (what, ascii(text), style, d),
                                  dict(text=text, style=style, clip=CLIP, cursor=CUR, fb='seed 1')))
        return True
    out['errors'].append('%s: %s in style %d does not reproduce natively' % (what, ascii(text), style))
    return False
