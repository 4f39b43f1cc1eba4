"""C20 (packing), C21 (trimming), C22 (hashes), C23 (index), C26 (cells of the sprite sheet): the
font generator's Go code, executed symbolically from its SSA form."""
import itertools
import random
import time

import build
import chars
import core
import ex
import gobuild
import goex
import native
import paint
import sym as S
from goex import Fn, Foreign, Iface, Str

T = S.T
LIB = 'blitstr/codegen/lib.'
M32 = 0xffffffff


# ------------------------------------------------------------------ running the generator

def find(name):
    return name if name in gobuild.program().fns else None


def fontspec(p, name, size, cols, gutter, border, trim):
    t = p.types[p.byname[LIB + 'FontSpec']]
    v = dict(Name=name.encode(), Size=size, Cols=cols, Gutter=gutter, Border=border, GlyphTrim=trim.encode())
    return tuple(v.get(n, p.zero(f)) for n, f in zip(t['fn'], t['f']))


def charspec(p, row, col):
    t = p.types[p.byname[LIB + 'CharSpec']]
    v = dict(Hex=b'41', Row=row, Col=col)
    return tuple(v.get(n, p.zero(f)) for n, f in zip(t['fn'], t['f']))


def image(w, h, pixel):
    """a Go image.Image: pixel(x, y) is a 1-bit term, 1 for dark"""
    def at(m, a):
        x, y = a
        if not (x < w and y < h):
            d = 0                       # outside: the zero colour
            return Foreign({'RGBA': lambda m, a: (0, 0, 0, 0)})
        d = pixel(x, y)
        v = S.ite(d, 0, 0xffff, 32)
        return Foreign({'RGBA': lambda m, a: (v, v, v, 0xffff)})
    return Foreign({'At': at, 'Bounds': lambda m, a: ((0, 0), (w, h))})


class Font:
    """a generator configuration and the sheet of one run"""

    def __init__(self, name, size, trim, gutter=0, row=1, col=1, rows=3, cols=3, border=None):
        self.name = name
        self.size = size
        self.trim = trim
        self.gutter = gutter
        self.border = gutter if border is None else border
        self.row = row
        self.col = col
        self.rows = rows
        self.cols = cols
        self.grid = size + gutter
        self.w = self.border + cols * self.grid
        self.h = self.border + rows * self.grid
        self.x0 = self.border + col * self.grid
        self.y0 = self.border + row * self.grid

    def limits(self):
        """reference trim limits (top, right, bottom, left)"""
        n = self.size
        if self.name in ('Bold', 'Regular', 'Small'):
            if self.col == 2 and self.row == 0:
                return n // 2 - 1, n // 2 - 2, n // 2 - 1, n // 2 - 2
        elif self.trim == 'CJK':
            return 0, 0, 0, 0
        return n, n, n, n

    def args(self, p, pixel):
        return [image(self.w, self.h, pixel), fontspec(p, self.name, self.size, self.cols, self.gutter, self.border, self.trim),
                charspec(p, self.row, self.col), 0]

    def request(self, bits):
        """bits(x, y) of the sheet -> driver request"""
        return dict(Op='blit', Pix=[[bits(x, y) for x in range(self.w)] for y in range(self.h)], Size=self.size, Gutter=self.gutter,
                    Border=self.border, Cols=self.cols, Name=self.name, Trim=self.trim, Row=self.row, Col=self.col)

    def __repr__(self):
        return '%s/%s %dpx cell (%d,%d) gutter %d%s' % (self.name, self.trim, self.size, self.row, self.col, self.gutter,
                                                        ' border %d' % self.border if self.border != self.gutter else '')


def pattern(f, pixel, max_paths=20000, deadline=None):
    """outcomes of NewBlitPattern on the font's cell: (kind, words, path condition)"""
    p = gobuild.program()
    e = goex.Explorer(p, max_paths=max_paths, deadline=deadline)

    def body(m):
        r = m.call(Fn(LIB + 'NewBlitPattern'), f.args(p, pixel))
        t = p.types[p.byname[LIB + 'BlitPattern']]
        return m.items(r[t['fn'].index('Words')])
    outs = [(k, r, list(m.pc)) for k, r, m in e.explore(body)]
    return e, outs


def packed(px, w, h, x0, y0, yo, hdr=True):
    """the reference packing of the w x h rectangle at (x0, y0) of px"""
    n = w * h
    bits = [px[y0 + k // w][x0 + w - 1 - k % w] for k in range(n)]
    words = [(w << 16) | (h << 8) | yo] if hdr else []
    for i in range(0, n, 32):
        ch = bits[i:i + 32]
        ch += [0] * (32 - len(ch))
        if all(type(b) is int for b in ch):
            v = 0
            for b in ch:
                v = v << 1 | b
            words.append(v)
        else:
            words.append(S.mk_cat(tuple((None, b, 1) if type(b) is int else (b, 0, 1) for b in ch)))
    return words


def same_words(a, b):
    if len(a) != len(b):
        return 0
    return S.band(*[S.eq(x, y, 32) for x, y in zip(a, b)])


def decode(words, w, h):
    return [[(words[1 + (y * w + w - 1 - x) // 32] >> (31 - (y * w + w - 1 - x) % 32)) & 1 for x in range(w)] for y in range(h)]


def none(px, xs, ys):
    """no dark pixel in the rectangle xs x ys"""
    return S.not_(S.bor(*[px[y][x] for y in ys for x in xs])) if len(xs) and len(ys) else 1


# ------------------------------------------------------------------ C20

def out_stats(out, e, pr):
    core.add_stats(out['stats'], e.stats())
    core.add_stats(out['stats'], pr.stats())


def fresh():
    S.reset()
    return core.Prover(20000), dict(stats={}, violations=[], errors=[], samples=[])


def pack_task(w0, hs):
    """convertToPattern on w x h matrices, every pixel and the offset symbolic"""
    pr, out = fresh()
    p = gobuild.program()
    name = '(%sMatrix).convertToPattern' % LIB
    for w, h in [(w0, h) for h in hs]:
        S.reset()
        px = [[S.var('p%d_%d' % (y, x), 1) for x in range(w)] for y in range(h)]
        yo = S.var('yo', 32, 0, 31)
        e = goex.Explorer(p)

        def body(m):
            mt = m.mkslice([m.mkslice([S.zext(v, 1, 64) for v in r]) for r in px])
            return m.items(m.call(Fn(name), [mt, yo]))
        want = packed(px, w, h, 0, 0, 0)
        want[0] = S.or_((w << 16) | (h << 8), yo, 32)
        for k, r, m in e.explore(body):
            g = same_words(r, want) if k == 'ret' else 0
            v = pr.prove(m.pc, g)
            if v is None:
                out['errors'].append('%dx%d undecided' % (w, h))
            elif v is not True:
                rep = replay_pack(px, v, w, h)
                if rep:
                    out['violations'].append(rep)
                else:
                    out['errors'].append('%dx%d: counterexample did not reproduce (%s)' % (w, h, k))
                return done(out, e, pr)
        core.add_stats(out['stats'], e.stats())
    core.add_stats(out['stats'], pr.stats())
    return out


def done(out, e, pr):
    out_stats(out, e, pr)
    return out


def cell_bits(f, px):
    def bits(x, y):
        x -= f.x0
        y -= f.y0
        return px[y][x] if 0 <= x < f.size and 0 <= y < f.size else 0
    return bits


def replay_pack(px, env, w, h):
    """place the matrix in a cell whose trimming gives it back, and run the real generator"""
    n = max(w, h)
    vals = [[S.evalt(px[y][x], env, {}) for x in range(w)] for y in range(h)]
    tries = [(Font('Hanzi', n, 'CJK'), None)] if w == h else []
    for f in ([Font('Hanzi', n, 'CJK')] if w == h else []) + [Font('Bold', n, 'proportional'), Font('Emoji', n, 'proportional')]:
        for corner in (False, True):
            v = [r[:] for r in vals]
            if corner:
                v[0][0] = v[h - 1][w - 1] = 1
            cell = [r + [0] * (n - w) for r in v] + [[0] * n for _ in range(n - h)]
            bad = wrong(f, cell)
            if bad:
                return bad
    return None


def ok_words(f, cell, words):
    """does a concrete answer satisfy C20 and C21 for this cell; None or what fails"""
    n = f.size
    T_, R_, B_, L_ = f.limits()
    w, h, yo = words[0] >> 16, words[0] >> 8 & 255, words[0] & 255
    dark = [(x, y) for y in range(n) for x in range(n) if cell[y][x]]
    if not dark:
        return 'dark pixels from a blank cell' if any(words[1:]) else \
            'a blank cell is trimmed to %dx%d at %d' % (w, h, yo) if w < n - L_ - R_ or h < n - T_ - B_ or yo > T_ else None
    if len(words) != 1 + (w * h + 31) // 32:
        return '%d words for %dx%d pixels' % (len(words), w, h)
    if w * h % 32 and words[-1] & ((1 << (32 - w * h % 32)) - 1):
        return 'padding bits are not zero'
    if w == 0 or h == 0:
        return 'empty glyph from a cell with dark pixels'
    got = decode(words, w, h)
    why = None
    for L in range(0, n - w + 1):
        kept = {(x, y) for x in range(L, L + w) for y in range(yo, yo + h)}
        if yo + h > n:
            continue
        if any(d not in kept for d in dark) or any(got[y][x] != cell[yo + y][L + x] for y in range(h) for x in range(w)):
            why = why or 'pixels are lost or moved'
            continue
        if L > L_ or n - L - w > R_ or yo > T_ or n - yo - h > B_:
            why = 'trimmed more than the limit'
            continue
        if (L < L_ and not any(got[y][0] for y in range(h))) or (n - L - w < R_ and not any(got[y][w - 1] for y in range(h))) \
                or (yo < T_ and not any(got[0])) or (n - yo - h < B_ and not any(got[h - 1])):
            why = 'a blank border is kept'
            continue
        return None
    return why or 'the offset does not fit the cell'


def wrong(f, cell, around=None):
    bits = cell_bits(f, cell)
    if around:
        bits0 = bits
        bits = lambda x, y: bits0(x, y) if f.x0 <= x < f.x0 + f.size and f.y0 <= y < f.y0 + f.size else around(x, y)
    r = gobuild.native([f.request(bits)])[0]
    if 'words' not in r:
        why = 'panic: %s' % r.get('panic', r)
    else:
        why = ok_words(f, cell, r['words'])
    if why:
        pic = '/'.join(''.join('#' if c else '.' for c in row) for row in cell)
        return ('%s: glyph %s gives %s: %s' % (f, pic, [hex(x) for x in r.get('words', [])], why),
                dict(font=str(f), cell=pic, answer=r))
    return None


def good(f, px, words):
    """C20 and C21 for a symbolic answer, as one 1-bit term over the cell's pixels"""
    n = f.size
    TL, RL, BL, LL = f.limits()
    hdr = words[0]
    cases = []
    rows, cols = range(n), range(n)
    blank = none(px, cols, rows)
    if type(hdr) is int:
        whs = [(hdr >> 16, hdr >> 8 & 255, hdr & 255)]
    else:
        whs = [(w, h, yo) for w in range(n + 1) for h in range(n + 1) for yo in range(n - h + 1)
               if len(words) in (1 + (w * h + 31) // 32, 2)]
    for w, h, yo in whs:
        he = S.eq(hdr, (w << 16) | (h << 8) | yo, 32)
        if w >= n - LL - RL and h >= n - TL - BL and yo <= TL:
            cases.append(S.band(he, blank, *[S.eq(x, 0, 32) for x in words[1:]]))
        if not (w and h) or yo + h > n or len(words) != 1 + (w * h + 31) // 32:
            continue
        if yo > TL or n - yo - h > BL:
            continue
        for L in range(n - w + 1):
            if L > LL or n - L - w > RL:
                continue
            ks = list(range(L, L + w))
            kr = list(range(yo, yo + h))
            c = [he, none(px, cols, [y for y in rows if y not in kr]), none(px, [x for x in cols if x not in ks], rows),
                 same_words(words[1:], packed(px, w, h, L, yo, yo, False))]
            if L < LL:
                c.append(S.not_(none(px, [L], kr)))
            if n - L - w < RL:
                c.append(S.not_(none(px, [L + w - 1], kr)))
            if yo < TL:
                c.append(S.not_(none(px, ks, [yo])))
            if n - yo - h < BL:
                c.append(S.not_(none(px, ks, [yo + h - 1])))
            cases.append(S.band(*c))
    return S.bor(*cases) if cases else 0


def glyph_task(f, box=None, seed=0, deadline=None):
    """NewBlitPattern on one cell; box (x0, y0, w, h): the glyph's bounding box (its corner pixels
    dark, everything outside blank), else every pixel of the cell symbolic"""
    pr, out = fresh()
    n = f.size
    if box:
        x0, y0, w, h = box
        flip = seed & 1
        dark = {(x0 + (w - 1) * flip, y0), (x0 + (w - 1) * (1 - flip), y0 + h - 1)}
        px = [[(1 if (x, y) in dark else S.var('p%d_%d' % (y, x), 1)) if x0 <= x < x0 + w and y0 <= y < y0 + h else 0
               for x in range(n)] for y in range(n)]
    else:
        px = [[S.var('p%d_%d' % (y, x), 1) for x in range(n)] for y in range(n)]
    nb = {}

    def pixel(x, y):
        u, v = x - f.x0, y - f.y0
        if 0 <= u < n and 0 <= v < n:
            return px[v][u]
        # neighbouring cells and gutters: unconstrained
        if (x, y) not in nb:
            nb[x, y] = S.var('n%d_%d' % (y, x), 1)
        return nb[x, y]
    e, outs = pattern(f, pixel, deadline=deadline)
    for k, words, pc in outs:
        g = good(f, px, words) if k == 'ret' else 0
        v = pr.prove(pc, g)
        if v is None:
            out['errors'].append('%s undecided' % f)
        elif v is not True:
            cell = [[S.evalt(b, v, {}) for b in r] for r in px]
            rep = wrong(f, cell, lambda x, y: S.evalt(nb[x, y], v, {}) if (x, y) in nb else 0) or wrong(f, cell)
            if rep:
                out['violations'].append(rep)
                break
            out['errors'].append('%s: counterexample did not reproduce (%s)' % (f, k))
            break
    if outs and not out['violations'] and seed % 4 == 0:
        # the encoding predicts what the compiled generator does
        k, words, pc = outs[len(outs) // 2]
        r, env = pr.solver.check(pc)
        if r == 'sat' and k == 'ret':
            memo = {}
            cell = [[S.evalt(b, env, memo) for b in r] for r in px]
            got = gobuild.native([f.request(cell_bits(f, cell))])[0]
            if got.get('words') != [S.evalt(x, env, memo) for x in words]:
                out['errors'].append('%s: encoding and native generator disagree' % f)
            core.add_stats(out['stats'], dict(witnesses=1))
    if outs:
        out['samples'].append(dict(font=str(f), box=box, paths=len(outs)))
    return done(out, e, pr)


def unpack_task(text, style, g, data, deadline):
    """the blitter paints back what the generator packed: the words the generator makes of a w x h
    bitmap are put in place of the glyph's data, and the painted pixels compared with the bitmap"""
    pr, out = fresh()
    w, h, yo, rows = g
    p = gobuild.program()
    scs = [s for s in paint.scenarios(w, h, yo) if s.kind == 'paint' and s.name in ('inside', 'left')]
    sc = scs[0]
    px0 = [S.var('B%d' % r, w) for r in range(h)]
    px = [[S.slice_(v, x, 1, w) if w > 1 else v for x in range(w)] for v in px0]
    e = goex.Explorer(p)
    name = '(%sMatrix).convertToPattern' % LIB

    def body(m):
        mt = m.mkslice([m.mkslice([S.zext(v, 1, 64) for v in r]) for r in px])
        return m.items(m.call(Fn(name), [mt, yo]))
    outs = list(e.explore(body))
    for k, words, m in outs:
        if k != 'ret' or m.pc:
            out['errors'].append('packing of %dx%d is not one path' % (w, h))
            continue
        R = paint.explore(text, style, g, sc, True, deadline, data=data, words=words)
        try:
            paint.check_exact(R, pr)
        except paint.Cex as c:
            out['errors'].append('painting the packed %dx%d bitmap: %s' % (w, h, c.what))
            import checks_paint
            vio = checks_paint.refute('C03', R, c.env, c.what, [text], style, pr)
            out['violations'] += vio
        except paint.Undecided as u:
            out['errors'].append('undecided: %s' % u)
        core.add_stats(out['stats'], core.engine_stats(R.engine))
    return done(out, e, pr)


def shapes_for_unpack(limit):
    """glyphs of the committed fonts whose data can be replaced: (text, style, g, data)"""
    import checks_paint
    import oracle
    out = []
    for (name, sh), cs in sorted(checks_paint.shapes().items()):
        for c in cs:
            st = checks_paint.STYLE_OF.get(name, 1)
            if checks_paint.reachable(name, c, st):
                out.append((c, st, oracle.fonts()[name].glyph[c]))
                break
    return out


# ------------------------------------------------------------------ C26

# the committed configuration: name, size, gutter/border, columns, trimming
CONFIG = [('Emoji', 32, 0, 16, 'proportional'), ('Hanzi', 32, 2, 20, 'CJK'), ('Bold', 30, 2, 16, 'proportional'),
          ('Regular', 30, 2, 16, 'proportional'), ('Small', 24, 2, 16, 'proportional')]


def outside_task(f, where):
    """a row or column outside the sheet is refused"""
    pr, out = fresh()
    for row, col in where:
        f.row, f.col = row, col
        f.x0 = f.y0 = 0
        p = gobuild.program()
        e = goex.Explorer(p)

        def body(m):
            a = f.args(p, lambda x, y: S.var('n%d_%d' % (y, x), 1))
            a[2] = charspec(p, row & S.MASK[64], col & S.MASK[64])
            return m.call(Fn(LIB + 'NewBlitPattern'), a)
        for k, r, m in e.explore(body):
            pr.prove(m.pc, 1)
            if k != 'panic':
                got = gobuild.native([f.request(lambda x, y: 0)])[0]
                if 'panic' not in got:
                    out['violations'].append(('%s: a glyph outside the %dx%d grid is accepted: %s' % (f, f.rows, f.cols, got), dict(font=str(f))))
                else:
                    out['errors'].append('%s: not refused in the encoding' % f)
        core.add_stats(out['stats'], e.stats())
    core.add_stats(out['stats'], pr.stats())
    return out


# ------------------------------------------------------------------ C22

COMBO = {1: 128, 2: 1920, 3: 61440, 4: 1048576}


def hash_task(lens, limits, same_seed=True):
    """one UTF-8 length combination"""
    pr, out = fresh()
    p = gobuild.program()
    seed = S.var('seed', 32)
    vs, bs, rs, cs = [], [], [], []
    for i, L in enumerate(lens):
        lo, hi = chars.RANGE[L]
        v = S.var('c%d' % i, chars.WIDTHS[L], lo, hi)
        vs.append(v)
        if L == 3:
            cs.append(S.bor(S.ult(v, 0xd800, 16), S.not_(S.ult(v, 0xe000, 16))))
        bs += chars.utf8_terms(v, L)
        rs.append((S.zext(v, chars.WIDTHS[L], 32), L))

    def go(k):
        e = goex.Explorer(p)
        r = []
        for kind, v, m in e.explore(lambda m: m.call(Fn(LIB + 'Murmur3'), [Str(rs[:k]) if k else b'', seed])):
            r.append((kind, v, list(m.pc)))
        core.add_stats(out['stats'], e.stats())
        return r

    def rust(limit):
        e = ex.Engine(build.module())
        s = ex.State()
        t = ex.Cells(max(1, len(bs)))
        t.d = {i: (1, b) for i, b in enumerate(bs)}
        s.objs['txt'] = t
        o = ex.Cells(16, True)
        o.d = {0: (8, 0), 8: (8, 0)}
        s.objs['out'] = o
        for c in cs:
            e.add_cond(s, c)
        r = []
        for kind, st, info in e.run('h_hash', [ex.P('txt', 0), len(bs), seed, limit, ex.P('out', 0)], s):
            r.append((kind, st.objs['out'].d[0][1] if kind == 'ret' else None, st.objs['out'].d[8][1] if kind == 'ret' else None,
                      [c for c in st.conds()]))
        core.add_stats(out['stats'], core.engine_stats(e))
        return r

    def concrete(env):
        return [S.evalt(v, env, {}) for v in vs], env.get('seed', 0)

    def check(limit):
        k = min(limit, len(lens)) if type(limit) is int else len(lens)
        nb = sum(lens[:k])
        for gk, gv, gpc in go(k):
            for rk, rv, rn, rpc in rust(limit):
                pc = cs + gpc + rpc
                if gk == 'ret' and rk == 'ret':
                    rv_ = S.trunc(rv, 64, 32) if type(rv) is int or rv.w == 64 else rv
                    goal = S.band(S.eq(gv, rv_, 32), S.eq(rn, nb, 64))
                else:
                    goal = 0
                v = pr.prove(pc, goal)
                if v is None:
                    out['errors'].append('%s limit %s: undecided' % (lens, limit))
                elif v is not True:
                    t, sd = concrete(v)
                    lim = limit if type(limit) is int else v.get('limit', len(lens) + 1)
                    rep = hash_differ(t, sd, lim)
                    if rep:
                        out['violations'].append(rep)
                        return False
                    out['errors'].append('%s limit %s: counterexample did not reproduce' % (lens, limit))
                    return False
        return True
    for l in limits:
        if l == 'big':
            l = S.var('limit', 32, len(lens))
        if not check(l):
            break
    core.add_stats(out['stats'], pr.stats())
    out['samples'].append(dict(lengths=list(lens), limits=[str(l) for l in limits]))
    return out


def hash_differ(t, seed, limit):
    g = gobuild.native([dict(Op='murmur', Strs=[t[:limit], t], Seed=seed)])[0]
    txt = ''.join(map(chr, t))
    n = len(''.join(map(chr, t[:limit])).encode())
    for prof in ('checked', 'release'):
        k, o = native.chash(txt, seed, limit, prof)
        if k != 'ok' or 'hashes' not in g or o[0] != g['hashes'][0] or o[1] != n:
            return ('hash of the first %d codepoints of %s, seed %d: generator %s, library (%s build) %s, prefix of %d bytes' % (
                limit, ascii(txt), seed, g.get('hashes', g), prof, o if k == 'ok' else k, n), dict(text=t, seed=seed, limit=limit))
    return None


# ------------------------------------------------------------------ C23

# Unicode 13 block ranges (https://www.unicode.org/Public/UCD/latest/ucd/Blocks.txt) used by the fonts
BLOCKS = [(0x0000, 0x007F, 'BASIC_LATIN'), (0x0080, 0x00FF, 'LATIN_1_SUPPLEMENT'), (0x0100, 0x017F, 'LATIN_EXTENDED_A'),
          (0x2000, 0x206F, 'GENERAL_PUNCTUATION'), (0x20A0, 0x20CF, 'CURRENCY_SYMBOLS'), (0x2100, 0x214F, 'LETTERLIKE_SYMBOLS'),
          (0x2190, 0x21FF, 'ARROWS'), (0x2300, 0x23FF, 'MISCELLANEOUS_TECHNICAL'), (0x2460, 0x24FF, 'ENCLOSED_ALPHANUMERICS'),
          (0x25A0, 0x25FF, 'GEOMETRIC_SHAPES'), (0x2600, 0x26FF, 'MISCELLANEOUS_SYMBOLS'), (0x2700, 0x27BF, 'DINGBATS'),
          (0x2900, 0x297F, 'SUPPLEMENTAL_ARROWS_B'), (0x2B00, 0x2BFF, 'MISCELLANEOUS_SYMBOLS_AND_ARROWS'),
          (0x3000, 0x303F, 'CJK_SYMBOLS_AND_PUNCTUATION'), (0x3200, 0x32FF, 'ENCLOSED_CJK_LETTERS_AND_MONTHS'),
          (0x3400, 0x4DBF, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_A'), (0x4E00, 0x9FFF, 'CJK_UNIFIED_IDEOGRAPHS'),
          (0xE000, 0xF8FF, 'PRIVATE_USE_AREA'), (0xFF00, 0xFFEF, 'HALFWIDTH_AND_FULLWIDTH_FORMS'), (0xFFF0, 0xFFFF, 'SPECIALS'),
          (0x1F000, 0x1F02F, 'MAHJONG_TILES'), (0x1F0A0, 0x1F0FF, 'PLAYING_CARDS'),
          (0x1F100, 0x1F1FF, 'ENCLOSED_ALPHANUMERIC_SUPPLEMENT'), (0x1F200, 0x1F2FF, 'ENCLOSED_IDEOGRAPHIC_SUPPLEMENT'),
          (0x1F300, 0x1F5FF, 'MISCELLANEOUS_SYMBOLS_AND_PICTOGRAPHS'), (0x1F600, 0x1F64F, 'EMOTICONS'),
          (0x1F680, 0x1F6FF, 'TRANSPORT_AND_MAP_SYMBOLS'), (0x1F780, 0x1F7FF, 'GEOMETRIC_SHAPES_EXTENDED'),
          (0x1F900, 0x1F9FF, 'SUPPLEMENTAL_SYMBOLS_AND_PICTOGRAPHS'), (0x1FA70, 0x1FAFF, 'SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A'),
          (0x20000, 0x2A6DF, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_B'), (0x2A700, 0x2B73F, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_C'),
          (0x2B740, 0x2B81F, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_D'), (0x2B820, 0x2CEAF, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E'),
          (0x2CEB0, 0x2EBEF, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_F'), (0x2F800, 0x2FA1F, 'CJK_COMPATIBILITY_IDEOGRAPHS_SUPPLEMENT'),
          (0x30000, 0x3134F, 'CJK_UNIFIED_IDEOGRAPHS_EXTENSION_G')]


def block_task():
    """Block(c) for every 32-bit c"""
    pr, out = fresh()
    p = gobuild.program()
    c = S.var('c', 32)
    inside = lambda lo, hi: S.band(S.not_(S.ult(c, lo, 32)), S.not_(S.ult(hi, c, 32)))
    e = goex.Explorer(p)
    t = p.types[p.byname[LIB + 'UBlock']]['fn']
    li, hi_, ni = t.index('Low'), t.index('High'), t.index('Name')
    for k, r, m in e.explore(lambda m: m.call(Fn(LIB + 'Block'), [c])):
        if k == 'ret':
            # (a block added to the table is fine as long as it contains the codepoint and overlaps no known one)
            lo, hi, nm = r[li], r[hi_], r[ni]
            known = S.bor(*[S.band(S.eq(lo, a, 32), S.eq(hi, b, 32)) for a, b, n in BLOCKS if nm == n.encode()]) if any(
                nm == n.encode() for _, _, n in BLOCKS) else 0
            apart = S.band(*[S.bor(S.ult(hi, a, 32), S.ult(b, lo, 32)) for a, b, n in BLOCKS])
            goal = S.band(S.not_(S.ult(c, lo, 32)), S.not_(S.ult(hi, c, 32)), S.bor(known, apart))
        else:
            goal = S.not_(S.bor(*[inside(a, b) for a, b, _ in BLOCKS]))
        v = pr.prove(m.pc, goal)
        if v is None:
            out['errors'].append('block undecided')
        elif v is not True:
            n = v.get('c', 0)
            g = gobuild.native([dict(Op='block', C=n)])[0]
            want = [b for b in BLOCKS if b[0] <= n <= b[1]]
            got = (g.get('low'), g.get('high'), g.get('name'))
            if got != (want[0] if want else (None, None, None)):
                out['violations'].append(('codepoint U+%04X is assigned block %s, expected %s' % (n, g, want), dict(c=n)))
            else:
                out['errors'].append('block counterexample U+%04X did not reproduce' % n)
            break
    out['samples'].append(dict(block_paths=e.paths))
    return done(out, e, pr)


def new_glyphset(m, p):
    t = p.types[p.byname[LIB + 'GlyphSet']]
    return tuple(goex.Map(next(m.n)) if n == 'Index' else p.zero(f) for n, f in zip(t['fn'], t['f']))


def hash_override(table, hs):
    """Murmur3 replaced by an arbitrary function of the text"""
    def f(m, a):
        s = a[0]
        if type(s) is not bytes:
            raise goex.Unsupported('hash of symbolic text')
        if s not in table:
            raise goex.Unsupported('hash of unexpected text %r' % s)
        return hs[table[s]]
    return f


def entries(p, m, g):
    """[(block low, [(hash, text, offset)])] of a glyph set, through its fields"""
    t = p.types[p.byname[LIB + 'GlyphSet']]
    te = p.types[p.byname[LIB + 'clusterOffsetEntry']]['fn']
    idx = g[t['fn'].index('Index')]
    tb = p.types[p.byname[LIB + 'UBlock']]['fn'].index('Low')
    return {k[tb]: ([tuple(x[te.index(n)] for n in ('M3Hash', 'Cluster', 'DataOffset')) for x in m.items(v)], v) for k, v in idx.items}


def index_task(strs, offs, aliases, free=None):
    """insert the texts in this order with arbitrary (distinct) hashes, add the aliases, then look
    everything up; free: the texts whose hashes are arbitrary (the others have fixed ones)"""
    pr, out = fresh()
    p = gobuild.program()
    texts = list(strs) + [a for _, a in aliases]
    enc = [s.encode() for s in texts]
    table = {s: i for i, s in enumerate(enc)}
    rnd = random.Random(len(texts))
    hs = [S.var('h%d' % i, 32) if free is None or t in free else rnd.getrandbits(32) for i, t in enumerate(texts)]
    ov = {LIB + 'Murmur3': hash_override(table, hs)}
    e = goex.Explorer(p, ov, decide_first=True)
    where = lambda s: next(i for i, (a, b, _) in enumerate(BLOCKS) if a <= ord(s[0]) <= b)
    pre = [S.not_(S.eq(hs[i], hs[j], 32)) for i in range(len(hs)) for j in range(i) if where(texts[i]) == where(texts[j])]
    expect = {}
    off = {}
    for s, o in zip(strs, offs):
        off[s] = o
    for c, a in aliases:
        off[a] = off[c]
    for s in texts:
        expect.setdefault(BLOCKS[where(s)][0], []).append(s)
    hexof = lambda s: '-'.join('%x' % ord(c) for c in s).encode()
    seed = S.var('seed', 32)

    def body(m):
        for c in pre:
            m.pc.append(c)
        g = new_glyphset(m, p)
        for s, o in zip(strs, offs):
            m.call(Fn('(%sGlyphSet).Insert' % LIB), [g, s.encode(), seed, o])
        if aliases:
            tg = p.types[p.byname[LIB + 'GCAlias']]['fn']
            al = m.mkslice([tuple(dict(CanonHex=hexof(c), AliasHex=hexof(a))[n] for n in tg) for c, a in aliases])
            m.call(Fn('(%sGlyphSet).AddAliasesToIndex' % LIB), [g, al, seed])
        r = {}
        blocks = entries(p, m, g)
        lens = {}
        for lo, (es, sl) in blocks.items():
            lens[lo] = m.items(m.call(Fn('(%sBlockIndex).ClusterLengthList' % LIB), [sl]))
        tb = p.types[p.byname[LIB + 'UBlock']]['fn']
        keys = [k[tb.index('Low')] for k in m.items(m.call(Fn('(%sGlyphSet).IndexKeys' % LIB), [g]))]
        found = []
        for s in texts:
            b = m.call(Fn(LIB + 'Block'), [ord(s[0])])
            found.append(m.call(Fn('(%sGlyphSet).FindDataOffset' % LIB), [g, b, s.encode(), seed]))
        return {lo: es for lo, (es, sl) in blocks.items()}, lens, keys, found

    def verdict(k, r):
        if k != 'ret':
            return 0, k
        es, lens, keys, found = r
        c = []
        if keys != sorted(expect) or set(es) != set(expect):
            return 0, 'blocks %s' % keys
        for lo, texts_ in expect.items():
            got = es[lo]
            if sorted(x[1] for x in got) != sorted(s.encode() for s in texts_):
                return 0, 'entries of block %x' % lo
            for x in got:
                s = x[1].decode()
                c.append(S.eq(x[0], hs[table[x[1]]], 32))
                c.append(S.eq(x[2], off[s], 64))
            for x, y in zip(got, got[1:]):
                c.append(S.not_(S.ult(y[0], x[0], 32)))
            if lens[lo] != sorted({len(s) for s in texts_}, reverse=True):
                return 0, 'length list of block %x: %s' % (lo, lens[lo])
        for s, o in zip(texts, found):
            c.append(S.eq(o, off[s], 64))
        return S.band(*c) if c else 1, 'order'
    for k, r, m in e.explore(body):
        g, why = verdict(k, r)
        v = pr.prove(m.pc, g)
        if v is None:
            out['errors'].append('index undecided')
        elif v is not True:
            rep = index_replay(strs, offs, aliases, [v.get('h%d' % i, 0) if type(h) is not int else h for i, h in enumerate(hs)], why)
            if rep:
                out['violations'].append(rep)
            else:
                out['errors'].append('index counterexample did not reproduce: ' + why)
            break
    out['samples'].append(dict(texts=texts, paths=e.paths))
    return done(out, e, pr)


def index_replay(strs, offs, aliases, hs, why):
    """real texts and seeds whose hashes are ordered like hs, run through the compiled generator"""
    r = random.Random(str((strs, hs)))
    texts = list(strs) + [a for _, a in aliases]
    order = lambda v: [sorted(range(len(v)), key=lambda i: (v[i], i)).index(j) for j in range(len(v))]
    want = order(hs)
    hexof = lambda s: '-'.join('%x' % ord(c) for c in s)
    for batch in range(300):
        seeds = [r.getrandbits(32) for _ in range(40)]
        ans = gobuild.native([dict(Op='murmur', Strs=[[ord(c) for c in s] for s in texts], Seed=sd) for sd in seeds])
        for sd, a in zip(seeds, ans):
            if order(a['hashes']) != want and batch < 250:
                continue
            g = gobuild.native([dict(Op='index', Strs=[[ord(c) for c in s] for s in strs], Offs=list(offs),
                                     Aliases=[[hexof(c), hexof(a_)] for c, a_ in aliases], Seed=sd)])[0]
            bad = index_bad(strs, offs, aliases, g)
            if bad:
                return ('index of %s with seed %d: %s (%s)' % ([ascii(t) for t in texts], sd, bad, why), dict(seed=sd, texts=texts, answer=g))
            if batch < 250:
                return None
    return None


def index_bad(strs, offs, aliases, g):
    if 'blocks' not in g:
        return 'panic: %s' % g.get('panic', g)
    off = dict(zip(strs, offs))
    for c, a in aliases:
        off[a] = off[c]
    blk = lambda s: next(a for a, b, _ in BLOCKS if a <= ord(s[0]) <= b)
    expect = {}
    for s in off:
        expect.setdefault(blk(s), set()).add(s)
    if [b['low'] for b in g['blocks']] != sorted(expect):
        return 'blocks %s' % [b['low'] for b in g['blocks']]
    for b in g['blocks']:
        es = [(h, ''.join(map(chr, c)), o) for h, c, o in b['entries']]
        if {x[1] for x in es} != expect[b['low']] or len(es) != len(expect[b['low']]):
            return 'entries %s' % es
        if any(x[0] > y[0] for x, y in zip(es, es[1:])):
            return 'not sorted: %s' % es
        for h, s, o in es:
            if o != off[s]:
                return 'offset of %r is %d' % (s, o)
        if (b['lengths'] or []) != sorted({len(x[1]) for x in es}, reverse=True):
            return 'length list %s' % b['lengths']
    for s, o in zip(strs, g.get('found') or []):
        if o != off[s]:
            return 'lookup of %r gives %d' % (s, o)
    return None


# ------------------------------------------------------------------ main

def fonts_for(n, all_=True):
    fs = [Font('Bold', n, 'proportional'), Font('Emoji', n, 'proportional'), Font('Hanzi', n, 'CJK'),
          Font('Bold', n, 'proportional', 0, 0, 2), Font('Regular', n, 'proportional', 0, 0, 2), Font('Small', n, 'proportional', 0, 0, 2)]
    if all_:
        fs += [Font('Regular', n, 'proportional', 1, 0, 1), Font('Small', n, 'proportional', 1, 2, 2), Font('Emoji', n, 'proportional', 0, 0, 2)]
    return fs


def limits_task(name, trim, n):
    """TrimLimits for every row and column of a sheet"""
    pr, out = fresh()
    p = gobuild.program()
    row, col = S.var('row', 64, 0, 399), S.var('col', 64, 0, 63)
    fs = fontspec(p, name.encode().decode(), n, 64, 0, 0, trim)
    e = goex.Explorer(p)
    latin = name in ('Bold', 'Regular', 'Small')
    space = S.band(S.eq(row, 0, 64), S.eq(col, 2, 64)) if latin else 0
    a, b = Font(name, n, trim, 0, 0, 2).limits(), Font(name, n, trim, 0, 1, 1).limits()
    for k, r, m in e.explore(lambda m: m.call(Fn('(%sFontSpec).TrimLimits' % LIB), [fs, row, col])):
        g = 0
        if k == 'ret':
            g = S.band(*[S.eq(x, S.ite(space, u & S.MASK[64], v & S.MASK[64], 64), 64) for x, u, v in zip(r, a, b)])
        v = pr.prove(m.pc, g)
        if v is None:
            out['errors'].append('%s %d px: undecided' % (name, n))
        elif v is not True:
            i, j = v.get('row', 0), v.get('col', 0)
            f = Font(name, n, trim, 0, i, j, i + 1, max(j + 1, 3))
            bad = None
            for cell in ([[0] * n for _ in range(n)], [[int(x == y == n // 2) for x in range(n)] for y in range(n)],
                         [[1] * n for _ in range(n)]):
                bad = bad or wrong(f, cell)
            if bad:
                out['violations'].append(bad)
            else:
                out['errors'].append('%s %d px row %d col %d: counterexample did not reproduce' % (name, n, i, j))
    out_stats(out, e, pr)
    out['samples'].append('%s %d px: limits of every cell' % (name, n))
    return out


def boxes(n, count, r):
    out = [(0, 0, n, n), (n - 1, n - 1, 1, 1), (0, 0, 1, 1), (n - 1, 0, 1, n), (0, n - 1, n, 1)]
    while len(out) < count:
        w, h = r.randint(1, n), r.randint(1, n)
        out.append((r.randint(0, n - w), r.randint(0, n - h), w, h))
    return out[:count]


def main(pid):
    c = core.Check(pid, 150, 3000)
    r = random.Random(c.seed)
    gobuild.program()
    tasks, names = [], []

    def t(name, fn, *a):
        tasks.append((fn, a))
        names.append(name)
    if pid == 'C20':
        build.module()
        if find('(%sMatrix).convertToPattern' % LIB):
            for w in range(1, 33):
                for a in range(1, 33, 8):
                    t('pack %d x %d..%d' % (w, a, a + 7), pack_task, w, list(range(a, a + 8)))
        else:
            c.notes.append('convertToPattern is gone: packing judged through NewBlitPattern only')
        for n in range(1, 33):
            t('square %d' % n, glyph_task, Font('Hanzi', n, 'CJK', n % 3), None, n)
        for k, b in enumerate(boxes(32, 60 if c.quick else 1200, r)):
            t('box %s' % (b,), glyph_task, Font('Emoji', 32, 'proportional'), b, k)
        if find('(%sMatrix).convertToPattern' % LIB):
            sh = shapes_for_unpack(0)
            by = {}
            for x in sh:
                by.setdefault(x[2][0] * x[2][1] % 32 == 0, []).append(x)
            pick = r.sample(sh, 10) if c.quick else r.sample(sh, min(len(sh), 120))
            pick += [x for x in by.get(True, [])[:2] if x not in pick]
            for text, st, g in pick:
                data = paint.find_data(text, st, g)
                if data:
                    t('unpack %dx%d' % g[:2], unpack_task, text, st, g, data, c.deadline)
        c.assumptions = ['glyph sheets hold pure black on white: a pixel is dark when its red channel is 0',
                         'unpacking: C03 shows the blitter paints exactly the bits laid out as proved here, for every shape in the '
                         'committed fonts; some shapes are checked here end to end']
        c.coverage = dict(bounds='width and height 1..32, all pixels, offset 0..31; end to end for a sample of shapes')
    elif pid == 'C21':
        top = 7 if c.quick else 9
        for n in range(top, 0, -1):
            for f in fonts_for(n):
                if f.limits()[0] <= 0 and f.trim != 'CJK' and n // 2 - 2 < 0:
                    continue
                t('%s' % f, glyph_task, f, None, n)
        for n in (24, 30, 32):
            for k, b in enumerate(boxes(n, 24 if c.quick else 400, r)):
                f = [Font('Small', 24, 'proportional', 2), Font('Bold', 30, 'proportional', 2), Font('Emoji', 32, 'proportional')][(24, 30, 32).index(n)]
                t('%s box %s' % (f, b), glyph_task, f, b, k)
            t('hanzi %d' % n, glyph_task, Font('Hanzi', n, 'CJK', 2), None, 1)
        for name, n in (('Bold', 30), ('Regular', 30), ('Small', 24)):
            for k, b in enumerate([(n // 2 - 1, n // 2 - 1, 1, 1), (0, 0, n, n), (n // 2 - 3, 2, 6, n - 4), (2, n // 2 - 3, 3, 6), (n - 2, n - 3, 1, 2)]):
                t('space %s %s' % (name, b), glyph_task, Font(name, n, 'proportional', 2, 0, 2), b, k)
        # does the position in the sheet matter anywhere else?
        if find('(%sFontSpec).TrimLimits' % LIB):
            for name, trim in (('Emoji', 'proportional'), ('Hanzi', 'CJK'), ('Bold', 'proportional'), ('Regular', 'proportional'),
                               ('Small', 'proportional')):
                for n in (2, 4, 5, 24, 30, 32):
                    t('limits %s %d px' % (name, n), limits_task, name, trim, n)
        else:
            c.notes.append('TrimLimits is gone: limits judged through NewBlitPattern only')
        for name, trim, cols in (('Emoji', 'proportional', 16), ('Hanzi', 'CJK', 20), ('Bold', 'proportional', 16), ('Regular', 'proportional', 16),
                                 ('Small', 'proportional', 16)):
            for i in range(4 if c.quick else 24):
                for j in range(cols):
                    if (i, j) == (0, 2) and trim != 'CJK':
                        continue
                    t('position %s %d,%d' % (name, i, j), glyph_task, Font(name, 3, trim, 0, i, j, i + 1, cols), (1, 0, 1, 2) if trim != 'CJK' else None, i)
        c.coverage = dict(bounds='all pixels of cells up to %d px square for each trim policy; at 24, 30 and 32 px bounding boxes '
                          'with all pixels inside symbolic; the trim limits of every row below 400 and column below 64' % top)
    elif pid == 'C26':
        for name, n, gut, cols, trim in CONFIG:
            rows = 5
            cells = [(i, j) for i in range(rows) for j in range(cols)]
            if c.quick:
                cells = [(0, 0), (0, cols - 1), (rows - 1, 0), (rows - 1, cols - 1)] + r.sample(cells, 4)
            for i, j in cells:
                f = Font(name, n, trim, gut, i, j, rows, cols)
                if trim == 'CJK':
                    t('%s' % f, glyph_task, f, None, i + j)
                else:
                    # the whole cell in use
                    t('%s' % f, glyph_task, f, (0, 0, n, n), i + j)
                    t('%s box' % f, glyph_task, f, boxes(n, 6 + (i * 7 + j) % 5, r)[-1], i)
            t('%s outside' % name, outside_task, Font(name, n, trim, gut, 0, 0, 3, cols),
              [(3, 0), (4, 1), (-1, 0), (0, cols), (0, cols + 3), (0, -1), (2, -1), (-1, -1)])
        for n in range(1, 9):
            for gut in (0, 1, 2, 3):
                for bor in (0, 1, 2, 3, 5, 9):
                    for i, j in ((0, 0), (1, 2), (2, 1), (2, 2)):
                        f = Font('Hanzi', n, 'CJK', gut, i, j, border=bor)
                        t('%s' % f, glyph_task, f, None, n)
        for name, n, gut, cols, trim in CONFIG:
            for gu, bo in ((0, 3), (2, 1), (2, 7), (3, 0)):
                i, j = r.randrange(3), r.randrange(cols)
                f = Font(name, n, trim, gu, i, j, 3, cols, bo)
                t('%s' % f, glyph_task, f, None if trim == 'CJK' else (0, 0, n, n), i + j)
        c.coverage = dict(bounds='the committed grid geometries (size, gutter, columns) with 5 rows; the committed sizes with four other borders '
                          'and gutters each; and cells of 1..8 px with gutters 0..3 and borders 0..9')
    elif pid == 'C22':
        build.module()
        top = 5 if c.quick else 6
        combos = [x for n in range(0, top + 1) for x in itertools.product((1, 2, 3, 4), repeat=n)]
        for _ in range(60 if c.quick else 1000):
            combos.append(tuple(r.randint(1, 4) for _ in range(r.randint(top + 1, 8))))
        for x in combos:
            t('lengths %s' % (x,), hash_task, x, list(range(0, len(x) + 1)) + ['big'])
        # long strings: whether anything depends on the length
        for x in [(4,) * 17, (4,) * 64, (1,) * 70, (1, 2, 3, 4) * 12, (3,) * 33, (1,) * 129, (4,) * 65] + [(1,) * 257, (4,) * 257, (2,) * 130]:
            t('%d characters' % len(x), hash_task, x, sorted({0, 1, len(x) // 2, len(x) - 1, len(x)}))
        c.coverage = dict(bounds='all UTF-8 length combinations up to %d codepoints, a seeded sample up to 8; all codepoints, seeds and limits; '
                          'some of 17 to 257 codepoints with five limits each' % top)
    elif pid == 'C23':
        t('blocks', block_task)
        sets = [(['a'], []), (['a', 'b'], []), (['b', 'a', 'c'], []), (['a', 'b', 'c', 'd'], []),
                (['a', 'ab', 'abc', 'z'], []), (['\u00e9', 'e', 'f'], [('\u00e9', 'e\u0301')]),
                (['\U0001F600', '\U0001F600\u200d\u2640', '\u2640'], [('\u2640', '\u2640\ufe0f')]),
                (['x', '\u4e00', '\U0001f1e6\U0001f1e8', '\u2013', '\u20ac'], []),
                (['a', '\u00e0', 'c'], [('\u00e0', 'a\u0300'), ('c', 'cc')])]
        if not c.quick:
            sets += [(['a', 'b', 'c', 'd', 'e'], []), (['a', 'b', 'cd', 'cde', 'f'], [('a', 'aa')]),
                     (['\u00e0', 'a', 'b', 'c'], [('\u00e0', 'a\u0300'), ('b', 'bb')])]
        for k, (ss, al) in enumerate(sets):
            t('index %s' % ascii(ss), index_task, ss, [7 * i + 3 for i in range(len(ss))][::(-1 if k % 2 else 1)], al)
        # long indices: one or two arbitrary hashes among fixed ones, inserted first, in the middle or last
        for n in (7, 9, 12, 13, 17, 24, 33, 40) if c.quick else (7, 8, 9, 12, 16, 17, 20, 31, 33, 40, 64, 65, 90):
            for base in (0x21, 0x4e00) if n < 10 or not c.quick else ((0x21, 0x4e00)[n % 2],):
                ss = [chr(base + (7 * i) % 90) + ('\u0301' if i % 5 == 4 else '') for i in range(n)]
                for fr in ([ss[-1]], [ss[0]], [ss[n // 2], ss[-1]]) if n < 10 else ([ss[-1]], [ss[n // 3]]):
                    t('index of %d, %d arbitrary' % (n, len(fr)), index_task, ss, [3 * i + 1 for i in range(n)], [], fr)
        c.assumptions = ['the hashes of different clusters of one block differ (the generated font file tests this)']
        c.coverage = dict(bounds='every 32-bit codepoint; up to %d entries per index with arbitrary hashes; 7 to %d entries of which one or two have arbitrary hashes' % (4 if c.quick else 6, 40 if c.quick else 90))
    c.tasks(run1, list(zip(tasks)), names, task_limit=200 if c.quick else 1500)
    c.finish()


def run1(t):
    fn, a = t
    return fn(*a)
