"""C28 (the source text of the DATA, HASH and OFFSET arrays) and C29 (index and alias files, hex
clusters): the generator's Go code on text with symbolic digits."""
import os
import random
import tempfile

import build
import core
import gobuild
import goex
import gotext
import sym as S
from goex import Fn, Iface, Str
from checks_gen import LIB, BLOCKS, done, fresh, hash_override, new_glyphset

T = S.T


class Malformed(Exception):
    pass


# ------------------------------------------------------------------ reading array elements

def tokens(text):
    """the comma-separated elements of Rust array text, comments dropped: lists of characters"""
    rs = goex.runes(text)
    out, cur = [], []
    closed = True
    i = 0
    ch = lambda k: rs[k][0] if k < len(rs) and type(rs[k][0]) is int else None
    while i < len(rs):
        v = rs[i][0]
        if v == 47 and type(v) is int:
            if ch(i + 1) != 47:
                raise Malformed('a lone slash')
            if cur:
                out.append(cur)
                cur, closed = [], False
            while i < len(rs) and not (type(rs[i][0]) is int and rs[i][0] == 10):
                i += 1
            continue
        if type(v) is int and v in (9, 10, 13, 32):
            if cur:
                out.append(cur)
                cur, closed = [], False
        elif type(v) is int and v == 44:
            if cur:
                out.append(cur)
                cur = []
            elif closed:
                raise Malformed('an empty element')
            closed = True
        else:
            if not cur and not closed:
                raise Malformed('two elements without a comma')
            cur.append(v)
            if v is gotext.BLOB:
                raise Malformed('quoted text outside of a comment')
        i += 1
    if cur:
        out.append(cur)
    return out


def number(tok, w):
    """(value, condition that it fits) of a number token"""
    rs = [v for v in tok if type(v) is not int or v != 95]
    if type(rs[-1]) is gotext.Num:
        x = rs[-1]
        if len(rs) == (3 if x.base == 16 else 1) and rs[:-1] == ([48, 120] if x.base == 16 else []):
            return (S.zext(x.v, x.w, w), 1) if x.w < w else (x.v, 1) if x.w == w else (S.trunc(x.v, x.w, w), S.eq(S.slice_(x.v, w, x.w - w, x.w), 0, x.w - w))
        raise Malformed('digits around a printed number')
    suffix = ''.join(chr(v) for v in rs[-5:] if type(v) is int)
    for s in ('u32', 'usize'):
        if suffix.endswith(s) and len(rs) > len(s) and (rs[1] != 120 or w == 32 or True):
            rs = rs[:-len(s)]
            break
    if len(rs) > 2 and rs[0] == 48 and rs[1] == 120:
        ns = []
        for v in rs[2:]:
            if type(v) is int:
                if not (v < 128 and v in gotext.HEX):
                    raise Malformed('not a number: %s' % show(tok))
                ns.append(int(chr(v), 16))
            elif v in gotext.DIG:
                ns.append(gotext.DIG[v][0])
            else:
                raise goex.Unsupported('symbolic character in a number')
        while len(ns) > 16:
            if type(ns[0]) is not int or ns[0]:
                raise Malformed('a number of %d digits' % len(ns))
            ns = ns[1:]
        k = 4 * len(ns)
        if all(type(n) is int for n in ns):
            v = 0
            for n in ns:
                v = v * 16 + n
            return v & ((1 << w) - 1), int(v >> w == 0)
        v = S.mk_cat(tuple((None, n, 4) if type(n) is int else (n, 0, 4) for n in ns)) if len(ns) > 1 else ns[0]
        if k > w:
            return S.trunc(v, k, w), S.eq(S.slice_(v, w, k - w, k), 0, k - w)
        return (S.zext(v, k, w) if k < w else v), 1
    if all(type(v) is int and 48 <= v <= 57 for v in rs) and rs:
        v = int(''.join(map(chr, rs)))
        return v & ((1 << w) - 1), int(v >> w == 0)
    if any(type(v) is not int for v in rs):
        raise goex.Unsupported('symbolic decimal number')
    raise Malformed('not a number: %s' % show(tok))


def show(tok):
    return ''.join(chr(v) if type(v) is int else '?' for v in tok)[:40]


def numbers(text, w):
    """values and the condition that all fit w bits; a Str, bytes or str"""
    if type(text) is str:
        text = text.encode()
    if text is goex.OPAQUE:
        raise goex.Unsupported('text formatted in an unmodelled way')
    vs, cs = [], []
    for t in tokens(text):
        v, c = number(t, w)
        vs.append(v)
        cs.append(c)
    return vs, S.band(*cs) if cs else 1


# ------------------------------------------------------------------ C28

def hexof(s):
    return '-'.join('%x' % ord(c) for c in s)


def where(s):
    return next(a for a, b, _ in BLOCKS if a <= ord(s[0]) <= b)


def source_task(strs, lens, aliases, symhash, upper=False):
    """glyphs with arbitrary words; hashes arbitrary too (symhash) or the real ones of a seed"""
    pr, out = fresh()
    p = gobuild.program()
    texts = list(strs) + [a for _, a in aliases]
    enc = [s.encode() for s in texts]
    words = [[S.var('w%d_%d' % (i, k), 32) for k in range(n)] for i, n in enumerate(lens)]
    hs = [S.var('h%d' % i, 32) for i in range(len(enc))]
    ov = {LIB + 'Murmur3': hash_override({s: i for i, s in enumerate(enc)}, hs)} if symhash else {}
    e = goex.Explorer(p, ov, decide_first=True)
    pre = [S.not_(S.eq(hs[i], hs[j], 32)) for i in range(len(hs)) for j in range(i) if where(texts[i]) == where(texts[j])] if symhash else []
    tp = p.types[p.byname[LIB + 'BlitPattern']]
    tc = p.types[p.byname[LIB + 'CharSpec']]
    tg = p.types[p.byname[LIB + 'GlyphSet']]['fn']
    te = p.types[p.byname[LIB + 'clusterOffsetEntry']]['fn']
    tb = p.types[p.byname[LIB + 'UBlock']]['fn'].index('Low')
    seed = S.var('seed', 32) if symhash else 7
    hx = [hexof(s).upper() if upper else hexof(s) for s in texts]
    off, n = {}, 0
    for s, k in zip(strs, lens):
        off[s] = n
        n += k
    for c, a in aliases:
        off[a] = off[c]

    def body(m):
        m.pc += pre
        pl = []
        for i, s in enumerate(strs):
            cs = tuple(hx[i].encode() if q == 'Hex' else p.zero(f) for q, f in zip(tc['fn'], tc['f']))
            pl.append(tuple(m.mkslice(words[i]) if q == 'Words' else cs if q == 'CS' else p.zero(f) for q, f in zip(tp['fn'], tp['f'])))
        g = m.call(Fn(LIB + 'NewGlyphSetFrom'), [m.mkslice(pl), seed])
        if aliases:
            ta = p.types[p.byname[LIB + 'GCAlias']]['fn']
            al = m.mkslice([tuple(dict(CanonHex=hexof(c), AliasHex=hexof(a))[q].encode() for q in ta) for c, a in aliases])
            m.call(Fn('(%sGlyphSet).AddAliasesToIndex' % LIB), [g, al, seed])
        bl = {}
        for k, v in g[tg.index('Index')].items:
            es = [tuple(x[te.index(q)] for q in ('M3Hash', 'Cluster', 'DataOffset')) for x in m.items(v)]
            bl[k[tb]] = (es, m.call(Fn('(%sBlockIndex).RustCodeForClusterHashes' % LIB), [v]),
                         m.call(Fn('(%sBlockIndex).RustCodeForOffsets' % LIB), [v]))
        return g[tg.index('Code')], g[tg.index('DataLen')], bl
    def paths():
        try:
            for k, r, m in e.explore(body):
                yield (m,) + source_goal(k, r, words, off, texts)
        except goex.Unsupported as x:
            rep = None
            for j in range(6):
                rnd = random.Random(j)
                core.add_stats(out['stats'], dict(fallback_replays=1))
                rep = rep or source_replay([[rnd.getrandbits(32) >> rnd.choice((0, 0, 4, 12, 31)) for _ in w] for w in words], strs, aliases, hx, [], str(x), 3)
            if rep:
                out['violations'].append(rep)
            else:
                out['errors'].append('source text: %s' % x)
    for m, goal, why in paths():
        v = pr.prove(m.pc, goal)
        if v is None:
            out['errors'].append('source text undecided')
        elif v is not True:
            rep = source_replay([[v.get('w%d_%d' % (i, q), 0) for q in range(n)] for i, n in enumerate(lens)], strs, aliases, hx,
                                [v.get('h%d' % i, 0) for i in range(len(hs))], why)
            if rep:
                out['violations'].append(rep)
            else:
                out['errors'].append('source text counterexample did not reproduce: ' + why)
            break
    out['samples'].append(dict(clusters=[ascii(t) for t in texts], words=list(lens), paths=e.paths))
    return done(out, e, pr)


def source_goal(k, r, words, off, texts):
    """the claim about one outcome; r: (code, length, {block: (entries, hash text, offset text)})"""
    if k != 'ret':
        return 0, 'panic: %s' % (r,)
    code, n, bl = r
    flat = [w for ws in words for w in ws]
    try:
        got, fit = numbers(code, 32)
        cs = [fit]
        if len(got) != len(flat):
            return 0, 'the DATA text lists %d words of %d' % (len(got), len(flat))
        cs += [S.eq(a, b, 32) for a, b in zip(got, flat)]
        cs.append(S.eq(n, len(flat), 64))
        seen = []
        for lo, (es, ht, ot) in bl.items():
            hv, hf = numbers(ht, 32)
            ov, of = numbers(ot, 64)
            cs += [hf, of]
            if len(hv) != len(es) or len(ov) != len(es):
                return 0, 'block %x: %d entries, %d hashes and %d offsets written' % (lo, len(es), len(hv), len(ov))
            for (h, c, o), a, b in zip(es, hv, ov):
                s = c.decode()
                if s not in off or where(s) != lo:
                    return 0, 'entry %r in block %x' % (s, lo)
                seen.append(s)
                cs += [S.eq(h, a, 32), S.eq(o, b, 64), S.eq(b, off[s], 64)]
            for a, b in zip(hv, hv[1:]):
                cs.append(S.not_(S.ult(b, a, 32)))
        if sorted(seen) != sorted(texts):
            return 0, 'entries for %s' % [ascii(s) for s in seen]
        return S.band(*cs), 'a number differs'
    except Malformed as x:
        return 0, 'the text is no array of numbers: %s' % x


def source_replay(words, strs, aliases, hx, hs, why, tries=300):
    texts = list(strs) + [a for _, a in aliases]
    off, n = {}, 0
    for s, w in zip(strs, words):
        off[s] = n
        n += len(w)
    for c, a in aliases:
        off[a] = off[c]
    r = random.Random(str(words))
    for ws in (words, [[r.getrandbits(32) for _ in w] for w in words]):
        for sd in [7, 0, 1] + [r.getrandbits(32) for _ in range(tries)]:
            g = gobuild.native([dict(Op='source', Pats=ws, Aliases=[[h, ''] for h in hx[:len(strs)]] + [[hexof(c), hexof(a)] for c, a in aliases],
                                     Seed=sd)])[0]
            if 'code' in g:
                bl = {b['low']: ([(h, ''.join(map(chr, c)).encode(), o) for h, c, o in b['entries']], b['hashes'], b['offsets']) for b in g['blocks']}
                goal, w2 = source_goal('ret', (g['code'], g['len'], bl), ws, off, texts)
            else:
                goal, w2 = 0, g.get('panic', str(g))
            if goal == 0:
                return ('source text for glyphs %s of %s words, seed %d: %s' % ([ascii(t) for t in texts], [len(w) for w in ws], sd, w2),
                        dict(words=ws, clusters=[ascii(t) for t in texts], seed=sd, answer=g))
    return None


# ------------------------------------------------------------------ C29

def hexdigits(name, n, upper):
    """n symbolic hexadecimal digits: (characters, nibbles)"""
    ns = [S.var('%s_%d' % (name, i), 4) for i in range(n)]
    return [(gotext.digit(x, upper and (i + upper) % 2), 1) for i, x in enumerate(ns)], ns


def codepoint(ns):
    v = S.mk_cat(tuple((x, 0, 4) for x in ns)) if len(ns) > 1 else ns[0]
    k = 4 * len(ns)
    return S.zext(v, k, 32) if k < 32 else v


def scalar(v):
    return S.band(S.ult(v, 0x110000, 32), S.bor(S.ult(v, 0xd800, 32), S.not_(S.ult(v, 0xe000, 32))))


def cluster(name, groups, upper=0):
    """a hex cluster: (characters, codepoints, conditions)"""
    out, cps, cs = [], [], []
    for j, n in enumerate(groups):
        if j:
            out.append((45, 1))
        # digits beyond the eighth are leading zeros
        r, ns = hexdigits('%s%s' % (name, 'abcdef'[j]), min(n, 8), upper)
        out += lit('0' * (n - 8)) + r
        cps.append(codepoint(ns))
        cs.append(scalar(cps[-1]))
    return out, cps, [c for c in cs if type(c) is not int]


def lit(s):
    return [(c, 1) for c in s.encode()]


def free(name, n, lo=32, hi=126):
    """n arbitrary printable ASCII characters"""
    return [(S.zext(S.var('%s_%d' % (name, i), 7, lo, hi), 7, 32), 1) for i in range(n)]


def cluster_ok(got, cps):
    """got (a string) consists of exactly these codepoints"""
    rs = goex.runes(got)
    if len(rs) != len(cps):
        return 0
    cs = []
    for (v, n), c in zip(rs, cps):
        a, b = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}[n]
        cs += [S.eq(v, c, 32), S.not_(S.ult(c, a, 32)), S.not_(S.ult(b, c, 32))]
    return S.band(*cs)


def settle(pr, out, m, goal, judge):
    """decide one path's goal; a counterexample is run on the real code.  False: stop"""
    v = pr.prove(m.pc, goal)
    if v is True:
        return True
    if v is None:
        out['errors'].append('undecided')
        return True
    bad = judge(v)
    if bad:
        out['violations'].append(bad)
    else:
        out['errors'].append('a counterexample did not reproduce: %s' % str(v)[:200])
    return False


def text_of(rs, env):
    out = ''
    for v, n in rs:
        out += chr(v if type(v) is int else S.evalt(v, env, {}))
    return out


def samples(rs, conds, n=40):
    """random assignments of the characters' variables that satisfy the conditions"""
    r = random.Random(str(len(rs)))
    names = {}
    for v, _ in rs:
        if type(v) is not int:
            for x in S.term_vars(v):
                names[x] = 1
    out = []
    for k in range(20 * n):
        env = {x: r.choice((0, 1, 9, 10, 15)) if k % 3 == 0 else r.randint(0, 15) for x in names}
        for x in names:
            if x[0] == 'f' or x[0] == 'x':
                env[x] = r.randint(32, 126)
        if k % 2:
            # small codepoints: leading zeros
            for x in sorted(names):
                if r.random() < 0.5:
                    env[x] = 0 if x[0] not in 'fx' else env[x]
        if all(S.evalt(c, env, {}) for c in conds):
            out.append(env)
            if len(out) >= n:
                break
    return out


def fallback(out, why, rs, conds, judge):
    """outside of what can be encoded: native runs of sampled inputs (no verdict, but a failing one counts)"""
    for env in samples(rs, conds):
        core.add_stats(out['stats'], dict(fallback_replays=1))
        bad = judge(env)
        if bad:
            out['violations'].append(bad)
            return
    out['errors'].append(str(why))


def hex_task(groups, upper):
    """StringFromHexGC, GraphemeCluster and FirstCodepoint on clusters of given digit counts"""
    pr, out = fresh()
    p = gobuild.program()
    e = goex.Explorer(p, {}, decide_first=True)
    rs, cps, cs = cluster('d', groups, upper)
    tc = p.types[p.byname[LIB + 'CharSpec']]
    hx = gotext.norm(rs)

    def body(m):
        m.pc += cs
        s = tuple(hx if q == 'Hex' else p.zero(f) for q, f in zip(tc['fn'], tc['f']))
        return (m.call(Fn(LIB + 'StringFromHexGC'), [hx]), m.call(Fn('(%sCharSpec).GraphemeCluster' % LIB), [s]),
                m.call(Fn('(%sCharSpec).FirstCodepoint' % LIB), [s]))
    def judge(v):
        t = text_of(rs, v)
        want = [int(x, 16) for x in t.split('-')]
        g = gobuild.native([dict(Op='hex', Hex=t)])[0]
        if g.get('runes') != want or g.get('first') != want[0]:
            return ('hex cluster %r parses to %s' % (t, g), dict(hex=t, answer=g))
    try:
        for k, r, m in e.explore(body):
            goal = S.band(cluster_ok(r[0], cps), cluster_ok(r[1], cps), S.eq(r[2], cps[0], 32)) if k == 'ret' else 0
            if not settle(pr, out, m, goal, judge):
                break
    except goex.Unsupported as x:
        fallback(out, x, rs, cs, judge)
    out['samples'].append('hex clusters of %s digits, %d paths' % (list(groups), e.paths))
    return done(out, e, pr)


def badhex_task(pre, post, lo, hi):
    """one character that is no hex digit and no dash: refused"""
    pr, out = fresh()
    p = gobuild.program()
    e = goex.Explorer(p, {}, decide_first=True)
    x = free('x', 1, lo, hi)
    rs = lit(pre) + x + lit(post)

    def judge(v):
        t = text_of(rs, v)
        g = gobuild.native([dict(Op='hex', Hex=t)])[0]
        if 'panic' not in g:
            return ('%r is accepted as hex cluster: %s' % (t, g), dict(hex=t, answer=g))
    try:
        for k, r, m in e.explore(lambda m: m.call(Fn(LIB + 'StringFromHexGC'), [gotext.norm(rs)])):
            if not settle(pr, out, m, int(k == 'panic'), judge):
                break
    except goex.Unsupported as x:
        fallback(out, x, rs, [], lambda v: judge(dict(v, x_0=min(hi, max(lo, v['x_0'])))))
    out['samples'].append('%r + one character of U+%02X..U+%02X + %r: refused' % (pre, lo, hi, post))
    return done(out, e, pr)


BLANKS = ['', ' ', '\t ', '\r']


def layout(kinds, r, crlf):
    """the lines of an index file: (characters, [(cluster characters, codepoints)], conditions)"""
    lines, want, conds = [], [], []
    for i, k in enumerate(kinds):
        if k == 'e':                       # an entry, maybe indented and followed by a comment
            g = [r.randint(1, 5) for _ in range(r.choice((1, 1, 2, 3)))]
            rs, cps, cs = cluster('l%d' % i, g, r.choice((0, 0, 1)))
            conds += cs
            want.append((gotext.norm(rs), cps))
            l = lit(r.choice(('', '', ' ', '\t'))) + rs
            t = r.choice((0, 0, 1, 2))
            if t == 1:
                l += lit(r.choice((' ', '  ', '\t')))
            elif t == 2:
                l += lit(r.choice((' #', '# ', '\t# '))) + free('f%d' % i, r.randint(0, 3))
        elif k == 'c':
            l = lit(r.choice(('#', '# ', '  #'))) + free('f%d' % i, r.randint(0, 4))
        else:
            l = lit(r.choice(BLANKS))
        if crlf:
            l = l + [(13, 1)]
        lines.append(l)
    out = []
    for i, l in enumerate(lines):
        if i:
            out.append((10, 1))
        out += l
    return out, want, conds


def reader(rs):
    """os.ReadFile answering with this text"""
    text = gotext.norm(rs)

    def f(m, a):
        return (m.mkslice([goex.sbyte(text, i) for i in range(goex.slen(text))]), None)
    return {'io/ioutil.ReadFile': f, 'os.ReadFile': f}


def with_file(text, f):
    os.makedirs(os.path.join(build.BUILD, 'tmp'), exist_ok=True)
    fd, path = tempfile.mkstemp(dir=os.path.join(build.BUILD, 'tmp'))
    try:
        os.write(fd, text.encode())
        os.close(fd)
        return f(path)
    finally:
        os.unlink(path)


def map_task(kinds, end, crlf, seed):
    pr, out = fresh()
    p = gobuild.program()
    r = random.Random('%s %s' % (kinds, seed))
    rs, want, cs = layout(kinds, r, crlf)
    if end:
        rs = rs + [(10, 1)]
    e = goex.Explorer(p, reader(rs), decide_first=True)
    cols = S.var('cols', 64, 1, max(3, len(want) + 1))
    tc = p.types[p.byname[LIB + 'CharSpec']]['fn']

    def body(m):
        m.pc += cs
        l = m.call(Fn(LIB + 'EmojiMap'), [cols, b'index.txt'])
        return [tuple(x[tc.index(q)] for q in ('Hex', 'Row', 'Col')) for x in m.items(l)]

    def judge(v):
        t = text_of(rs, v)
        n = v.get('cols', 1) or 1
        w = [text_of(goex.runes(hx), v) for hx, _ in want]
        g = with_file(t, lambda f: gobuild.native([dict(Op='map', Cols=n, Path=f)]))[0]
        exp = [[h, i // n, i % n, [int(x, 16) for x in h.split('-')], int(h.split('-')[0], 16)] for i, h in enumerate(w)]
        if g.get('map') != exp:
            return ('index file %r with %d columns is read as %s, expected %s' % (t, n, g, exp), dict(text=t, cols=n, answer=g))
    try:
        for k, got, m in e.explore(body):
            goal = 0
            if k == 'ret' and len(got) == len(want):
                c = []
                for i, ((h, row, col), (hx, cps)) in enumerate(zip(got, want)):
                    c.append(m.same(h, hx) if goex.slen(h) == goex.slen(hx) else 0)
                    c += [S.eq(S.add(S.mul(row, cols, 64), col, 64), i, 64), S.ult(col, cols, 64), S.ult(row, 100, 64)]
                goal = S.band(*c) if c else 1
            if not settle(pr, out, m, goal, judge):
                break
    except goex.Unsupported as x:
        fallback(out, x, rs, cs, lambda v: judge(dict(v, cols=1)) or judge(dict(v, cols=2)))
    out['samples'].append('index file of lines %s%s, %d paths' % (kinds, ' CRLF' if crlf else '', e.paths))
    return done(out, e, pr)


def alias_task(kinds, end, crlf, seed):
    pr, out = fresh()
    p = gobuild.program()
    r = random.Random('%s %s' % (kinds, seed))
    lines, want, cs = [], [], []
    for i, k in enumerate(kinds):
        if k == 'e':
            ab = []
            for q in 'ab':
                x, cps, c = cluster('%s%d' % (q, i), [r.randint(1, 5) for _ in range(r.choice((1, 1, 2)))])
                cs += c
                ab.append(x)
            want.append(tuple(map(gotext.norm, ab)))
            l = lit(r.choice(('', '', ' ', '\t'))) + ab[0] + [(32, 1)] + ab[1]
            t = r.choice((0, 0, 1, 2))
            if t:
                l += lit(r.choice((' ', '\t')))
            if t == 2:
                l += lit('#') + free('f%d' % i, r.randint(0, 3))
        elif k == 'c':
            l = lit(r.choice(('#', '# ', '  #'))) + free('f%d' % i, r.randint(0, 4))
        else:
            l = lit(r.choice(BLANKS))
        if crlf:
            l = l + [(13, 1)]
        lines += ([(10, 1)] if i else []) + l
    if end:
        lines.append((10, 1))
    e = goex.Explorer(p, reader(lines), decide_first=True)
    ta = p.types[p.byname[LIB + 'GCAlias']]['fn']

    def body(m):
        m.pc += cs
        l = m.call(Fn(LIB + 'EmojiAliases'), [b'aliases.txt'])
        return [tuple(x[ta.index(q)] for q in ('CanonHex', 'AliasHex')) for x in m.items(l)]

    def judge(v):
        t = text_of(lines, v)
        exp = [[text_of(goex.runes(x), v) for x in ab] for ab in want]
        g = with_file(t, lambda f: gobuild.native([dict(Op='aliases', Path=f)]))[0]
        if g.get('aliases') != exp:
            return ('alias file %r is read as %s, expected %s' % (t, g, exp), dict(text=t, answer=g))
    try:
        for k, got, m in e.explore(body):
            goal = 0
            if k == 'ret' and len(got) == len(want):
                goal = S.band(*[m.same(x, y) if goex.slen(x) == goex.slen(y) else 0 for a, b in zip(got, want) for x, y in zip(a, b)]) if want else 1
            if not settle(pr, out, m, goal, judge):
                break
    except goex.Unsupported as x:
        fallback(out, x, lines, cs, judge)
    out['samples'].append('alias file of lines %s%s, %d paths' % (kinds, ' CRLF' if crlf else '', e.paths))
    return done(out, e, pr)


# ------------------------------------------------------------------ main

def run1(t):
    fn, a = t
    try:
        return fn(*a)
    except goex.Unsupported as x:
        return dict(errors=['%s%s: %s' % (fn.__name__, a, x)])


def main(pid):
    c = core.Check(pid, 150, 2000)
    r = random.Random(c.seed)
    gobuild.program()
    tasks, names = [], []

    def t(name, fn, *a):
        tasks.append((fn, a))
        names.append(name)
    if pid == 'C28':
        for n in list(range(1, 34 if c.quick else 140)) + [127, 128, 129]:
            t('one glyph of %d words' % n, source_task, ['A'], [n], [], False)
        for ss, lens, al in [(['a', 'b'], [1, 1], []), (['b', 'a'], [9, 2], []), (['a', 'b', 'c'], [2, 8, 3], []),
                             (['a', 'b', 'c', 'd'], [3, 1, 16, 4], []), (['"', '\\', '/'], [2, 3, 1], []),
                             (['\u00ad', '\u00a0', '\u00e9'], [2, 7, 5], [('\u00e9', 'e\u0301')]),
                             (['\U0001f600', '\U0001f600\u200d\u2640', '\u2640'], [9, 33, 8], [('\u2640', '\u2640\ufe0f')]),
                             (['x', '\u4e00', '\U0001f1e6\U0001f1e8', '\u2013', '\u20ac'], [1, 25, 33, 17, 8], []),
                             (['a', '\u00e0', 'c'], [24, 1, 7], [('\u00e0', 'a\u0300'), ('c', 'cc')])]:
            t('glyphs %s' % ascii(ss), source_task, ss, lens, al, True)
        many = [chr(v) for v in range(0x21, 0x7f)]
        t('95 glyphs', source_task, many, [r.randint(1, 20) for _ in many], [], False)
        hz = [chr(0x4e00 + r.randint(0, 0x5000)) for _ in range(40)]
        hz = sorted(set(hz), key=hz.index)
        t('hanzi', source_task, hz, [33 for _ in hz], [], False)
        em = ['\U0001f3c3', '\U0001f3c3\U0001f3fc\u200d\u2642\ufe0f', '\u2640', '\u00a9', '#\ufe0f\u20e3', '\U0001f004', '\u2705']
        t('emoji', source_task, em, [r.randint(1, 33) for _ in em], [('\u00a9', '\u00a9\ufe0f'), ('\U0001f004', '\U0001f004\ufe0f')], False)
        t('upper case hex', source_task, ['\u00e9', 'z', '\U0001f1fa\U0001f1f8'], [3, 9, 16], [], False, True)
        c.assumptions = ['the template around the arrays (text/template) is not encoded: the array texts it inserts are',
                         'fmt.Sprintf, strings.Join and the other library functions are modelled; quoting (%q) yields text without a line break']
        c.coverage = dict(bounds='up to %d words a glyph, up to 95 glyphs; every word symbolic, hashes symbolic for up to 5 entries' % (33 if c.quick else 140))
    else:
        for up in (0, 1):
            for n in list(range(1, 18)) + [20, 33, 64]:
                t('%d digits' % n, hex_task, (n,), up)
            for g in [(4, 4), (5, 4, 4), (1, 2), (2, 1, 3), (4, 5), (5, 5), (3, 4), (5, 5, 4, 4), (8, 6), (2, 2, 2, 2),
                      (9, 4), (5, 12), (1, 9, 1), (17, 17)]:
                t('%s digits' % (g,), hex_task, g, up)
        for pre, post in (('', ''), ('1f', ''), ('', '41'), ('41-', '-42'), ('1f60', '-200d'), ('41-4', '')):
            for lo, hi in ((32, 44), (46, 47), (58, 64), (71, 94), (103, 126)):
                t('%r x %r' % (pre, post), badhex_task, pre, post, lo, hi)
        import itertools
        shapes = [''.join(x) for n in range(1, 4) for x in itertools.product('ecb', repeat=n)]
        shapes += ['eeee', 'ecee', 'eebe', 'beeee', 'ceebe', 'eeeee', 'ecbee'] + ([] if c.quick else ['e' * 7, 'eceeceb', 'eebceee', 'cbeeeee'])
        for i, k in enumerate(shapes):
            t('index %s' % k, map_task, k, i % 3 != 0, i % 5 == 2, c.seed)
            t('alias %s' % k, alias_task, k, i % 3 != 0, i % 5 == 2, c.seed)
        c.assumptions = ['file reading, strings.Split, SplitN, TrimSpace and strconv.ParseUint are modelled, not encoded']
        c.coverage = dict(bounds='clusters of up to 4 codepoints and 8 digits each (and up to 64 with leading zeros); files of up to %d lines (entries, comments, blank lines), '
                          'every digit, comment character and the number of columns symbolic' % (5 if c.quick else 7))
    c.tasks(run1, list(zip(tasks)), names, task_limit=200 if c.quick else 1500)
    c.finish()
