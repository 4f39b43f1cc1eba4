"""Hash-consed bit-vector terms with normal forms, intervals, inversion and Z3 export.

A value is a Python int (concrete, unsigned) or a T (symbolic).  Booleans are
1-bit values.  Every constructor simplifies; the normal forms are
  lin   c + sum coef*atom  (mod 2^w)
  cat   concatenation of constant pieces and bit slices of atoms
  eq/ult/slt/not/band/bor, ite, and residual shl/lshr/ashr/and/or/xor/mul/udiv/urem
"""
import sys
sys.setrecursionlimit(200000)

MASK = [(1 << i) - 1 for i in range(260)]


class T:
    __slots__ = ('op', 'w', 'a', 'lo', 'hi', 'id', 'z', 'vars')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, w, a, lo=0, hi=None):
    key = (op, w, a)
    t = _tab.get(key)
    if t is None:
        if hi is not None and lo == hi:
            return lo
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.lo = lo
        t.hi = MASK[w] if hi is None else hi
        _n[0] += 1
        t.id = _n[0]
        t.z = None
        t.vars = None
        _tab[key] = t
    return t


def reset():
    """forget all terms (variables may then be redefined)"""
    _tab.clear()
    VARS.clear()
    _bz.clear()


def var(name, w, lo=0, hi=None):
    t = mk('v', w, (name,), lo, hi)
    if type(t) is T and (t.lo != lo or t.hi != (MASK[w] if hi is None else hi)):
        raise Exception('variable %s redefined with another range' % name)
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 6:
        return '..'
    if t.op == 'v':
        return t.a[0]
    if t.op == 'lin':
        c, ts = t.a
        s = []
        for k, x in ts:
            if k >> (t.w - 1):
                k -= 1 << t.w
            s.append(('%d*' % k if k != 1 else '') + show(x, d + 1))
        if c:
            s.append(str(c if c >> (t.w - 1) == 0 else c - (1 << t.w)))
        return '(' + ' + '.join(s) + ')'
    if t.op == 'cat':
        s = []
        for x, l, n in t.a:
            s.append('%d:%d' % (l, n) if x is None else '%s[%d+:%d]' % (show(x, d + 1), l, n))
        return '<' + '.'.join(s) + '>'
    return t.op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'


def lo(x):
    return x if type(x) is int else x.lo


def hi(x):
    return x if type(x) is int else x.hi


# ---------------------------------------------------------------- linear

def _parts(x, w):
    if type(x) is int:
        return x, ()
    if x.op == 'lin':
        return x.a
    if x.op == 'cat':
        p = x.a[-1]
        if p[0] is None:
            k = p[2]
            low = p[1]
            if low == 0 and k < w:
                up = mk_cat(((None, 0, k),) + x.a[:-1])
                if type(up) is int:
                    return (up << k) & MASK[w], ()
                return 0, ((1 << k, up),)
    return 0, ((1, x),)


def mk_lin(c, d, w):
    m = MASK[w]
    c &= m
    ts = []
    for x, k in d.items():
        k &= m
        if k:
            ts.append((k, x))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][0] == 1:
        return ts[0][1]
    if len(ts) > 1:
        ts.sort(key=_lk)
    ts = tuple(ts)
    key = ('lin', w, (c, ts))
    t = _tab.get(key)
    if t is not None:
        return t
    l, h = _lin_iv(c, ts, w)
    return mk('lin', w, (c, ts), l, h)


def _lk(p):
    return p[1].id


def _lin_iv(c, ts, w):
    half = 1 << (w - 1)
    full = 1 << w
    for cc in ((c - full, c) if c >= half else (c, c - full)):
        l = h = cc
        for k, x in ts:
            if k >= half:
                k -= full
                l += k * x.hi
                h += k * x.lo
            else:
                l += k * x.lo
                h += k * x.hi
        if 0 <= l and h < full:
            return l, h
    if l // full == h // full:
        return l % full, h % full
    return 0, full - 1


def exact(t):
    """(const, {atom: signed coef}) as an integer identity for t, or None if it may wrap"""
    if type(t) is int:
        return t, {}
    if t.op == 'cat':
        c, ts = _parts(t, t.w)
        if ts and ts[0][1] is not t:
            k, x = ts[0]
            if (x.hi * k) <= MASK[t.w]:
                return 0, {x: k}
        return 0, {t: 1}
    if t.op != 'lin':
        return 0, {t: 1}
    c, ts = t.a
    w = t.w
    half = 1 << (w - 1)
    full = 1 << w
    for cc in ((c - full, c) if c >= half else (c, c - full)):
        l = h = cc
        d = {}
        for k, x in ts:
            if k >= half:
                k -= full
                l += k * x.hi
                h += k * x.lo
            else:
                l += k * x.lo
                h += k * x.hi
            d[x] = k
        if 0 <= l and h < full:
            return cc, d
    return 0, {t: 1}


def diff_iv(x, y):
    """integer interval of x - y (as unsigned values)"""
    ex = exact(x)
    ey = exact(y)
    c = ex[0] - ey[0]
    d = dict(ex[1])
    for a, k in ey[1].items():
        d[a] = d.get(a, 0) - k
    l = h = c
    for a, k in d.items():
        if k > 0:
            l += k * a.lo
            h += k * a.hi
        elif k < 0:
            l += k * a.hi
            h += k * a.lo
    # also trivial bound
    l2 = lo(x) - hi(y)
    h2 = hi(x) - lo(y)
    return max(l, l2), min(h, h2)


def add(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return (x + y) & MASK[w]
        if x == 0:
            return y
    elif type(y) is int and y == 0:
        return x
    c1, t1 = _parts(x, w)
    c2, t2 = _parts(y, w)
    d = {}
    for k, a in t1:
        d[a] = d.get(a, 0) + k
    for k, a in t2:
        d[a] = d.get(a, 0) + k
    return mk_lin(c1 + c2, d, w)


def neg(x, w):
    if type(x) is int:
        return -x & MASK[w]
    c, ts = _parts(x, w)
    return mk_lin(-c, {a: -k for k, a in ts}, w)


def sub(x, y, w):
    if type(x) is int and type(y) is int:
        return (x - y) & MASK[w]
    if x is y:
        return 0
    return add(x, neg(y, w), w)


def mul(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return (x * y) & MASK[w]
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return x
        c, ts = _parts(x, w)
        d = {}
        for k, a in ts:
            d[a] = d.get(a, 0) + k * y
        return mk_lin(c * y, d, w)
    if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], mul(x.a[1], y, w), mul(x.a[2], y, w), w)
    if y.op == 'ite' and type(y.a[1]) is int and type(y.a[2]) is int:
        return ite(y.a[0], mul(y.a[1], x, w), mul(y.a[2], x, w), w)
    if x.id > y.id:
        x, y = y, x
    h = x.hi * y.hi
    l = x.lo * y.lo
    if h > MASK[w]:
        l, h = 0, MASK[w]
    return mk('mul', w, (x, y), l, h)


# ---------------------------------------------------------------- bits

def pieces(x, w):
    """msb-first tuple of (None,const,n) / (atom,low,n)"""
    if type(x) is int:
        return ((None, x & MASK[w], w),)
    if x.op == 'cat':
        return x.a
    if x.op == 'lin':
        p = _lin_pieces(x)
        if p is not None:
            return p
    hb = x.hi.bit_length()
    if hb < w:
        if hb == 0:
            return ((None, 0, w),)
        return ((None, 0, w - hb), (x, 0, hb))
    return ((x, 0, w),)


def _lin_pieces(t):
    """a sum of shifted values with disjoint bit ranges, as pieces"""
    c, ts = t.a
    w = t.w
    rng = []
    for k, x in ts:
        if k & (k - 1):
            return None
        s = k.bit_length() - 1
        n = x.hi.bit_length()
        if s + n > w:
            return None
        if n == 0:
            continue
        rng.append((s, n, x))
    rng.sort(key=lambda r: r[0])
    pos = 0
    out = []
    for s, n, x in rng:
        if s < pos:
            return None
        if s > pos:
            out.append((None, (c >> pos) & MASK[s - pos], s - pos))
        if (c >> s) & MASK[n]:
            return None
        out.append((x, 0, n))
        pos = s + n
    if pos < w:
        out.append((None, c >> pos, w - pos))
    out.reverse()
    return tuple(out)


def mk_cat(ps):
    out = []
    w = 0
    for p in ps:
        x, l, n = p
        if n == 0:
            continue
        w += n
        if x is None:
            if out and out[-1][0] is None:
                out[-1] = (None, (out[-1][1] << n) | l, out[-1][2] + n)
            else:
                out.append(p)
            continue
        if x.op == 'cat':
            for q in _sub_pieces(x.a, x.w, l, n):
                _push(out, q)
        else:
            _push(out, p)
    if len(out) == 1:
        x, l, n = out[0]
        if x is None:
            return l
        if l == 0 and n == x.w:
            return x
    elif len(out) == 2:
        q, p = out
        if q[0] is None and q[1] == 0 and p[0] is not None and p[1] == 0 and p[0].w == w and p[0].hi >> p[2] == 0:
            return p[0]
    out = tuple(out)
    key = ('cat', w, out)
    t = _tab.get(key)
    if t is not None:
        return t
    L = H = 0
    for x, l, n in out:
        if x is None:
            L = (L << n) | l
            H = (H << n) | l
        else:
            if (x.hi >> l) <= MASK[n]:
                L = (L << n) | (x.lo >> l)
                H = (H << n) | (x.hi >> l)
            elif (x.lo >> (l + n)) == (x.hi >> (l + n)):
                L = (L << n) | ((x.lo >> l) & MASK[n])
                H = (H << n) | ((x.hi >> l) & MASK[n])
            else:
                L <<= n
                H = (H << n) | MASK[n]
    return mk('cat', w, out, L, H)


def _push(out, p):
    x, l, n = p
    if x is None:
        if out and out[-1][0] is None:
            out[-1] = (None, (out[-1][1] << n) | l, out[-1][2] + n)
        else:
            out.append(p)
        return
    hb = x.hi.bit_length()
    if hb < l + n:
        k = max(hb - l, 0)
        _push(out, (None, 0, n - k))
        if k == 0:
            return
        n = k
    if out:
        y, l2, n2 = out[-1]
        if y is x and l2 == l + n:
            out[-1] = (x, l, n + n2)
            return
    out.append((x, l, n))


def _sub_pieces(ps, w, l, n):
    """pieces of bits l..l+n of a piece list of total width w (msb first)"""
    out = []
    top = w
    for x, pl, pn in ps:
        bot = top - pn
        a = max(bot, l)
        b = min(top, l + n)
        if a < b:
            if x is None:
                out.append((None, (pl >> (a - bot)) & MASK[b - a], b - a))
            else:
                out.append((x, pl + a - bot, b - a))
        top = bot
        if top <= l:
            break
    return out


def slice_(x, l, n, w):
    if type(x) is int:
        return (x >> l) & MASK[n]
    if l == 0 and n == w:
        return x
    if x.op == 'lin':
        c, ts = x.a
        if l == 0:
            m = MASK[n]
            if c > m or any(k > m for k, _ in ts):
                # drop coefficients that do not reach these bits
                d = {}
                ch = c > m
                for k, a in ts:
                    if k & m:
                        d[a] = k if k <= m else k
                    if not (k & m):
                        ch = True
                if ch and len(d) < len(ts):
                    y = mk_lin(c & m, d, w)
                    return slice_(y, 0, n, w)
        elif l:
            e = exact(x)
            if e[1] and x not in e[1]:
                g = 1 << l
                if e[0] % g == 0 and all(k % g == 0 for k in e[1].values()):
                    y = mk_lin(e[0] >> l, {a: k >> l for a, k in e[1].items()}, w)
                    return slice_(y, 0, n, w)
    elif x.op == 'ite':
        a, b = x.a[1], x.a[2]
        if type(a) is int or type(b) is int:
            return ite(x.a[0], slice_(a, l, n, w), slice_(b, l, n, w), n)
    elif x.op == 'xor' and type(x.a[-1]) is int and (x.a[-1] >> l) & MASK[n] == 0:
        l0 = x.a[:-1]
        return slice_(l0[0] if len(l0) == 1 else mk('xor', w, l0), l, n, w)
    elif x.op in ('xor', 'and', 'or') and n <= 8 and w <= 64:
        v = slice_(x.a[0], l, n, w)
        for y in x.a[1:]:
            v = bitop(x.op, v, slice_(y, l, n, w), n)
        return v
    return mk_cat(tuple(_sub_pieces(pieces(x, w), w, l, n)))


def zext(x, w0, w):
    if type(x) is int:
        return x
    if w0 == 1:
        if x.op == 'ite':
            pass
        return mk('ite', w, (x, 1, 0), 0, 1)
    if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], x.a[1], x.a[2], w)
    return mk_cat(((None, 0, w - w0),) + ((x, 0, w0),))


def sext(x, w0, w):
    if type(x) is int:
        return x if not x >> (w0 - 1) else (x | (MASK[w] ^ MASK[w0]))
    if x.hi >> (w0 - 1) == 0:
        return zext(x, w0, w)
    if w0 == 1:
        return mk('ite', w, (x, MASK[w], 0))
    if x.lo >> (w0 - 1):
        return mk_cat(((None, MASK[w - w0], w - w0), (x, 0, w0)))
    return mk('sext', w, (x,))


def trunc(x, w0, w):
    if type(x) is int:
        return x & MASK[w]
    if w == 1:
        if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
            a, b = x.a[1] & 1, x.a[2] & 1
            if a == b:
                return a
            return x.a[0] if a else not_(x.a[0])
    return slice_(x, 0, w, w0)


def shl(x, s, w):
    if type(s) is int:
        if s >= w:
            return 0
        if type(x) is int:
            return (x << s) & MASK[w]
        if s == 0:
            return x
        if x.op == 'lin':
            return mul(x, 1 << s, w)
        if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
            return ite(x.a[0], shl(x.a[1], s, w), shl(x.a[2], s, w), w)
        return mk_cat(tuple(_sub_pieces(pieces(x, w), w, 0, w - s)) + ((None, 0, s),))
    if x == 0 and type(x) is int:
        return 0
    hi_ = MASK[w]
    if s.hi < w and (hi(x) << s.hi) <= MASK[w]:
        hi_ = hi(x) << s.hi
    return mk('shl', w, (x, s), 0, hi_)


def lshr(x, s, w):
    if type(s) is int:
        if s >= w:
            return 0
        if type(x) is int:
            return x >> s
        if s == 0:
            return x
        y = slice_(x, s, w - s, w)
        return zext(y, w - s, w) if w - s > 1 else (y if type(y) is int else mk_cat(((None, 0, w - 1), (y, 0, 1))))
    if type(x) is int and x == 0:
        return 0
    return mk('lshr', w, (x, s), 0, hi(x) >> min(s.lo, w))


def ashr(x, s, w):
    if type(x) is int and type(s) is int:
        v = x - (1 << w) if x >> (w - 1) else x
        return (v >> min(s, w - 1)) & MASK[w]
    if hi(x) >> (w - 1) == 0:
        return lshr(x, s, w)
    return mk('ashr', w, (x, s))


def _align(pa, pb):
    """split two piece lists at common boundaries"""
    i = j = 0
    a = pa[0]
    b = pb[0]
    while True:
        n = min(a[2], b[2])
        yield _take(a, n), _take(b, n)
        if a[2] == n:
            i += 1
            a = pa[i] if i < len(pa) else None
        else:
            a = (a[0], a[1] & MASK[a[2] - n], a[2] - n) if a[0] is None else (a[0], a[1], a[2] - n)
        if b[2] == n:
            j += 1
            b = pb[j] if j < len(pb) else None
        else:
            b = (b[0], b[1] & MASK[b[2] - n], b[2] - n) if b[0] is None else (b[0], b[1], b[2] - n)
        if a is None:
            return


def _take(a, n):
    k = a[2] - n
    if k == 0:
        return a
    if a[0] is None:
        return (None, a[1] >> k, n)
    return (a[0], a[1] + k, n)


def _runs(v, n):
    """constant v of n bits as msb-first runs of equal bits"""
    out = []
    i = n
    while i > 0:
        b = (v >> (i - 1)) & 1
        j = i - 1
        while j > 0 and ((v >> (j - 1)) & 1) == b:
            j -= 1
        out.append((None, MASK[i - j] if b else 0, i - j))
        i = j
    return out


def _split_const(ps):
    out = []
    for p in ps:
        if p[0] is None:
            out.extend(_runs(p[1], p[2]))
        else:
            out.append(p)
    return out


def bitop(op, x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        x, y = y, x
    if x is y:
        return 0 if op == 'xor' else x
    if type(y) is int:
        if y == 0:
            return 0 if op == 'and' else x
        if y == MASK[w]:
            if op == 'and':
                return x
            if op == 'or':
                return y
            if w == 1:
                return not_(x)
    if w == 1:
        if op == 'and':
            return band(x, y)
        if op == 'or':
            return bor(x, y)
        if x.id > y.id:
            x, y = y, x
        return mk('xor', 1, (x, y))
    if type(y) is int and x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], bitop(op, x.a[1], y, w), bitop(op, x.a[2], y, w), w)
    pa = pieces(x, w)
    pb = pieces(y, w)
    if op != 'xor':
        pa = _split_const(pa)
        pb = _split_const(pb)
    out = []
    ok = True
    for p, q in _align(pa, pb):
        n = p[2]
        if p[0] is None and q[0] is None:
            v = p[1] & q[1] if op == 'and' else p[1] | q[1] if op == 'or' else p[1] ^ q[1]
            out.append((None, v, n))
            continue
        if p[0] is None:
            p, q = q, p
        if q[0] is None:
            if q[1] == 0:
                out.append(q if op == 'and' else p)
                continue
            if q[1] == MASK[n] and op != 'xor':
                out.append(p if op == 'and' else q)
                continue
        elif p == q:
            out.append((None, 0, n) if op == 'xor' else p)
            continue
        ok = False
        break
    if ok:
        return mk_cat(tuple(out))
    if op == 'xor':
        # flatten and cancel
        args = {}
        k = 0
        for t in (x, y):
            if type(t) is int:
                k ^= t
            elif t.op == 'xor':
                for u in t.a:
                    if type(u) is int:
                        k ^= u
                    elif u in args:
                        del args[u]
                    else:
                        args[u] = 1
            elif t in args:
                del args[t]
            else:
                args[t] = 1
        l = sorted(args, key=lambda t: t.id)
        if not l:
            return k
        if k:
            l.append(k)
        if len(l) == 1:
            return l[0]
        h = 0
        for t in l:
            h |= hi(t)
        return mk('xor', w, tuple(l), 0, MASK[h.bit_length()])
    if type(y) is not int and x.id > y.id:
        x, y = y, x
    if op == 'and':
        return mk('and', w, (x, y), 0, min(hi(x), hi(y)))
    return mk('or', w, (x, y), max(lo(x), lo(y)), MASK[max(hi(x).bit_length(), hi(y).bit_length())])


def and_(x, y, w):
    return bitop('and', x, y, w)


def or_(x, y, w):
    return bitop('or', x, y, w)


def xor(x, y, w):
    return bitop('xor', x, y, w)


def fshl(x, y, s, w):
    if type(s) is int:
        s %= w
        if s == 0:
            return x
        return mk_cat(tuple(_sub_pieces(pieces(x, w), w, 0, w - s)) + tuple(_sub_pieces(pieces(y, w), w, w - s, s)))
    if type(x) is int and type(y) is int and x == y and x in (0, MASK[w]):
        return x
    return mk('fshl', w, (x, y, s))


def udiv(x, y, w):
    if type(y) is int:
        if type(x) is int:
            return x // y
        if y & (y - 1) == 0:
            return lshr(x, y.bit_length() - 1, w)
        return mk('udiv', w, (x, y), x.lo // y, x.hi // y)
    return mk('udiv', w, (x, y))


def urem(x, y, w):
    if type(y) is int:
        if type(x) is int:
            return x % y
        if y & (y - 1) == 0:
            return and_(x, y - 1, w)
        if x.hi < y:
            return x
        return mk('urem', w, (x, y), 0, y - 1)
    return mk('urem', w, (x, y))


# ---------------------------------------------------------------- booleans

def not_(x):
    if type(x) is int:
        return 1 - x
    if x.op == 'not':
        return x.a[0]
    return mk('not', 1, (x,))


def _flat(op, xs):
    s = {}
    for x in xs:
        if type(x) is not int and x.op == op:
            for y in x.a:
                s[y] = 1
        elif type(x) is int:
            if x == (0 if op == 'band' else 1):
                return None
        else:
            s[x] = 1
    return s


def band(*xs):
    s = _flat('band', xs)
    if s is None:
        return 0
    for x in s:
        if x.op == 'not' and x.a[0] in s:
            return 0
    # absorption:  a & (not a | b) -> a & b ;  a & (a | b) -> a
    for x in list(s):
        if x.op == 'bor':
            keep = []
            drop = False
            for y in x.a:
                if y in s:
                    drop = True
                    break
                if not_(y) not in s:
                    keep.append(y)
            if drop:
                del s[x]
            elif len(keep) < len(x.a):
                del s[x]
                return band(bor(*keep), *s)
    if not s:
        return 1
    if len(s) == 1:
        return next(iter(s))
    return mk('band', 1, tuple(sorted(s, key=lambda t: t.id)))


def bor(*xs):
    s = _flat('bor', xs)
    if s is None:
        return 1
    for x in s:
        if x.op == 'not' and x.a[0] in s:
            return 1
    for x in list(s):
        if x.op == 'band':
            keep = []
            drop = False
            for y in x.a:
                if y in s:
                    drop = True
                    break
                if not_(y) not in s:
                    keep.append(y)
            if drop:
                del s[x]
            elif len(keep) < len(x.a):
                del s[x]
                return bor(band(*keep), *s)
    if not s:
        return 0
    if len(s) == 1:
        return next(iter(s))
    return mk('bor', 1, tuple(sorted(s, key=lambda t: t.id)))


def ite(c, x, y, w):
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if c.op == 'not':
        c, x, y = c.a[0], y, x
    if type(x) is T and x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if type(y) is T and y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if w == 1:
        if type(x) is int:
            return bor(c, y) if x else band(not_(c), y)
        if type(y) is int:
            return bor(not_(c), x) if y else band(c, x)
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if type(y) is T and y.op == 'ite' and (y.a[1] is x or (type(x) is int and type(y.a[1]) is int and x == y.a[1])):
        return ite(bor(c, y.a[0]), x, y.a[2], w)
    return mk('ite', w, (c, x, y), min(lo(x), lo(y)), max(hi(x), hi(y)))


def eq(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return 1 if x == y else 0
        x, y = y, x
    if x is y:
        return 1
    if type(y) is int:
        return _eqk(x, y, w)
    if x.hi < y.lo or y.hi < x.lo:
        return 0
    if w == 1:
        return not_(xor(x, y, 1))
    d = sub(x, y, w)
    if type(d) is int:
        return 1 if d == 0 else 0
    l, h = diff_iv(x, y)
    if l > 0 or h < 0:
        return 0
    if d.op == 'lin':
        if d.lo > 0:
            return 0
        c, ts = d.a
        if len(ts) == 1:
            return _eqk(d, 0, w)
        # canonical sign
        if ts[0][0] >> (w - 1):
            d = neg(d, w)
            c, ts = d.a
        # canonical (atom part) == const
        return mk('eq', 1, (d, 0))
    return _eqk(d, 0, w)


def _eqk(x, K, w):
    while True:
        if type(x) is int:
            return 1 if x == K else 0
        if K < x.lo or K > x.hi:
            return 0
        if w == 1:
            return x if K else not_(x)
        op = x.op
        if op == 'lin':
            c, ts = x.a
            if len(ts) == 1:
                k, a = ts[0]
                v = (K - c) & MASK[w]
                if k & 1:
                    K = v * pow(k, -1, 1 << w) & MASK[w]
                    x = a
                    continue
                s = (k & -k).bit_length() - 1
                if v & MASK[s]:
                    return 0
                k >>= s
                v >>= s
                v = v * pow(k, -1, 1 << (w - s)) & MASK[w - s]
                x = slice_(a, 0, w - s, w)
                w -= s
                K = v
                continue
        elif op == 'cat':
            ps = x.a
            # constant pieces must match
            pos = w
            rest = []
            changed = False
            for a, l, n in ps:
                pos -= n
                kv = (K >> pos) & MASK[n]
                if a is None:
                    if kv != l:
                        return 0
                    changed = True
                else:
                    rest.append((a, l, n, kv))
            a0 = rest[0][0]
            if all(r[0] is a0 for r in rest):
                cov = sorted((r[1], r[2], r[3]) for r in rest)
                p = 0
                v = 0
                ok = True
                for l, n, kv in cov:
                    if l != p:
                        ok = False
                        break
                    v |= kv << l
                    p += n
                if ok and (p == a0.w or a0.hi >> p == 0):
                    x = a0
                    K = v
                    w = a0.w
                    continue
            if changed:
                x = mk_cat(tuple(r[:3] for r in rest))
                K2 = 0
                for r in rest:
                    K2 = (K2 << r[2]) | r[3]
                return mk('eq', 1, (x, K2))
            if len(rest) > 1:
                return band(*[eq(mk_cat((r[:3],)), r[3], r[2]) for r in rest])
        elif op == 'xor':
            if type(x.a[-1]) is int:
                K ^= x.a[-1]
                l = x.a[:-1]
                x = l[0] if len(l) == 1 else mk('xor', w, l)
                continue
            if len(x.a) == 2:
                a, b = x.a
                for a, b in ((a, b), (b, a)):
                    # b == a >> s
                    if type(b) is T and b.op == 'cat' and len(b.a) == 2 and b.a[0][0] is None and b.a[0][1] == 0 \
                            and b.a[1][0] is a and b.a[1][1] + b.a[1][2] == w and b.a[0][2] == b.a[1][1]:
                        s = b.a[1][1]
                        v = K
                        i = s
                        while i < w:
                            v = K ^ (v >> s)
                            i += s
                        x = a
                        K = v
                        break
                else:
                    return mk('eq', 1, (x, K))
                continue
        elif op == 'ite':
            c, a, b = x.a
            if type(a) is int and type(b) is int:
                return c if a == K else (not_(c) if b == K else 0)
            if type(a) is int and a != K:
                return band(not_(c), _eqk(b, K, w))
            if type(b) is int and b != K:
                return band(c, _eqk(a, K, w))
        return mk('eq', 1, (x, K))


def ult(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if x < y else 0
    if x is y:
        return 0
    if hi(x) < lo(y):
        return 1
    if lo(x) >= hi(y):
        return 0
    if type(x) is T and type(y) is T:
        l, h = diff_iv(x, y)
        if h < 0:
            return 1
        if l >= 0:
            return 0
        ex, ey = exact(x), exact(y)
        d = dict(ex[1])
        for a, k in ey[1].items():
            d[a] = d.get(a, 0) - k
        d = {a: k for a, k in d.items() if k}
        if len(d) == 1:
            # reduces to a comparison of one atom with a constant:  c + k*a < 0
            c = ex[0] - ey[0]
            (a, k), = d.items()
            if k > 0:
                n = (-c + k - 1) // k          # a < n
                return ult(a, n, a.w) if n <= MASK[a.w] else 1
            n = c // -k                        # a > n
            if n < 0:
                return 1
            return ult(n, a, a.w) if n <= MASK[a.w] else 0
    if type(x) is T and x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], ult(x.a[1], y, w), ult(x.a[2], y, w), 1)
    if type(y) is T and y.op == 'ite' and type(y.a[1]) is int and type(y.a[2]) is int:
        return ite(y.a[0], ult(x, y.a[1], w), ult(x, y.a[2], w), 1)
    # move constants of exact linear forms to the constant side
    if type(y) is int:
        if type(x) is T and x.op == 'lin':
            e = exact(x)
            if e[1] and x not in e[1] and len(e[1]) == 1:
                (a, k), = e[1].items()
                if k > 0:
                    n = (y - e[0] + k - 1) // k
                    return ult(a, max(n, 0), a.w)
                n = (e[0] - y) // -k
                return ult(n, a, a.w) if n >= 0 else 1
        if y == 1:
            return eq(x, 0, w)
        # canonical: not (y-1 < x)
        return not_(ult(y - 1, x, w))
    if type(x) is int:
        if y.op == 'lin':
            e = exact(y)
            if e[1] and y not in e[1] and len(e[1]) == 1:
                (a, k), = e[1].items()
                if k > 0:
                    n = (x - e[0]) // k          # a > n
                    return ult(n, a, a.w) if n >= 0 else 1
                # x < c - |k| a  ->  |k| a < c - x -> a < ceil
                n = (e[0] - x + (-k) - 1) // -k
                return ult(a, max(n, 0), a.w)
        if x == MASK[w] - 1 and False:
            pass
        if y.op == 'cat' and y.a[0][0] is None and len(y.a) == 2 and y.a[0][1] == 0:
            a, l, n = y.a[1]
            if l == 0 and n == a.w:
                return ult(x, a, n) if x <= MASK[n] else 0
    return mk('ult', 1, (x, y))


def ule(x, y, w):
    return not_(ult(y, x, w))


def slt(x, y, w):
    s = 1 << (w - 1)
    if type(x) is int and type(y) is int:
        return 1 if (x ^ s) < (y ^ s) else 0
    sx0, sx1 = lo(x) >> (w - 1), hi(x) >> (w - 1)
    sy0, sy1 = lo(y) >> (w - 1), hi(y) >> (w - 1)
    if sx0 == sx1 and sy0 == sy1:
        if sx0 == sy0:
            return ult(x, y, w)
        return sx0
    if type(y) is int and y == 0:
        return slice_(x, w - 1, 1, w)
    if type(x) is int and x == MASK[w]:   # -1 < y
        return not_(slice_(y, w - 1, 1, w))
    return mk('slt', 1, (x, y))


# ---------------------------------------------------------------- evaluation

def evalt(t, env, memo):
    """evaluate under env: name -> int (default lo)"""
    if type(t) is int:
        return t
    v = memo.get(t)
    if v is not None:
        return v
    op, w, a = t.op, t.w, t.a
    if op == 'v':
        v = env.get(a[0])
        if v is None:
            v = t.lo
    elif op == 'lin':
        v = a[0]
        for k, x in a[1]:
            v += k * evalt(x, env, memo)
        v &= MASK[w]
    elif op == 'cat':
        v = 0
        for x, l, n in a:
            v <<= n
            v |= l if x is None else (evalt(x, env, memo) >> l) & MASK[n]
    elif op == 'ite':
        v = evalt(a[1] if evalt(a[0], env, memo) else a[2], env, memo)
    elif op == 'not':
        v = 1 - evalt(a[0], env, memo)
    elif op == 'band':
        v = 1
        for x in a:
            if not evalt(x, env, memo):
                v = 0
                break
    elif op == 'bor':
        v = 0
        for x in a:
            if evalt(x, env, memo):
                v = 1
                break
    else:
        b = [evalt(x, env, memo) for x in a]
        if op == 'eq':
            v = 1 if b[0] == b[1] else 0
        elif op == 'ult':
            v = 1 if b[0] < b[1] else 0
        elif op == 'slt':
            s = 1 << (aw(a) - 1)
            v = 1 if (b[0] ^ s) < (b[1] ^ s) else 0
        elif op == 'xor':
            v = 0
            for x in b:
                v ^= x
        elif op == 'and':
            v = b[0] & b[1]
        elif op == 'or':
            v = b[0] | b[1]
        elif op == 'mul':
            v = b[0] * b[1] & MASK[w]
        elif op == 'shl':
            v = (b[0] << b[1]) & MASK[w] if b[1] < w else 0
        elif op == 'lshr':
            v = b[0] >> b[1]
        elif op == 'ashr':
            v = ashr(b[0], b[1], w)
        elif op == 'sext':
            v = sext(b[0], a[0].w, w)
        elif op == 'fshl':
            s = b[2] % w
            v = ((b[0] << s) | (b[1] >> (w - s))) & MASK[w] if s else b[0]
        elif op == 'udiv':
            v = b[0] // b[1] if b[1] else MASK[w]
        elif op == 'urem':
            v = b[0] % b[1] if b[1] else b[0]
        else:
            raise Exception('eval ' + op)
    memo[t] = v
    return v


def aw(a):
    return a[0].w if type(a[0]) is T else a[1].w


def term_vars(t):
    """frozenset of variable names"""
    if type(t) is int:
        return frozenset()
    if t.vars is not None:
        return t.vars
    s = set()
    if t.op == 'v':
        s.add(t.a[0])
    elif t.op == 'lin':
        for _, x in t.a[1]:
            s |= term_vars(x)
    elif t.op == 'cat':
        for x, _, _ in t.a:
            if x is not None:
                s |= term_vars(x)
    else:
        for x in t.a:
            if type(x) is T:
                s |= term_vars(x)
    t.vars = frozenset(s)
    return t.vars


def subst(t, env, memo):
    """replace variables by values/terms; env: name -> value"""
    if type(t) is int:
        return t
    v = memo.get(t)
    if v is not None:
        return v
    if not (term_vars(t) & env.keys()):
        memo[t] = t
        return t
    op, w, a = t.op, t.w, t.a
    if op == 'v':
        v = env[a[0]]
    elif op == 'lin':
        v = a[0]
        for k, x in a[1]:
            v = add(v, mul(subst(x, env, memo), k, w), w)
    elif op == 'cat':
        ps = []
        for x, l, n in a:
            if x is None:
                ps.append((None, l, n))
            else:
                y = slice_(subst(x, env, memo), l, n, x.w)
                ps.append((None, y, n) if type(y) is int else (y, 0, n))
        v = mk_cat(tuple(ps))
    else:
        b = [subst(x, env, memo) for x in a]
        if op == 'ite':
            v = ite(b[0], b[1], b[2], w)
        elif op == 'not':
            v = not_(b[0])
        elif op == 'band':
            v = band(*b)
        elif op == 'bor':
            v = bor(*b)
        elif op == 'eq':
            v = eq(b[0], b[1], aw(a))
        elif op == 'ult':
            v = ult(b[0], b[1], aw(a))
        elif op == 'slt':
            v = slt(b[0], b[1], aw(a))
        elif op == 'xor':
            v = b[0]
            for x in b[1:]:
                v = xor(v, x, w)
        elif op in ('and', 'or'):
            v = bitop(op, b[0], b[1], w)
        elif op == 'mul':
            v = mul(b[0], b[1], w)
        elif op == 'shl':
            v = shl(b[0], b[1], w)
        elif op == 'lshr':
            v = lshr(b[0], b[1], w)
        elif op == 'ashr':
            v = ashr(b[0], b[1], w)
        elif op == 'sext':
            v = sext(b[0], a[0].w, w)
        elif op == 'fshl':
            v = fshl(b[0], b[1], b[2], w)
        elif op == 'udiv':
            v = udiv(b[0], b[1], w)
        elif op == 'urem':
            v = urem(b[0], b[1], w)
        else:
            raise Exception('subst ' + op)
    memo[t] = v
    return v


# ---------------------------------------------------------------- Z3

_z3 = None
_side = {}


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


def z3var_constraints(names_terms):
    pass


VARS = {}


def toz(t, w):
    """term -> z3 BitVec of width w"""
    z3 = z3mod()
    if type(t) is int:
        return z3.BitVecVal(t, w)
    if t.z is not None:
        return t.z if t.w > 1 or not z3.is_bool(t.z) else z3.If(t.z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if t.w == 1 and t.op not in ('v', 'cat', 'ite', 'lin', 'and', 'or', 'xor'):
        b = tob(t)
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    op, a = t.op, t.a
    w = t.w
    if op == 'v':
        n = max(t.hi.bit_length(), 1)
        v = z3.BitVec(a[0], n)
        if n < w:
            z = z3.ZeroExt(w - n, v)
        else:
            z = v
        cons = []
        if t.hi != MASK[n]:
            cons.append(z3.ULE(v, t.hi))
        if t.lo:
            cons.append(z3.UGE(v, t.lo))
        VARS[a[0]] = (t, v, cons)
    elif op == 'lin':
        n = max(t.hi.bit_length(), 1)
        z = _lin_z(a[0], a[1], w, n)
        if n < w:
            z = z3.ZeroExt(w - n, z)
    elif op == 'cat':
        zs = []
        for x, l, n in a:
            if x is None:
                zs.append(z3.BitVecVal(l, n))
            else:
                zx = toz(x, x.w)
                zs.append(zx if l == 0 and n == x.w else z3.Extract(l + n - 1, l, zx))
        z = zs[0] if len(zs) == 1 else z3.Concat(*zs)
    elif op == 'ite':
        z = z3.If(tob(a[0]), toz(a[1], w), toz(a[2], w))
    elif op == 'xor':
        z = toz(a[0], w)
        for x in a[1:]:
            z = z ^ toz(x, w)
    elif op == 'and':
        z = toz(a[0], w) & toz(a[1], w)
    elif op == 'or':
        z = toz(a[0], w) | toz(a[1], w)
    elif op == 'mul':
        z = toz(a[0], w) * toz(a[1], w)
    elif op == 'shl':
        z = toz(a[0], w) << toz(a[1], w)
    elif op == 'lshr':
        z = z3.LShR(toz(a[0], w), toz(a[1], w))
    elif op == 'ashr':
        z = toz(a[0], w) >> toz(a[1], w)
    elif op == 'sext':
        z = z3.SignExt(w - a[0].w, toz(a[0], a[0].w))
    elif op == 'fshl':
        m = toz(a[2], w)
        m = z3.URem(m, z3.BitVecVal(w, w))
        z = z3.If(m == 0, toz(a[0], w), (toz(a[0], w) << m) | z3.LShR(toz(a[1], w), z3.BitVecVal(w, w) - m))
    elif op == 'udiv':
        z = z3.UDiv(toz(a[0], w), toz(a[1], w))
    elif op == 'urem':
        z = z3.URem(toz(a[0], w), toz(a[1], w))
    else:
        raise Exception('toz ' + op)
    t.z = z
    return z


def _low(x, n):
    """z3 expression of width n for the low n bits of x"""
    if type(x) is int:
        return z3mod().BitVecVal(x & MASK[n], n)
    if x.w == n:
        return toz(x, n)
    if x.op == 'v':
        toz(x, x.w)
        v = VARS[x.a[0]][1]
        k = v.size()
        if k == n:
            return v
        if k < n:
            return z3mod().ZeroExt(n - k, v)
    if x.w > n:
        return z3mod().Extract(n - 1, 0, toz(x, x.w))
    return z3mod().ZeroExt(n - x.w, toz(x, x.w))


def _lin_z(c, ts, w, n):
    """sum mod 2^n (n <= w)"""
    z3 = z3mod()
    z = None
    negs = []
    for k, x in ts:
        zz = _low(x, n)
        if k >> (w - 1):
            k = (1 << w) - k
            if k & MASK[n]:
                negs.append(zz if k == 1 else zz * z3.BitVecVal(k & MASK[n], n))
            continue
        if not k & MASK[n]:
            continue
        if k != 1:
            zz = zz * z3.BitVecVal(k & MASK[n], n)
        z = zz if z is None else z + zz
    c &= MASK[n]
    if z is None:
        z = z3.BitVecVal(c, n)
    elif c:
        z = z + z3.BitVecVal(c, n)
    for q in negs:
        z = z - q
    return z


def _side_split(c, ts, w):
    """c + sum = 0 as (positive side, negative side, bits) over the integers when no side can wrap"""
    half = 1 << (w - 1)
    full = 1 << w
    if c >= half:
        c -= full
    P = [0, {}]
    N = [0, {}]
    if c >= 0:
        P[0] = c
    else:
        N[0] = -c
    hp = P[0]
    hn = N[0]
    for k, x in ts:
        if k >= half:
            N[1][x] = full - k
            hn += (full - k) * x.hi
        else:
            P[1][x] = k
            hp += k * x.hi
    m = max(hp, hn)
    if m >= half:
        return None
    return P, N, max(m.bit_length(), 1)


_bz = {}


def tob(t):
    """1-bit term -> z3 Bool"""
    z3 = z3mod()
    if type(t) is int:
        return z3.BoolVal(bool(t))
    b = _bz.get(t)
    if b is not None:
        return b
    op, a = t.op, t.a
    if op == 'not':
        b = z3.Not(tob(a[0]))
    elif op == 'band':
        b = z3.And(*[tob(x) for x in a])
    elif op == 'bor':
        b = z3.Or(*[tob(x) for x in a])
    elif op == 'eq':
        w = aw(a)
        x, y = a
        b = None
        if type(y) is int and y == 0 and x.op == 'lin':
            r = _side_split(x.a[0], x.a[1], w)
            if r is not None:
                P, N, n = r
                b = _lin_z(P[0], [(k, q) for q, k in P[1].items()], w, n) == _lin_z(N[0], [(k, q) for q, k in N[1].items()], w, n)
        if b is None:
            n = max(hi(x).bit_length(), hi(y).bit_length(), 1)
            b = _low(x, n) == _low(y, n)
    elif op == 'ult':
        w = aw(a)
        x, y = a
        n = max(hi(x).bit_length(), hi(y).bit_length(), 1)
        b = z3.ULT(_low(x, n), _low(y, n))
    elif op == 'slt':
        w = aw(a)
        b = toz(a[0], w) < toz(a[1], w)
    elif op == 'ite':
        b = z3.If(tob(a[0]), tob(a[1]), tob(a[2]))
    elif op == 'xor':
        b = tob(a[0])
        for x in a[1:]:
            b = z3.Xor(b, tob(x))
    else:
        b = toz(t, 1) == z3.BitVecVal(1, 1)
    _bz[t] = b
    return b


def narrow(t):
    """z3-friendlier form for comparisons of exact terms is produced by toz directly"""
    return t
