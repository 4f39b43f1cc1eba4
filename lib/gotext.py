"""Text with symbolic characters for the Go executor: models of the string library and of the
formatting verbs the generator uses.  A hexadecimal digit is kept together with the nibble it shows
(DIG), so that text printed from a symbolic word reads back as that word."""
import sym as S

T = S.T
DIG = {}
HEX = b'0123456789abcdefABCDEF'


class Blob:
    """quoted text of no interest: no line break, no unescaped quote"""

    def __repr__(self):
        return '<quoted>'


BLOB = Blob()


class Num:
    """a symbolic number printed without padding, in base 10 or 16"""

    def __init__(self, v, w, base):
        self.v = v
        self.w = w
        self.base = base

    def __eq__(self, b):
        return type(b) is Num and self.v is b.v and self.base == b.base

    def __hash__(self):
        return hash((self.v, self.base))


def setup(g):
    globals().update(Str=g.Str, OPAQUE=g.OPAQUE, Iface=g.Iface, Unsupported=g.Unsupported, Panic=g.Panic, runes=g.runes,
                     slen=g.slen, utf8=g.utf8, Ptr=g.Ptr)


def digit(nib, upper=False):
    """rune of a hexadecimal digit"""
    if type(nib) is int:
        return (b'0123456789ABCDEF' if upper else b'0123456789abcdef')[nib]
    z = S.zext(nib, 4, 32)
    t = S.ite(S.ult(nib, 10, 4), S.add(z, 48, 32), S.add(z, 55 if upper else 87, 32), 32)
    if len(DIG) > 200000:
        DIG.clear()
    DIG[t] = (nib, upper)
    return t


def value(m, v):
    """the nibble a character shows, None if it is no digit"""
    if type(v) is int:
        return int(chr(v), 16) if v < 128 and v in HEX else None
    if v in DIG:
        return DIG[v][0]
    if v is not BLOB and type(v) is not Num and not m.branch(S.bor(*[S.eq(v, c, v.w) for c in HEX])):
        return None
    raise Unsupported('digit value of a symbolic character')


def norm(rs):
    rs = list(rs)
    if all(type(v) is int for v, _ in rs):
        return b''.join(utf8(v) if n != 1 or v < 128 else bytes([v]) for v, n in rs)
    return Str(rs)


def cat(*xs):
    if any(x is OPAQUE for x in xs):
        return OPAQUE
    if all(type(x) is bytes for x in xs):
        return b''.join(xs)
    out = []
    for x in xs:
        out += runes(x)
    return norm(out)


def is_char(m, v, c):
    if type(v) is int:
        return v == c
    if type(v) is Num:
        if not (48 <= c <= 57 or v.base == 16 and c < 128 and c in HEX):
            return False
        raise Unsupported('inside a printed number')
    if v is BLOB:
        if c in (10, 13):
            return False
        raise Unsupported('inside quoted text')
    if v in DIG:
        nib, up = DIG[v]
        if not (48 <= c <= 57 or (65 <= c <= 70 if up else 97 <= c <= 102)):
            return False
        return m.branch(S.eq(nib, int(chr(c), 16), 4))
    return m.branch(S.eq(v, c, v.w))


SPACES = (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) + tuple(range(0x2000, 0x200b))


def is_in(m, v, cs):
    if type(v) is int:
        return v in cs
    if v is BLOB or type(v) is Num:
        return False
    if v in DIG:
        return any(is_char(m, v, c) for c in cs if c < 128 and c in HEX)
    return m.branch(S.bor(*[S.eq(v, c, v.w) for c in cs]))


def at(m, rs, i, sep):
    return i + len(sep) <= len(rs) and all(is_char(m, rs[i + k][0], c) for k, (c, _) in enumerate(sep))


def index(m, rs, sep, start=0):
    for i in range(start, len(rs) - len(sep) + 1):
        if at(m, rs, i, sep):
            return i
    return -1


def need(x):
    if type(x) is bytes or type(x) is Str:
        return x
    raise Unsupported('library function on formatted text')


def split(m, x, sep, n=-1):
    need(x)
    if type(sep) is not bytes:
        raise Unsupported('symbolic separator')
    if n == 0:
        return None
    rs, sp = runes(x), runes(sep)
    if not sp:
        parts = [norm([r]) for r in rs]
        if n > 0 and len(parts) > n:
            parts = parts[:n - 1] + [norm(rs[n - 1:])]
        return parts
    out = []
    a = 0
    while n < 0 or len(out) < n - 1:
        i = index(m, rs, sp, a)
        if i < 0:
            break
        out.append(norm(rs[a:i]))
        a = i + len(sp)
    out.append(norm(rs[a:]))
    return out


def trim(m, x, cs, left=True, right=True):
    rs = runes(need(x))
    a, b = 0, len(rs)
    while left and a < b and is_in(m, rs[a][0], cs):
        a += 1
    while right and b > a and is_in(m, rs[b - 1][0], cs):
        b -= 1
    return norm(rs[a:b])


def cutset(x):
    if type(x) is not bytes:
        raise Unsupported('symbolic set of characters')
    return tuple(v for v, _ in runes(x))


def fields(m, x):
    out, cur = [], []
    for r in runes(need(x)):
        if is_in(m, r[0], SPACES):
            if cur:
                out.append(norm(cur))
            cur = []
        else:
            cur.append(r)
    if cur:
        out.append(norm(cur))
    return out


def byte_at(x, i):
    return slen(norm(runes(x)[:i])) if i >= 0 else (1 << 64) - 1


def has_prefix(m, x, p):
    return int(at(m, runes(need(x)), 0, runes(p))) if len(runes(p)) <= len(runes(x)) else 0


def has_suffix(m, x, p):
    rs, ps = runes(need(x)), runes(p)
    return int(at(m, rs, len(rs) - len(ps), ps)) if len(ps) <= len(rs) else 0


def case(x, upper):
    if x is OPAQUE:
        return x
    out = []
    for v, n in runes(x):
        if type(v) is int:
            c = chr(v).upper() if upper else chr(v).lower()
            if v > 127 and (len(c) != 1 or c != chr(v)):
                raise Unsupported('letter case of U+%04X' % v)
            v = ord(c)
        elif v in DIG:
            v = digit(DIG[v][0], upper)
        else:
            raise Unsupported('letter case of a symbolic character')
        out.append((v, n))
    return norm(out)


def cut(m, x, sep):
    rs = runes(need(x))
    sp = runes(sep)
    i = index(m, rs, sp)
    if i < 0:
        return (x, b'', 0)
    return (norm(rs[:i]), norm(rs[i + len(sp):]), 1)


def replace(m, x, a, b, n=-1):
    ps = split(m, x, a, n + 1 if n >= 0 else -1)
    out = ps[0]
    for p in ps[1:]:
        out = cat(out, b, p)
    return out


ERR = None


def parse(m, x, base, bits, signed=False):
    """strconv.ParseUint / ParseInt"""
    bad = lambda: (0, Iface(-1, OPAQUE))
    bits = bits or 64
    rs = runes(need(x))
    neg = False
    if signed and rs and type(rs[0][0]) is int and rs[0][0] in b'+-':
        neg = rs[0][0] == 45
        rs = rs[1:]
    if base == 0:
        base = 10
        if len(rs) > 1 and is_char(m, rs[0][0], 48):
            if type(rs[1][0]) is int and rs[1][0] in b'xX':
                base, rs = 16, rs[2:]
            else:
                raise Unsupported('base of a number')
    if not rs:
        return bad()
    ns = [value(m, v) for v, _ in rs]
    if any(n is None or type(n) is int and n >= base for n in ns):
        return bad()
    if all(type(n) is int for n in ns):
        v = 0
        for n in ns:
            v = v * base + n
        if v >= 1 << (bits - (1 if signed else 0)):
            return ((1 << bits) - 1, Iface(-1, OPAQUE))
        return ((-v if neg else v) & ((1 << 64) - 1), None)
    if signed and neg:
        raise Unsupported('negative symbolic number')
    if base != 16:
        if base ** len(ns) >= 1 << 63 or len(ns) * 3.33 > bits:
            raise Unsupported('long number of symbolic digits in base %d' % base)
        v = 0
        for n in ns:
            if type(n) is not int and not m.branch(S.ult(n, base, 4)):
                return bad()
            v = S.add(S.mul(v, base, 64), n if type(n) is int else S.zext(n, 4, 64), 64)
        return (v, None)
    while len(ns) > 16:
        if not m.branch(S.eq(ns[0], 0, 4)):
            return ((1 << bits) - 1, Iface(-1, OPAQUE))
        ns = ns[1:]
    v = S.mk_cat(tuple((None, n, 4) if type(n) is int else (n, 0, 4) for n in ns)) if len(ns) > 1 else ns[0]
    v = S.zext(v, 4 * len(ns), 64) if 4 * len(ns) < 64 else v
    lim = bits - (1 if signed else 0)
    if lim < 4 * len(ns) and not m.branch(S.ult(v, 1 << lim, 64)):
        return ((1 << bits) - 1, Iface(-1, OPAQUE))
    return (v, None)


def hexnum(m, v, w, upper):
    """digits of a w-bit number without leading zeros"""
    if type(v) is int:
        return ('%X' if upper else '%x').__mod__(v).encode()
    return Str([(Num(v, w, 16), None)])


def hexpad(m, v, w, upper, width):
    n = (w + 3) // 4
    if type(v) is not int and width < n and S.hi(v) >> 4 * width == 0:
        return norm([(digit(S.slice_(v, 4 * (width - 1 - i), 4, w), upper), 1) for i in range(width)])
    if type(v) is not int and width < n:
        return OPAQUE if width > 1 else hexnum(m, v, w, upper)
    if type(v) is int:
        s = hexnum(m, v, w, upper)
        return cat(b'0' * max(0, width - slen(s)), s)
    z = S.zext(v, w, 4 * n) if 4 * n > w else v
    return norm([(48, 1)] * (width - n) + [(digit(S.slice_(z, 4 * (n - 1 - i), 4, 4 * n), upper), 1) for i in range(n)])


def quote(x):
    if type(x) is bytes and all(32 <= c < 127 for c in x):
        return b'"' + x.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'
    return Str([(34, 1), (BLOB, None), (34, 1)])


def pick(m, v):
    """a number that is one of a few constants: which one (forks)"""
    ks = set()

    def leaves(x):
        if type(x) is int:
            ks.add(x)
            return len(ks) <= 32
        return x.op == 'ite' and leaves(x.a[1]) and leaves(x.a[2])
    if not leaves(v):
        if S.hi(v) - S.lo(v) > 200:
            return v
        ks = range(S.lo(v), S.hi(v) + 1)
    ks = sorted(ks)
    for k in ks[:-1]:
        if m.branch(S.eq(v, k, v.w)):
            return k
    return ks[-1]


def sprintf(m, f, args):
    if type(f) is not bytes:
        return OPAQUE
    out = [b'']
    i = 0
    k = 0
    while i < len(f):
        if f[i] != 37:
            j = f.find(b'%', i)
            j = len(f) if j < 0 else j
            out.append(f[i:j])
            i = j
            continue
        i += 1
        flags = b''
        while i < len(f) and f[i] in b'-0#+ ':
            flags += f[i:i + 1]
            i += 1
        width = b''
        while i < len(f) and 48 <= f[i] <= 57:
            width += f[i:i + 1]
            i += 1
        if i >= len(f) or f[i] in b'*.[':
            return OPAQUE
        verb = chr(f[i])
        i += 1
        if verb == '%':
            out.append(b'%')
            continue
        if k >= len(args):
            return OPAQUE
        a = args[k]
        k += 1
        if type(a) is not Iface or set(flags) - set(b'-0#'):
            return OPAQUE
        v = a.v
        wd = int(width or 0)
        if type(v) is T and verb in 'dv':
            v = pick(m, v)
        if isinstance(v, (bytes, Str)):
            if verb in 'sv' and b'#' not in flags:
                s = v
            elif verb == 'q':
                s = quote(v)
            else:
                return OPAQUE
        elif isinstance(v, (int, T)) and a.t >= 0 and m.p.width(a.t) and m.p.types[a.t]['k'] == 'basic':
            w, sg = m.p.width(a.t)
            if verb in 'xX' and (not sg or S.hi(v) >> (w - 1) == 0):
                s = hexpad(m, v, w, verb == 'X', wd) if b'0' in flags else hexnum(m, v, w, verb == 'X')
                if b'#' in flags:
                    if b'0' in flags:
                        # the width counts the digits only when padded with zeros
                        pass
                    s = cat(b'0X' if verb == 'X' else b'0x', s)
            elif verb in 'dv' and type(v) is int and b'#' not in flags:
                n = v - (1 << w) if sg and v >> (w - 1) else v
                s = str(n).encode()
                if b'0' in flags:
                    s = (b'-' if n < 0 else b'') + str(abs(n)).encode().rjust(wd - (n < 0), b'0')
            elif verb in 'dv' and not flags and not wd and (not sg or S.hi(v) >> (w - 1) == 0):
                s = Str([(Num(v, w, 10), None)])
            elif verb == 'c' and type(v) is int:
                s = utf8(v)
            elif verb == 'U' and type(v) is int:
                s = b'U+%04X' % v
            else:
                return OPAQUE
        else:
            return OPAQUE
        if s is OPAQUE:
            return OPAQUE
        if wd:
            if type(s) is Str and any(k_ is None for _, k_ in s.r):
                return OPAQUE
            pad = b' ' * max(0, wd - len(runes(s)))
            s = cat(s, pad) if b'-' in flags else cat(pad, s)
        out.append(s)
    if k != len(args):
        return OPAQUE
    return cat(*out)


def build_get(m, p):
    v = m.load(p)
    return v if isinstance(v, (bytes, Str)) or v is OPAQUE else b''


def build_add(m, p, s):
    m.store(p, cat(build_get(m, p), s))


def _write(f):
    def g(m, a):
        s = f(m, a)
        build_add(m, a[0], s)
        return (slen(s) if s is not OPAQUE and not (type(s) is Str and any(k is None for _, k in s.r)) else 0, None)
    return g


def _byte(m, a):
    build_add(m, a[0], bytes([a[1]]) if type(a[1]) is int else norm([(S.zext(a[1], 8, 32), 1)]))
    return None


def _fprintf(m, a):
    w = a[0]
    if type(w) is Iface and type(w.v) is Ptr and w.t >= 0 and m.p.types[w.t]['s'] in ('*strings.Builder', '*bytes.Buffer'):
        build_add(m, w.v, sprintf(m, a[1], m.items(a[2])))
    return (0, None)


def _fprint(nl):
    def g(m, a):
        w = a[0]
        if type(w) is Iface and type(w.v) is Ptr and w.t >= 0 and m.p.types[w.t]['s'] in ('*strings.Builder', '*bytes.Buffer'):
            build_add(m, w.v, sprint(m, m.items(a[1]), nl))
        return (0, None)
    return g


def sprint(m, args, nl):
    vs = []
    for a in args:
        if type(a) is not Iface or not isinstance(a.v, (bytes, Str)):
            return OPAQUE
        vs.append(a.v)
    out = vs[0] if vs else b''
    for v in vs[1:]:
        out = cat(out, b' ' if nl else b'', v)
    return cat(out, b'\n') if nl else out


def join(m, a):
    it = m.items(a[0])
    out = b''
    for i, s in enumerate(it):
        out = cat(out, a[1], s) if i else s
    return out


def intrinsics():
    sl = lambda m, v: m.mkslice(v)
    n64 = lambda n: n if n < 1 << 63 else -1
    d = {
        'strings.Split': lambda m, a: sl(m, split(m, a[0], a[1])),
        'strings.SplitN': lambda m, a: sl(m, split(m, a[0], a[1], n64(a[2])) or []),
        'strings.TrimSpace': lambda m, a: trim(m, a[0], SPACES),
        'strings.Trim': lambda m, a: trim(m, a[0], cutset(a[1])),
        'strings.TrimLeft': lambda m, a: trim(m, a[0], cutset(a[1]), right=False),
        'strings.TrimRight': lambda m, a: trim(m, a[0], cutset(a[1]), left=False),
        'strings.TrimPrefix': lambda m, a: norm(runes(a[0])[len(runes(a[1])):]) if has_prefix(m, a[0], a[1]) else a[0],
        'strings.TrimSuffix': lambda m, a: norm(runes(a[0])[:len(runes(a[0])) - len(runes(a[1]))]) if has_suffix(m, a[0], a[1]) else a[0],
        'strings.Fields': lambda m, a: sl(m, fields(m, a[0])),
        'strings.Join': join,
        'strings.Cut': lambda m, a: cut(m, a[0], a[1]),
        'strings.ReplaceAll': lambda m, a: replace(m, a[0], a[1], a[2]),
        'strings.Replace': lambda m, a: replace(m, a[0], a[1], a[2], n64(a[3])),
        'strings.ToLower': lambda m, a: case(a[0], False),
        'strings.ToUpper': lambda m, a: case(a[0], True),
        'strings.Contains': lambda m, a: int(index(m, runes(need(a[0])), runes(a[1])) >= 0),
        'strings.HasPrefix': lambda m, a: has_prefix(m, a[0], a[1]),
        'strings.HasSuffix': lambda m, a: has_suffix(m, a[0], a[1]),
        'strings.Index': lambda m, a: byte_at(a[0], index(m, runes(need(a[0])), runes(a[1]))),
        'strings.IndexByte': lambda m, a: byte_at(a[0], index(m, runes(need(a[0])), [(a[1], 1)])),
        'strings.IndexRune': lambda m, a: byte_at(a[0], index(m, runes(need(a[0])), [(a[1], 1)])),
        'strings.Count': lambda m, a: len(split(m, a[0], a[1])) - 1,
        'strings.Repeat': lambda m, a: cat(*[a[0]] * a[1]) if a[1] else b'',
        'unicode/utf8.RuneCountInString': lambda m, a: len(runes(need(a[0]))),
        'strconv.ParseUint': lambda m, a: parse(m, a[0], a[1], a[2]),
        'strconv.ParseInt': lambda m, a: parse(m, a[0], a[1], a[2], True),
        'strconv.Atoi': lambda m, a: parse(m, a[0], 10, 64, True),
        'strconv.Itoa': lambda m, a: str(a[0] - (1 << 64) if a[0] >> 63 else a[0]).encode() if type(a[0]) is int else OPAQUE,
        'strconv.FormatUint': lambda m, a: hexnum(m, a[0], 64, False) if a[1] == 16 else str(a[0]).encode() if type(a[0]) is int and a[1] == 10 else OPAQUE,
        'strconv.FormatInt': lambda m, a: hexnum(m, a[0], 64, False) if a[1] == 16 and S.hi(a[0]) >> 63 == 0 else str(a[0]).encode() if type(a[0]) is int and a[1] == 10 and not a[0] >> 63 else OPAQUE,
        'strconv.Quote': lambda m, a: quote(a[0]),
        'fmt.Sprintf': lambda m, a: sprintf(m, a[0], m.items(a[1])),
        'fmt.Sprint': lambda m, a: sprint(m, m.items(a[0]), False) if len(m.items(a[0])) < 2 else OPAQUE,
        'fmt.Sprintln': lambda m, a: sprint(m, m.items(a[0]), True),
        'fmt.Fprintf': _fprintf,
        'fmt.Fprint': _fprint(False),
        'fmt.Fprintln': _fprint(True),
    }
    for t in ('(*strings.Builder).', '(*bytes.Buffer).'):
        d[t + 'WriteString'] = _write(lambda m, a: a[1])
        d[t + 'WriteByte'] = _byte
        d[t + 'WriteRune'] = _write(lambda m, a: m.runestr(a[1], (32, 1)) if type(a[1]) is T else utf8(a[1]))
        d[t + 'String'] = lambda m, a: build_get(m, a[0])
        d[t + 'Len'] = lambda m, a: slen(build_get(m, a[0]))
        d[t + 'Grow'] = lambda m, a: None
        d[t + 'Reset'] = lambda m, a: m.store(a[0], b'')
    return d
