"""Symbolic execution of JavaScript from its syntax tree (parsed by the TypeScript compiler).

Numbers are Python ints and floats while they are known, and N (an integer term with its range) when
they depend on a symbolic byte.  Control flow that depends on a symbolic value is followed into both
arms, whose effects are joined afterwards; what cannot be joined raises Unsupported.  The program is
compiled to Python closures once and then run once: there is one path."""
import math

import sym as S

T = S.T
M32 = 0xffffffff
MAXINT = 1 << 53


class Unsupported(Exception):
    pass


class JSThrow(Exception):
    def __init__(self, v):
        Exception.__init__(self, 'uncaught ' + tostr(v))
        self.v = v


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undefined'


UNDEF = _Undef()
TDZ = object()


class N:
    """an integer between lo and hi; t is its 32-bit (w = 32) or 64-bit signed two's complement form.
    w = 32 and lo >= 0: unsigned."""
    __slots__ = ('t', 'w', 'lo', 'hi')

    def __init__(self, t, w, lo, hi):
        self.t, self.w, self.lo, self.hi = t, w, lo, hi


class B:
    """a symbolic boolean: a 1-bit term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Obj:
    def __init__(self, props=None, cls='Object', proto=None):
        self.p = props if props is not None else {}
        self.cls = cls
        self.proto = proto

    def get(self, m, k):
        if k in self.p:
            v = self.p[k]
            if type(v) is Accessor:
                return m.call(v.get, self, []) if v.get else UNDEF
            return v
        o = self.proto
        while o is not None:
            if k in o.p:
                v = o.p[k]
                if type(v) is Accessor:
                    return m.call(v.get, self, []) if v.get else UNDEF
                return v
            o = o.proto
        if k in OBJECT_METHODS:
            return Native(OBJECT_METHODS[k])
        return UNDEF

    def set(self, m, k, v):
        o = self
        while o is not None:
            a = o.p.get(k)
            if type(a) is Accessor:
                if a.set is None:
                    raise Unsupported('write of a read-only property')
                m.call(a.set, self, [v])
                return
            o = o.proto
        m.write(self.p, k, v)


class Accessor:
    def __init__(self, get=None, set=None):
        self.get, self.set = get, set


class Arr(Obj):
    def __init__(self, items, proto=None):
        Obj.__init__(self, {}, 'Array')
        self.a = items

    def get(self, m, k):
        i = index(k)
        if i is not None:
            return self.a[i] if i < len(self.a) else UNDEF
        if type(k) is N:
            return m.pick(self.a, k)
        if k == 'length':
            return len(self.a)
        if k in ARRAY_METHODS:
            return Native(ARRAY_METHODS[k])
        return Obj.get(self, m, k)

    def set(self, m, k, v):
        i = index(k)
        if i is not None:
            if i >= len(self.a):
                if m.log is not None:
                    raise Unsupported('array growth under a symbolic condition')
                if i > 10 ** 7:
                    raise Unsupported('huge array')
                self.a.extend([UNDEF] * (i + 1 - len(self.a)))
            m.write(self.a, i, v)
        elif k == 'length':
            if m.log is not None:
                raise Unsupported('array length under a symbolic condition')
            del self.a[v:]
            self.a.extend([UNDEF] * (v - len(self.a)))
        elif type(k) is N:
            raise Unsupported('write at a symbolic index')
        else:
            Obj.set(self, m, k, v)


class Fun(Obj):
    def __init__(self, code, env, this=None, arrow=False):
        Obj.__init__(self, {}, 'Function')
        self.code, self.env, self.this, self.arrow = code, env, this, arrow
        self.home = None

    def get(self, m, k):
        if k == 'prototype' and 'prototype' not in self.p:
            self.p['prototype'] = Obj({'constructor': self})
        if k in FUNC_METHODS:
            return Native(FUNC_METHODS[k])
        return Obj.get(self, m, k)


class Native(Obj):
    """f(machine, this, args)"""

    def __init__(self, f, construct=None, props=None):
        Obj.__init__(self, props or {}, 'Function')
        self.f = f
        self.construct = construct

    def get(self, m, k):
        if k not in self.p and k in FUNC_METHODS:
            return Native(FUNC_METHODS[k])
        return Obj.get(self, m, k)


KINDS = {'Uint8Array': (1, 0), 'Uint8ClampedArray': (1, 2), 'Int8Array': (1, 1), 'Uint16Array': (2, 0), 'Int16Array': (2, 1),
         'Uint32Array': (4, 0), 'Int32Array': (4, 1)}


class Bytes(list):
    pass


class Buffer(Obj):
    """an ArrayBuffer: bytes are ints or 8-bit terms"""

    def __init__(self, b):
        Obj.__init__(self, {}, 'ArrayBuffer')
        self.b = Bytes(b)
        self.cache = {}

    def get(self, m, k):
        if k == 'byteLength':
            return len(self.b)
        if k == 'slice':
            return Native(lambda m, t, a: Buffer(self.b[slice(*bounds(a, len(self.b)))]))
        return Obj.get(self, m, k)


def bounds(a, n):
    lo = toint(a[0]) if len(a) > 0 and a[0] is not UNDEF else 0
    hi = toint(a[1]) if len(a) > 1 and a[1] is not UNDEF else n
    f = lambda x: max(0, x + n) if x < 0 else min(x, n)
    lo, hi = f(lo), f(hi)
    return lo, max(lo, hi)


class Typed(Obj):
    def __init__(self, kind, buf, off, n):
        Obj.__init__(self, {}, kind)
        self.buf, self.off, self.n = buf, off, n
        self.size, self.mode = KINDS[kind]

    def at(self, i):
        s = self.size
        o = self.off + i * s
        if s == 1:
            x = self.buf.b[o]
            if type(x) is int:
                return x - 256 if self.mode == 1 and x > 127 else x
            if self.mode == 1:
                return num32(S.sext(x, 8, 32), True)
            c = self.buf.cache.get(x)
            if c is None:
                c = self.buf.cache[x] = N(S.zext(x, 8, 32), 32, 0, 255)
            return c
        bs = self.buf.b[o:o + s]
        if all(type(x) is int for x in bs):
            v = int.from_bytes(bytes(bs), 'little')
            return v - (1 << 8 * s) if self.mode == 1 and v >> (8 * s - 1) else v
        t = 0
        for k, x in enumerate(bs):
            t = S.or_(t, S.shl(S.zext(x, 8, 32), 8 * k, 32), 32)
        if self.mode == 1:
            return num32(S.sext(S.trunc(t, 32, 16), 16, 32) if s == 2 else t, True)
        return num32(t, False)

    def get(self, m, k):
        i = index(k)
        if i is not None:
            return self.at(i) if i < self.n else UNDEF
        if k == 'length':
            return self.n
        if type(k) is N:
            return m.pick([self.at(i) for i in range(self.n)], k)
        if type(k) in (int, float):
            return UNDEF
        if k == 'buffer':
            return self.buf
        if k == 'byteLength':
            return self.n * self.size
        if k == 'byteOffset':
            return self.off
        if k == 'BYTES_PER_ELEMENT':
            return self.size
        if k in TYPED_METHODS:
            return Native(TYPED_METHODS[k])
        return Obj.get(self, m, k)

    def set(self, m, k, v):
        i = index(k)
        if i is None:
            if type(k) is N:
                raise Unsupported('write at a symbolic index')
            if type(k) in (int, float):
                return
            return Obj.set(self, m, k, v)
        if i < self.n:
            self.put(m, i, v)

    def put(self, m, i, v):
        s = self.size
        o = self.off + i * s
        v = tonum(m, v)
        if type(v) is float:
            if v != v:
                v = 0
            elif self.mode == 2:
                v = round(min(max(v, 0), 255))
            elif math.isinf(v):
                v = 0
            else:
                v = int(v)
        if type(v) is int:
            if self.mode == 2:
                v = min(max(v, 0), 255)
            for k in range(s):
                m.write(self.buf.b, o + k, v >> 8 * k & 255)
            return
        t = to32(v)
        if self.mode == 2:
            if v.hi > 255 or v.lo < 0:
                t64 = to64(v)
                t = S.trunc(S.ite(S.slt(t64, 0, 64), 0, S.ite(S.slt(255, t64, 64), 255, t64, 64), 64), 64, 32)
        for k in range(s):
            m.write(self.buf.b, o + k, S.slice_(t, 8 * k, 8, 32) if type(t) is not int else t >> 8 * k & 255)


# ------------------------------------------------------------------ conversions

def index(k):
    if type(k) is int:
        return k if k >= 0 else None
    if type(k) is float and k.is_integer() and k >= 0:
        return int(k)
    if type(k) is str and k.isdigit() and (k == '0' or k[0] != '0'):
        return int(k)
    return None


def num32(t, signed):
    if type(t) is int:
        return t - (1 << 32) if signed and t >> 31 else t
    lo, hi = S.lo(t), S.hi(t)
    if signed and hi >> 31:
        return N(t, 32, -(1 << 31), (1 << 31) - 1)
    return N(t, 32, lo, hi)


def num64(t, lo, hi):
    if type(t) is int:
        return t - (1 << 64) if t >> 63 else t
    if lo < -MAXINT or hi > MAXINT:
        raise Unsupported('number beyond 2**53')
    if lo >= 0 and hi <= M32 or lo >= -(1 << 31) and hi < 1 << 31:
        return N(S.trunc(t, 64, 32), 32, lo, hi)
    return N(t, 64, lo, hi)


def to64(v):
    if type(v) is int:
        return v & (1 << 64) - 1
    if v.w == 64:
        return v.t
    return (S.zext if v.lo >= 0 else S.sext)(v.t, 32, 64)


def to32(v):
    if type(v) is N:
        return v.t if v.w == 32 else S.trunc(v.t, 64, 32)
    if type(v) is float:
        if v != v or math.isinf(v):
            return 0
        v = int(v)
    return v & M32


def rng(v):
    return (v, v) if type(v) is int else (v.lo, v.hi)


def norm(v):
    """floats that are small integers become ints"""
    if type(v) is float and v.is_integer() and abs(v) <= MAXINT:
        return int(v)
    return v


def tonum(m, v):
    ty = type(v)
    if ty is int or ty is N or ty is float:
        return v
    if ty is bool:
        return int(v)
    if ty is B:
        return N(S.zext(v.t, 1, 32), 32, 0, 1)
    if v is UNDEF:
        return math.nan
    if v is None:
        return 0
    if ty is str:
        s = v.strip()
        if not s:
            return 0
        try:
            return int(s, 0) if s[:2].lower() in ('0x', '0b', '0o') else norm(float(s))
        except ValueError:
            return math.nan
    raise Unsupported('number from %r' % ty)


def toint(v):
    if type(v) is int:
        return v
    if type(v) is float:
        return 0 if v != v else int(v)
    if v is UNDEF:
        return 0
    if type(v) is bool:
        return int(v)
    raise Unsupported('integer from %r' % type(v))


def truth(v):
    """True, False or a 1-bit term"""
    ty = type(v)
    if ty is bool:
        return v
    if ty is B:
        return v.t
    if ty is N:
        if v.lo > 0 or v.hi < 0:
            return True
        r = eqk(v.t, 0, v.w)
        return boolterm(S.not_(r)) if type(r) is T else not r
    if v is UNDEF or v is None:
        return False
    if ty is int or ty is float:
        return v == v and v != 0
    if ty is str:
        return bool(v)
    return True


def onebit(t, w):
    """(bit, position) when every other bit of t is 0"""
    r = None
    pos = w
    for a, l, n in S.pieces(t, w):
        pos -= n
        if a is None:
            if l:
                return None
        elif n == 1 and r is None:
            r = S.mk_cat(((a, l, n),)), pos
        else:
            return None
    return r


def eqk(t, k, w):
    """t == k for a constant k, as bool or 1-bit term"""
    if type(t) is T:
        r = onebit(t, w)
        if r and type(r[0]) is T:
            return r[0] if k == 1 << r[1] else S.not_(r[0]) if k == 0 else False
    return boolterm(S.eq(t, k, w))


def ashr(x, s, w):
    if type(x) is T and type(s) is int and S.hi(x) >> (w - 1):
        if s == 0:
            return x
        top = S.slice_(x, w - 1, 1, w)
        return S.mk_cat(((top, 0, 1),) * s + tuple(S.pieces(S.slice_(x, s, w - s, w), w - s)))
    return S.ashr(x, s, w)


def boolterm(t):
    return bool(t) if type(t) is int else t


def mkbool(t):
    return bool(t) if type(t) is int or type(t) is bool else B(t)


def tostr(v):
    if v is UNDEF:
        return 'undefined'
    if v is None:
        return 'null'
    if type(v) is bool:
        return 'true' if v else 'false'
    if type(v) is float:
        if v != v:
            return 'NaN'
        if math.isinf(v):
            return 'Infinity' if v > 0 else '-Infinity'
        return repr(v)
    if type(v) in (N, B):
        raise Unsupported('text of a symbolic number')
    if type(v) is Arr:
        return ','.join(tostr(x) for x in v.a)
    if isinstance(v, Obj):
        if 'message' in v.p:
            return tostr(v.p.get('name', 'Error')) + ': ' + tostr(v.p['message'])
        return '[object %s]' % v.cls
    return str(v)


# ------------------------------------------------------------------ operators

def sarith(op, x, y):
    """+ - * on at least one symbolic integer"""
    if type(x) is float or type(y) is float:
        raise Unsupported('fraction and symbolic number')
    (a, b), (c, d) = rng(x), rng(y)
    p, q = to64(x), to64(y)
    if op == '+':
        return num64(S.add(p, q, 64), a + c, b + d)
    if op == '-':
        return num64(S.sub(p, q, 64), a - d, b - c)
    es = [a * c, a * d, b * c, b * d]
    if max(abs(e) for e in es) > MAXINT:
        raise Unsupported('number beyond 2**53')
    return num64(S.mul(p, q, 64), min(es), max(es))


class Frac:
    """a symbolic integer divided by 2**k"""
    __slots__ = ('n', 'k')

    def __init__(self, n, k):
        self.n, self.k = n, k


def floor(v):
    if type(v) is Frac:
        return num64(ashr(to64(v.n), v.k, 64), v.n.lo >> v.k, v.n.hi >> v.k)
    return v if type(v) in (int, N) else v if v != v or math.isinf(v) else math.floor(v)


def trunc(v):
    if type(v) is Frac:
        if v.n.lo < 0:
            raise Unsupported('truncation of a negative fraction')
        return floor(v)
    return v if type(v) in (int, N) else v if v != v or math.isinf(v) else int(v)


def binop(m, op, x, y):
    tx, ty = type(x), type(y)
    if tx is int and ty is int:
        if op == '+':
            return x + y
        if op == '*':
            return x * y
        if op == '-':
            return x - y
        if op == '<':
            return x < y
        if op == '&':
            r = x & y & M32
            return r - (1 << 32) if r >> 31 else r
        if op == '>>':
            r = x & M32
            if r >> 31:
                r -= 1 << 32
            return r >> (y & 31)
        if op == '<<':
            r = x << (y & 31) & M32
            return r - (1 << 32) if r >> 31 else r
    if op in ('===', '!==', '==', '!='):
        r = equal(m, x, y, len(op) == 3)
        return mkbool(S.not_(r) if op[0] == '!' and type(r) is T else (not r) if op[0] == '!' else r)
    if op == '+' and (tx is str or ty is str or isinstance(x, Obj) or isinstance(y, Obj)):
        return tostr(x) + tostr(y)
    if op in ('<', '>', '<=', '>=') and tx is str and ty is str:
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    if op == 'in':
        if isinstance(y, Arr):
            i = index(x)
            return i is not None and i < len(y.a)
        if not isinstance(y, Obj):
            raise JSThrow('TypeError')
        return y.get(m, x) is not UNDEF
    if op == 'instanceof':
        if isinstance(x, Obj) and isinstance(y, Native):
            return x.cls == y.p.get('name')
        o = x.proto if isinstance(x, Obj) else None
        pr = y.get(m, 'prototype')
        while o is not None:
            if o is pr:
                return True
            o = o.proto
        return False
    if op in ('&', '|', '^', '<<', '>>', '>>>'):
        x = trunc(x) if tx is Frac else tonum(m, x)
        y = trunc(y) if ty is Frac else tonum(m, y)
        a, b = to32(x), to32(y)
        if op == '&':
            r = S.and_(a, b, 32)
        elif op == '|':
            r = S.or_(a, b, 32)
        elif op == '^':
            r = S.xor(a, b, 32)
        else:
            b = b & 31 if type(b) is int else S.and_(b, 31, 32)
            r = (S.shl if op == '<<' else ashr if op == '>>' else S.lshr)(a, b, 32)
        return num32(r, op != '>>>')
    x, y = (x if tx is Frac else tonum(m, x)), (y if ty is Frac else tonum(m, y))
    tx, ty = type(x), type(y)
    if tx is Frac or ty is Frac:
        raise Unsupported('arithmetic on a symbolic fraction')
    sym = tx is N or ty is N
    if op in ('+', '-', '*'):
        if sym:
            return sarith(op, x, y)
        try:
            return norm(float(x) + float(y) if op == '+' else float(x) - float(y) if op == '-' else float(x) * float(y))
        except OverflowError:
            return math.inf
    if op in ('<', '>', '<=', '>='):
        if not sym:
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if tx is float or ty is float:
            # an integer against a fraction
            if tx is float:
                x, y, op = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if y != y:
                return False
            if math.isinf(y):
                return (y > 0) == (op in ('<', '<='))
            f = math.floor(y)
            y = f + 1 if op in ('<', '>=') and f != y else f
        if op in ('>', '<='):
            r = S.slt(to64(y), to64(x), 64)
        else:
            r = S.slt(to64(x), to64(y), 64)
        return mkbool(S.not_(r) if op in ('<=', '>=') else r)
    if op == '/':
        if sym:
            if tx is N and ty is int and y > 0 and y & (y - 1) == 0:
                return Frac(x, y.bit_length() - 1) if y > 1 else x
            raise Unsupported('division of symbolic numbers')
        if y == 0:
            return math.nan if x == 0 or x != x else math.copysign(math.inf, x)
        if tx is int and ty is int and x % y == 0:
            return x // y
        return norm(x / y)
    if op == '%':
        if sym:
            if ty is int and y > 0 and x.lo >= 0:
                r = S.urem(to64(x), y, 64)
                return num64(r, 0, y - 1)
            raise Unsupported('remainder of symbolic numbers')
        if y == 0 or x != x or y != y or math.isinf(x):
            return math.nan
        return norm(math.fmod(x, y)) if not (tx is int and ty is int) else int(math.fmod(x, y)) if abs(x) < 1 << 50 else norm(math.fmod(x, y))
    if op == '**':
        if sym:
            if tx is int and x == 2 and y.lo >= 0 and y.hi < 31:
                return num32(S.shl(1, to32(y), 32), False)
            raise Unsupported('power of symbolic numbers')
        return norm(float(x) ** y) if not (tx is int and ty is int and 0 <= y < 1024) else x ** y if abs(x ** y) <= MAXINT else float(x ** y)
    raise Unsupported('operator ' + op)


def equal(m, x, y, strict):
    tx, ty = type(x), type(y)
    if tx is Frac or ty is Frac:
        raise Unsupported('comparison of a symbolic fraction')
    numeric = (int, float, N)
    if tx in numeric and ty in numeric:
        if tx is N or ty is N:
            if tx is float or ty is float:
                return False
            a, b = rng(x), rng(y)
            if a[1] < b[0] or b[1] < a[0]:
                return False
            if tx is N and ty is N and x.w == y.w == 32 and (x.lo >= 0) == (y.lo >= 0):
                return boolterm(S.eq(x.t, y.t, 32))
            if ty is int and x.w == 32:
                return eqk(x.t, y & M32, 32)
            return boolterm(S.eq(to64(x), to64(y), 64))
        return x == y
    bools = (bool, B)
    if tx in bools and ty in bools:
        if tx is bool and ty is bool:
            return x == y
        p, q = (int(x) if tx is bool else x.t), (int(y) if ty is bool else y.t)
        return boolterm(S.eq(p, q, 1))
    if x is UNDEF or x is None or y is UNDEF or y is None:
        return x is y if strict else (x is UNDEF or x is None) and (y is UNDEF or y is None)
    if tx is str and ty is str:
        return x == y
    if isinstance(x, Obj) or isinstance(y, Obj):
        if strict or isinstance(x, Obj) and isinstance(y, Obj):
            return x is y
        raise Unsupported('loose comparison of an object')
    if strict:
        return False
    return equal(m, tonum(m, x), tonum(m, y), True)


# ------------------------------------------------------------------ compiler

class Scope:
    """names of one environment; slot 0 is the parent environment"""

    def __init__(self, parent, func):
        self.parent = parent
        self.func = func
        self.names = {}
        self.consts = set()

    def add(self, name, const=False):
        if name not in self.names:
            self.names[name] = len(self.names) + 1
        if const:
            self.consts.add(name)
        return self.names[name]

    def make(self, env):
        return [env] + [TDZ] * len(self.names)


BREAK, CONTINUE, RETURN = 1, 2, 3


def bound(n):
    """names in a binding pattern"""
    if n['k'] == 'Identifier':
        return [n['escapedText']]
    out = []
    for e in n['elements']:
        if e['k'] != 'OmittedExpression':
            out += bound(e['name'])
    return out


FUNCS = ('FunctionDeclaration', 'FunctionExpression', 'ArrowFunction', 'MethodDeclaration', 'ClassDeclaration', 'ClassExpression',
         'GetAccessor', 'SetAccessor', 'Constructor')


def var_names(n, out):
    """var declarations inside a function body"""
    if isinstance(n, list):
        for x in n:
            var_names(x, out)
    elif isinstance(n, dict):
        if n['k'] in FUNCS:
            return
        if n['k'] == 'VariableDeclarationList' and n['decl'] == 'var':
            for d in n['declarations']:
                out += bound(d['name'])
        for v in n.values():
            if isinstance(v, (dict, list)):
                var_names(v, out)


class Machine:
    def __init__(self, globals_, budget=4 * 10 ** 8):
        self.globals = globals_
        self.log = None
        self.steps = 0
        self.merges = 0
        self.seen = set()
        self.jobs = []
        self.modules = {}
        self.timers = []
        self.arms = []          # conditions of the arms we are in

    # ---------------------------------------------------------------- memory
    def write(self, c, k, v):
        if self.log is not None:
            d = self.log
            if (id(c), k) not in d:
                if type(c) is dict:
                    d[id(c), k] = (c, k, c.get(k, TDZ))
                else:
                    d[id(c), k] = (c, k, c[k])
        c[k] = v

    def both(self, c, fa, fb):
        """run both arms of a condition and join what they leave"""
        self.merges += 1
        save = self.log
        rs, ws = [], []
        for f, cc in ((fa, c), (fb, S.not_(c))):
            self.log = {}
            self.arms.append(cc)
            try:
                rs.append(f())
                new = {k: (o, i, o.get(i, TDZ) if type(o) is dict else o[i]) for k, (o, i, _) in self.log.items()}
            except JSThrow as e:
                raise Unsupported('exception under a symbolic condition: %s' % e)
            finally:
                self.arms.pop()
                for k, (o, i, old) in self.log.items():
                    if old is TDZ and type(o) is dict:
                        o.pop(i, None)
                    else:
                        o[i] = old
                self.log = save
            ws.append(new)
        done = []
        for k in list(ws[0]) + [k for k in ws[1] if k not in ws[0]]:
            o, i = (ws[0].get(k) or ws[1].get(k))[:2]
            cur = o.get(i, TDZ) if type(o) is dict else o[i]
            x = ws[0][k][2] if k in ws[0] else cur
            y = ws[1][k][2] if k in ws[1] else cur
            if type(o) is Bytes:
                v = S.ite(c, x, y, 8)
            elif (x is TDZ or y is TDZ) and type(o) is dict and x is not y:
                raise Unsupported('property %s set in one arm only' % i)
            else:
                v = self.join(c, x, y)
            done.append((o, i, v))
        for o, i, v in done:
            if v is TDZ and type(o) is dict:
                o.pop(i, None)
            else:
                self.write(o, i, v)
        return rs

    def join(self, c, x, y):
        if x is y:
            return x
        tx, ty = type(x), type(y)
        if tx is ty and tx in (int, bool, float, str) and x == y:
            return x
        if x is TDZ or y is TDZ:
            # a variable of a block that one arm did not enter
            return y if x is TDZ else x
        if tx in (int, N) and ty in (int, N):
            (a, b), (p, q) = rng(x), rng(y)
            lo, hi = min(a, p), max(b, q)
            if lo >= 0 and hi <= M32 or lo >= -(1 << 31) and hi < 1 << 31:
                u, v = to32(x), to32(y)
                t = S.ite(c, u, v, 32)
                return num32(t, lo < 0) if type(t) is int else N(t, 32, lo, hi)
            return num64(S.ite(c, to64(x), to64(y), 64), lo, hi)
        if tx in (bool, B) and ty in (bool, B):
            f = lambda v: int(v) if type(v) is bool else v.t
            return mkbool(S.ite(c, f(x), f(y), 1))
        raise Unsupported('join of %s and %s' % (tx.__name__, ty.__name__))

    def pick(self, items, k):
        if k.lo < 0 or k.hi - k.lo > 4096:
            raise Unsupported('symbolic index with a wide range')
        r = None
        for i in range(k.lo, k.hi + 1):
            v = items[i] if i < len(items) else UNDEF
            if r is None:
                r = v
            else:
                r = self.join(S.eq(k.t, i & M32, k.w), v, r)
        return r

    def ite(self, c, fa, fb):
        """value of c ? fa() : fb()"""
        if type(c) is not T:
            return fa() if c else fb()
        for a in self.arms:
            if a is c:
                return fa()
            if type(a) is T and a is S.not_(c):
                return fb()
        x, y = self.both(c, fa, fb)
        return self.join(c, x, y)

    # ---------------------------------------------------------------- calls
    def call(self, f, this, args):
        if type(f) is Native:
            return f.f(self, this, args)
        if type(f) is not Fun:
            raise JSThrow(Obj({'name': 'TypeError', 'message': 'not a function'}, 'Error'))
        return f.code(self, f, f.this if f.arrow else this, args)

    def construct(self, f, args):
        if type(f) is Native:
            if f.construct is None:
                raise JSThrow(Obj({'name': 'TypeError', 'message': 'not a constructor'}, 'Error'))
            return f.construct(self, args)
        if type(f) is not Fun or f.arrow:
            raise JSThrow(Obj({'name': 'TypeError', 'message': 'not a constructor'}, 'Error'))
        o = Obj({}, 'Object', f.get(self, 'prototype'))
        r = f.code(self, f, o, args)
        return r if isinstance(r, Obj) else o

    def prop(self, o, k):
        if isinstance(o, Obj):
            if type(k) in (B,):
                raise Unsupported('symbolic property name')
            return o.get(self, k)
        if type(o) is str:
            if k == 'length':
                return len(o)
            i = index(k)
            if i is not None:
                return o[i] if i < len(o) else UNDEF
            return Native(STRING_METHODS[k]) if k in STRING_METHODS else UNDEF
        if o is UNDEF or o is None:
            raise JSThrow(Obj({'name': 'TypeError', 'message': 'property %s of %s' % (k, tostr(o))}, 'Error'))
        if type(o) in (int, float, N, B, bool):
            if k in NUMBER_METHODS:
                return Native(NUMBER_METHODS[k])
            return UNDEF
        raise Unsupported('property of %r' % type(o))

    def setprop(self, o, k, v):
        if isinstance(o, Obj):
            o.set(self, k, v)
        elif o is UNDEF or o is None:
            raise JSThrow(Obj({'name': 'TypeError', 'message': 'property %s of %s' % (k, tostr(o))}, 'Error'))

    def iterate(self, v):
        if type(v) is Arr:
            i = 0
            while i < len(v.a):
                yield v.a[i]
                i += 1
        elif type(v) is Typed:
            for i in range(v.n):
                yield v.at(i)
        elif type(v) is str:
            yield from v
        elif isinstance(v, Obj):
            it = v.get(self, '@@iterator')
            if it is UNDEF:
                raise Unsupported('iteration over an object')
            for x in self.call(it, v, []):
                yield x
        else:
            raise JSThrow(Obj({'name': 'TypeError', 'message': 'not iterable'}, 'Error'))

    def drain(self):
        n = 0
        while self.jobs or self.timers:
            n += 1
            if n > 10000:
                raise Unsupported('endless event loop')
            if self.jobs:
                self.jobs.pop(0)()
            else:
                self.timers.pop(0)()


def typeof(v):
    if v is UNDEF:
        return 'undefined'
    if type(v) in (int, float, N, Frac):
        return 'number'
    if type(v) in (bool, B):
        return 'boolean'
    if type(v) is str:
        return 'string'
    if isinstance(v, (Fun, Native)):
        return 'function'
    return 'object'


class Compiler:
    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.fns = []

    # ---------------------------------------------------------------- scopes
    def lookup(self, sc, name):
        d = 0
        while sc is not None:
            if name in sc.names:
                return d, sc.names[name], name in sc.consts
            sc = sc.parent
            d += 1
        return None

    def getvar(self, sc, name):
        r = self.lookup(sc, name)
        m = self.m
        if r is None:
            g = m.globals

            def glob(env):
                if name in g:
                    return g[name]
                if name == 'undefined':
                    return UNDEF
                raise JSThrow(Obj({'name': 'ReferenceError', 'message': name + ' is not defined'}, 'Error'))
            return glob
        d, i, _ = r

        def chk(v):
            if v is TDZ:
                raise JSThrow(Obj({'name': 'ReferenceError', 'message': name + ' used before its declaration'}, 'Error'))
            if type(v) is Binding:
                return v.get()
            return v
        if d == 0:
            def f(env):
                v = env[i]
                return chk(v) if v is TDZ or type(v) is Binding else v
        elif d == 1:
            def f(env):
                v = env[0][i]
                return chk(v) if v is TDZ or type(v) is Binding else v
        elif d == 2:
            def f(env):
                v = env[0][0][i]
                return chk(v) if v is TDZ or type(v) is Binding else v
        else:
            def f(env):
                for _ in range(d):
                    env = env[0]
                v = env[i]
                return chk(v) if v is TDZ or type(v) is Binding else v
        return f

    def setvar(self, sc, name, init=False):
        r = self.lookup(sc, name)
        m = self.m
        if r is None:
            def glob(env, v):
                # strict mode
                raise JSThrow(Obj({'name': 'ReferenceError', 'message': name + ' is not defined'}, 'Error'))
            return glob
        d, i, const = r
        if const and not init:
            def bad(env, v):
                raise JSThrow(Obj({'name': 'TypeError', 'message': 'assignment to constant ' + name}, 'Error'))
            return bad

        def f(env, v):
            for _ in range(d):
                env = env[0]
            if env[i] is TDZ and not init:
                raise JSThrow(Obj({'name': 'ReferenceError', 'message': name + ' used before its declaration'}, 'Error'))
            if m.log is None:
                env[i] = v
            else:
                m.write(env, i, v)
        return f

    # ---------------------------------------------------------------- binding patterns
    def bind(self, n, sc, init=True):
        """f(env, value)"""
        m = self.m
        if n['k'] == 'Identifier':
            return self.setvar(sc, n['escapedText'], init)
        parts = []
        for e in n['elements']:
            if e['k'] == 'OmittedExpression':
                parts.append(None)
                continue
            t = self.bind(e['name'], sc, init)
            dflt = self.expr(e['initializer'], sc) if 'initializer' in e else None
            pn = e.get('propertyName') or e['name']
            key = pn.get('escapedText', pn.get('text'))
            parts.append((t, dflt, key, 'dotDotDotToken' in e))
        arr = n['k'] == 'ArrayBindingPattern'

        def f(env, v):
            if arr:
                items = list(m.iterate(v))
                for j, p in enumerate(parts):
                    if p is None:
                        continue
                    x = Arr(items[j:]) if p[3] else items[j] if j < len(items) else UNDEF
                    if x is UNDEF and p[1]:
                        x = p[1](env)
                    p[0](env, x)
            else:
                for p in parts:
                    if p[3]:
                        raise Unsupported('object rest')
                    x = m.prop(v, p[2])
                    if x is UNDEF and p[1]:
                        x = p[1](env)
                    p[0](env, x)
        return f

    # ---------------------------------------------------------------- functions
    def function(self, n, sc, name=''):
        """f(env) -> Fun"""
        arrow = n['k'] == 'ArrowFunction'
        mods = [x['k'] for x in n.get('modifiers', ())]
        if n.get('asteriskToken'):
            raise Unsupported('generator function')
        is_async = 'AsyncKeyword' in mods
        fs = Scope(sc, None)
        fs.func = fs
        own = n['name']['escapedText'] if n['k'] == 'FunctionExpression' and n.get('name') else None
        if own:
            fs.add(own)
        if not arrow:
            fs.add('this')
            fs.add('arguments')
        for p in n.get('parameters', ()):
            for b in bound(p['name']):
                fs.add(b)
        body = n['body']
        block = body['k'] == 'Block'
        if block:
            vs = []
            var_names(body['statements'], vs)
            for v in vs:
                fs.add(v)
        ps = [(self.bind(p['name'], fs), self.expr(p['initializer'], fs) if 'initializer' in p else None, 'dotDotDotToken' in p)
              for p in n.get('parameters', ())]
        varslots = [fs.names[v] for v in (vs if block else [])]
        if block:
            run = self.block(body['statements'], fs, True, new=False)
        else:
            e = self.expr(body, fs)
            run = lambda env: (RETURN, e(env))
        label = name or (n['name'].get('escapedText') if n.get('name') else '') or '(anonymous)'
        label = '%s:%s' % (self.name, label)
        iown = fs.names.get(own) if own else None
        ithis, iargs = fs.names.get('this'), fs.names.get('arguments')
        depth = [0]

        def code(m, f, this, args):
            env = fs.make(f.env)
            if iown:
                env[iown] = f
            if ithis and not arrow:
                env[ithis] = this
                env[iargs] = Arr(list(args))
            for i in varslots:
                env[i] = UNDEF
            for j, (b, dflt, rest) in enumerate(ps):
                v = Arr(list(args[j:])) if rest else args[j] if j < len(args) else UNDEF
                if v is UNDEF and dflt:
                    v = dflt(env)
                b(env, v)
            depth[0] += 1
            if depth[0] > 200:
                raise Unsupported('deep recursion')
            m.seen.add(label)
            try:
                if is_async:
                    try:
                        c = run(env)
                    except JSThrow as e:
                        return promise(m, None, e.v)
                    v = c[1] if type(c) is tuple and c[0] == RETURN else UNDEF
                    return v if isinstance(v, Obj) and v.cls == 'Promise' else promise(m, v)
                c = run(env)
            finally:
                depth[0] -= 1
            if type(c) is tuple and c[0] == RETURN:
                return c[1]
            return UNDEF

        def make(env):
            this = None
            return Fun(code, env, this, arrow)
        return make

    def klass(self, n, sc):
        if n.get('heritageClauses'):
            raise Unsupported('class with a superclass')
        name = n['name']['escapedText'] if n.get('name') else ''
        ctor = None
        fields, methods = [], []
        for e in n['members']:
            st = 'StaticKeyword' in [x['k'] for x in e.get('modifiers', ())]
            if e['k'] == 'Constructor':
                ctor = self.function(e, sc, name)
            elif e['k'] in ('MethodDeclaration', 'GetAccessor', 'SetAccessor'):
                methods.append((self.key(e['name'], sc), self.function(e, sc, name), e['k'], st))
            elif e['k'] == 'PropertyDeclaration':
                fs = Scope(sc, None)
                fs.add('this')
                fields.append((self.key(e['name'], sc), self.expr(e['initializer'], fs) if e.get('initializer') else None, st, fs))
            else:
                raise Unsupported('class member ' + e['k'])

        def make(env):
            cf = ctor(env) if ctor else None
            proto = Obj({})

            def code(m, f, this, args):
                for k, i, st, fs in fields:
                    if not st:
                        e2 = fs.make(env)
                        e2[1] = this
                        m.setprop(this, k(env), i(e2) if i else UNDEF)
                return cf.code(m, cf, this, args) if cf else UNDEF
            f = Fun(code, env)
            f.p['prototype'] = proto
            proto.p['constructor'] = f
            for k, g, kind, st in methods:
                o = f if st else proto
                kk = k(env)
                if kind == 'MethodDeclaration':
                    o.p[kk] = g(env)
                else:
                    a = o.p.get(kk) if type(o.p.get(kk)) is Accessor else Accessor()
                    if kind == 'GetAccessor':
                        a.get = g(env)
                    else:
                        a.set = g(env)
                    o.p[kk] = a
            for k, i, st, fs in fields:
                if st:
                    e2 = fs.make(env)
                    e2[1] = f
                    f.p[k(env)] = i(e2) if i else UNDEF
            return f
        return make

    def key(self, n, sc):
        if n['k'] in ('Identifier', 'PrivateIdentifier'):
            v = n['escapedText']
        elif n['k'] in ('StringLiteral', 'NumericLiteral'):
            v = n['text']
        elif n['k'] == 'ComputedPropertyName':
            e = self.expr(n['expression'], sc)
            return lambda env: propkey(e(env))
        else:
            raise Unsupported('property name ' + n['k'])
        return lambda env: v

    # ---------------------------------------------------------------- statements
    def declare(self, stmts, sc):
        """lexical declarations and functions of a statement list; returns the function makers"""
        fs = []
        for n in stmts:
            k = n['k']
            if k == 'VariableStatement' and n['declarationList']['decl'] != 'var':
                for d in n['declarationList']['declarations']:
                    for b in bound(d['name']):
                        sc.add(b, n['declarationList']['decl'] == 'const')
            elif k in ('FunctionDeclaration', 'ClassDeclaration'):
                nm = n['name']['escapedText'] if n.get('name') else 'default'
                sc.add(nm)
                if k == 'FunctionDeclaration':
                    fs.append((nm, n))
            elif k == 'ImportDeclaration':
                c = n.get('importClause')
                if c:
                    if c.get('name'):
                        sc.add(c['name']['escapedText'])
                    b = c.get('namedBindings')
                    if b:
                        if b['k'] == 'NamespaceImport':
                            sc.add(b['name']['escapedText'])
                        else:
                            for e in b['elements']:
                                sc.add(e['name']['escapedText'])
        return fs

    def block(self, stmts, sc, tail=False, new=True):
        """f(env): run the statements in order; tail: nothing of the loop body or function follows"""
        m = self.m
        s2 = Scope(sc, sc.func) if new else sc
        before = len(s2.names)
        fs = self.declare(stmts, s2)
        fresh = new and len(s2.names) > 0
        if new and not fresh:
            s2 = sc
        makers = [(s2.names[nm], self.function(n, s2, nm)) for nm, n in fs]
        run = [None] * len(stmts)
        for i, n in enumerate(stmts):
            run[i] = self.stmt(n, s2, tail and i == len(stmts) - 1)
        isif = [n['k'] == 'IfStatement' for n in stmts]
        ifs = {}
        for i, n in enumerate(stmts):
            if isif[i]:
                ifs[i] = (self.expr(n['expression'], s2), self.stmt(n['thenStatement'], s2, tail),
                          self.stmt(n['elseStatement'], s2, tail) if n.get('elseStatement') else None, leaves(n))
        n = len(run)

        def go(env, i):
            while i < n:
                if i in ifs:
                    ce, a, b, lv = ifs[i]
                    c = truth(ce(env))
                    if type(c) is T:
                        for arm in m.arms:
                            if arm is c:
                                c = True
                                break
                            if type(arm) is T and arm is S.not_(c):
                                c = False
                                break
                    if type(c) is not T:
                        r = a(env) if c else b(env) if b else None
                        if r is not None:
                            return r
                        i += 1
                        continue
                    # both arms; if one of them leaves the list, the rest belongs to the other
                    def arm(f):
                        def g():
                            r = f(env) if f else None
                            return r if r is not None or not lv else go(env, i + 1)
                        return g
                    ra, rb = m.both(c, arm(a), arm(b))
                    if ra == rb or ra is rb:
                        if ra is not None or lv:
                            return ra
                        i += 1
                        continue
                    if type(ra) is tuple and type(rb) is tuple and ra[0] == rb[0] == RETURN:
                        return (RETURN, m.join(c, ra[1], rb[1]))
                    if tail and {ra if type(ra) is not tuple else ra, rb if type(rb) is not tuple else rb} <= {None, (CONTINUE, None)}:
                        return None
                    if tail and all(r is None or r[0] == RETURN for r in (ra, rb)):
                        return (RETURN, m.join(c, UNDEF if ra is None else ra[1], UNDEF if rb is None else rb[1]))
                    raise Unsupported('control flow that depends on a symbolic value')
                r = run[i](env)
                if r is not None:
                    return r
                i += 1
            return None

        def f(env):
            if fresh:
                env = s2.make(env)
            for i, g in makers:
                env[i] = g(env)
            return go(env, 0)
        f.scope = s2
        return f

    def decls(self, n, sc):
        out = []
        for d in n['declarations']:
            b = self.bind(d['name'], sc)
            nm = d['name'].get('escapedText', '')
            e = self.named(d['initializer'], sc, nm) if d.get('initializer') else None
            out.append((b, e))
        var = n['decl'] == 'var'
        if len(out) == 1:
            b, e = out[0]

            def f(env):
                if e:
                    b(env, e(env))
                elif not var:
                    b(env, UNDEF)
            return f

        def f(env):
            for b, e in out:
                if e:
                    b(env, e(env))
                elif not var:
                    b(env, UNDEF)
        return f

    def named(self, n, sc, name):
        if n['k'] in ('ArrowFunction', 'FunctionExpression'):
            return self.fexpr(n, sc, name)
        return self.expr(n, sc)

    def fexpr(self, n, sc, name=''):
        return self.function(n, sc, name)

    def stmt(self, n, sc, tail=False):
        m = self.m
        k = n['k']
        if k == 'ExpressionStatement':
            e = self.expr(n['expression'], sc)

            def f(env):
                e(env)
            return f
        if k == 'VariableStatement':
            return self.decls(n['declarationList'], sc)
        if k == 'Block':
            return self.block(n['statements'], sc, tail)
        if k == 'IfStatement':
            return self._if(n, sc, tail)
        if k == 'ForStatement':
            return self.for_(n, sc)
        if k in ('ForOfStatement', 'ForInStatement'):
            return self.forof(n, sc)
        if k == 'WhileStatement':
            c = self.expr(n['expression'], sc)
            return self.loop(None, c, None, self.stmt(n['statement'], sc, True))
        if k == 'DoStatement':
            c = self.expr(n['expression'], sc)
            return self.loop(None, c, None, self.stmt(n['statement'], sc, True), True)
        if k == 'ReturnStatement':
            if n.get('expression'):
                e = self.expr(n['expression'], sc)
                return lambda env: (RETURN, e(env))
            return lambda env: (RETURN, UNDEF)
        if k == 'BreakStatement':
            l = n['label']['escapedText'] if n.get('label') else None
            return lambda env: (BREAK, l)
        if k == 'ContinueStatement':
            l = n['label']['escapedText'] if n.get('label') else None
            return lambda env: (CONTINUE, l)
        if k == 'LabeledStatement':
            l = n['label']['escapedText']
            s = self.stmt(n['statement'], sc, tail)

            def f(env):
                r = s(env)
                return None if r == (BREAK, l) else r
            if hasattr(s, 'labels'):
                s.labels.append(l)
            return f
        if k == 'EmptyStatement':
            return lambda env: None
        if k == 'ThrowStatement':
            e = self.expr(n['expression'], sc)

            def f(env):
                if m.arms:
                    raise Unsupported('exception under a symbolic condition')
                raise JSThrow(e(env))
            return f
        if k == 'TryStatement':
            t = self.stmt(n['tryBlock'], sc)
            ca = fi = None
            if n.get('catchClause'):
                cc = n['catchClause']
                cs = Scope(sc, sc.func)
                if cc.get('variableDeclaration'):
                    for b in bound(cc['variableDeclaration']['name']):
                        cs.add(b)
                    cb = self.bind(cc['variableDeclaration']['name'], cs)
                else:
                    cb = None
                cblock = self.stmt(cc['block'], cs)

                def ca(env, v):
                    e2 = cs.make(env)
                    if cb:
                        cb(e2, v)
                    return cblock(e2)
            if n.get('finallyBlock'):
                fi = self.stmt(n['finallyBlock'], sc)

            def f(env):
                try:
                    try:
                        r = t(env)
                    except JSThrow as e:
                        if ca is None:
                            raise
                        r = ca(env, e.v)
                except JSThrow:
                    if fi:
                        x = fi(env)
                        if x is not None:
                            return x
                    raise
                if fi:
                    x = fi(env)
                    if x is not None:
                        return x
                return r
            return f
        if k == 'SwitchStatement':
            return self.switch(n, sc)
        if k == 'FunctionDeclaration':
            return lambda env: None
        if k == 'ClassDeclaration':
            mk = self.klass(n, sc)
            st = self.setvar(sc, n['name']['escapedText'], True)

            def f(env):
                st(env, mk(env))
            return f
        if k in ('ImportDeclaration', 'ExportDeclaration'):
            return lambda env: None
        if k == 'ExportAssignment':
            e = self.expr(n['expression'], sc)
            st = self.setvar(sc, 'default', True)

            def f(env):
                st(env, e(env))
            return f
        raise Unsupported('statement ' + k)

    def _if(self, n, sc, tail):
        c = self.expr(n['expression'], sc)
        m = self.m
        # reached only where an if is not directly in a statement list (or the list handles it)
        one = {'k': 'Block', 'statements': [n]}
        cell = []

        def f(env):
            if not cell:
                cell.append(self.block(one['statements'], sc, tail, new=False))
            return cell[0](env)
        return f

    def loop(self, init, cond, step, body, post=False, copy=None):
        m = self.m
        labels = []

        def f(env):
            if init:
                init(env)
            first = post
            while True:
                if not first and cond is not None:
                    c = truth(cond(env))
                    if type(c) is T:
                        raise Unsupported('loop bound that depends on a symbolic value')
                    if not c:
                        return None
                first = False
                m.steps += 1
                r = body(env)
                if r is not None:
                    if r[0] == BREAK and (r[1] is None or r[1] in labels):
                        return None
                    if not (r[0] == CONTINUE and (r[1] is None or r[1] in labels)):
                        return r
                if copy:
                    env = copy(env)
                if step:
                    step(env)
        f.labels = labels
        return f

    def for_(self, n, sc):
        ini = n.get('initializer')
        s2 = sc
        own = False
        if ini and ini['k'] == 'VariableDeclarationList' and ini['decl'] != 'var':
            s2 = Scope(sc, sc.func)
            own = True
            for d in ini['declarations']:
                for b in bound(d['name']):
                    s2.add(b, ini['decl'] == 'const')
        if ini:
            i = self.decls(ini, s2) if ini['k'] == 'VariableDeclarationList' else self.expr(ini, s2)
        else:
            i = None
        c = self.expr(n['condition'], s2) if n.get('condition') else None
        st = self.expr(n['incrementor'], s2) if n.get('incrementor') else None
        b = self.stmt(n['statement'], s2, True)
        has_fn = contains(n['statement'], FUNCS)
        lp = self.loop(i, c, st, b, copy=(lambda env: list(env)) if own and has_fn else None)
        if not own:
            return lp

        def f(env):
            return lp(s2.make(env))
        f.labels = lp.labels
        return f

    def forof(self, n, sc):
        m = self.m
        ini = n['initializer']
        if ini['k'] == 'VariableDeclarationList':
            s2 = Scope(sc, sc.func)
            d = ini['declarations'][0]
            if ini['decl'] == 'var':
                s2 = sc
            else:
                for b in bound(d['name']):
                    s2.add(b, ini['decl'] == 'const')
            b = self.bind(d['name'], s2)
        else:
            s2 = sc
            b = self.assign_target(ini, sc)
        e = self.expr(n['expression'], sc)
        body = self.stmt(n['statement'], s2, True)
        isin = n['k'] == 'ForInStatement'
        own = s2 is not sc
        labels = []

        def f(env):
            v = e(env)
            if isin:
                it = [str(i) for i in range(len(v.a))] if type(v) is Arr else [str(i) for i in range(v.n)] if type(v) is Typed else list(v.p)
            else:
                it = m.iterate(v)
            for x in it:
                e2 = s2.make(env) if own else env
                b(e2, x)
                m.steps += 1
                r = body(e2)
                if r is not None:
                    if r[0] == BREAK and (r[1] is None or r[1] in labels):
                        return None
                    if not (r[0] == CONTINUE and (r[1] is None or r[1] in labels)):
                        return r
            return None
        f.labels = labels
        return f

    def switch(self, n, sc):
        m = self.m
        e = self.expr(n['expression'], sc)
        cl = n['caseBlock']['clauses']
        s2 = Scope(sc, sc.func)
        allst = [s for c in cl for s in c['statements']]
        self.declare(allst, s2)
        cs = [(self.expr(c['expression'], s2) if c['k'] == 'CaseClause' else None, self.block(c['statements'], s2, new=False), c) for c in cl]

        def run(env, i):
            while i < len(cs):
                r = cs[i][1](env)
                if r is not None:
                    return None if r == (BREAK, None) else r
                i += 1
            return None

        def find(env, v, i):
            while i < len(cs):
                t = cs[i][0]
                if t is not None:
                    c = equal(m, v, t(env), True)
                    if type(c) is T:
                        j = i
                        ra, rb = m.both(c, lambda: run(env, j), lambda: find(env, v, j + 1))
                        if ra is None and rb is None:
                            return None
                        if type(ra) is tuple and type(rb) is tuple and ra[0] == rb[0] == RETURN:
                            return (RETURN, m.join(c, ra[1], rb[1]))
                        raise Unsupported('control flow that depends on a symbolic value')
                    if c:
                        return run(env, i)
                i += 1
            for i, c in enumerate(cs):
                if c[0] is None:
                    return run(env, i)
            return None

        def f(env):
            v = e(env)
            return find(s2.make(env), v, 0)
        return f

    # ---------------------------------------------------------------- expressions
    def assign_target(self, n, sc):
        """f(env, v)"""
        m = self.m
        k = n['k']
        if k == 'Identifier':
            return self.setvar(sc, n['escapedText'])
        if k == 'PropertyAccessExpression':
            o = self.expr(n['expression'], sc)
            key = n['name']['escapedText']
            return lambda env, v: m.setprop(o(env), key, v)
        if k == 'ElementAccessExpression':
            o, i = self.expr(n['expression'], sc), self.expr(n['argumentExpression'], sc)

            def f(env, v):
                x = o(env)
                m.setprop(x, propkey(i(env)), v)
            return f
        if k == 'ParenthesizedExpression':
            return self.assign_target(n['expression'], sc)
        if k == 'ArrayLiteralExpression':
            ts = [self.assign_target(e, sc) for e in n['elements']]

            def f(env, v):
                it = list(m.iterate(v))
                for j, t in enumerate(ts):
                    t(env, it[j] if j < len(it) else UNDEF)
            return f
        raise Unsupported('assignment to ' + k)

    def ref(self, n, sc):
        """(prepare, get, set): one evaluation of the operands of a compound assignment"""
        m = self.m
        k = n['k']
        while k == 'ParenthesizedExpression':
            n = n['expression']
            k = n['k']
        if k == 'Identifier':
            g, s = self.getvar(sc, n['escapedText']), self.setvar(sc, n['escapedText'])
            return (lambda env: None), (lambda env, r: g(env)), (lambda env, r, v: s(env, v))
        if k == 'PropertyAccessExpression':
            o = self.expr(n['expression'], sc)
            key = n['name']['escapedText']
            return o, (lambda env, r: m.prop(r, key)), (lambda env, r, v: m.setprop(r, key, v))
        if k == 'ElementAccessExpression':
            o, i = self.expr(n['expression'], sc), self.expr(n['argumentExpression'], sc)

            def prep(env):
                x = o(env)
                return x, propkey(i(env))
            return prep, (lambda env, r: m.prop(r[0], r[1])), (lambda env, r, v: m.setprop(r[0], r[1], v))
        raise Unsupported('assignment to ' + k)

    def args(self, ns, sc):
        es = [(self.expr(x['expression'], sc), True) if x['k'] == 'SpreadElement' else (self.expr(x, sc), False) for x in ns]
        m = self.m
        if not any(s for _, s in es):
            fs = [e for e, _ in es]
            return lambda env: [f(env) for f in fs]

        def f(env):
            out = []
            for e, s in es:
                if s:
                    out += list(m.iterate(e(env)))
                else:
                    out.append(e(env))
            return out
        return f

    def expr(self, n, sc):
        m = self.m
        k = n['k']
        if k == 'Identifier':
            return self.getvar(sc, n['escapedText'])
        if k == 'NumericLiteral':
            t = n['text'].replace('_', '')
            v = norm(float(t)) if not t.lower().startswith(('0x', '0b', '0o')) else int(t, 0)
            return lambda env: v
        if k in ('StringLiteral', 'NoSubstitutionTemplateLiteral'):
            v = n['text']
            return lambda env: v
        if k == 'TrueKeyword':
            return lambda env: True
        if k == 'FalseKeyword':
            return lambda env: False
        if k == 'NullKeyword':
            return lambda env: None
        if k == 'ThisKeyword':
            r = self.lookup(sc, 'this')
            return self.getvar(sc, 'this') if r else (lambda env: UNDEF)
        if k == 'ParenthesizedExpression':
            return self.expr(n['expression'], sc)
        if k == 'PropertyAccessExpression':
            o = self.expr(n['expression'], sc)
            key = n['name']['escapedText']
            if n.get('questionDotToken'):
                def f(env):
                    x = o(env)
                    return UNDEF if x is UNDEF or x is None else m.prop(x, key)
                return f

            def f(env):
                x = o(env)
                if x.__class__ is Obj:
                    v = x.p.get(key)
                    if v is not None and v.__class__ is not Accessor:
                        return v
                return m.prop(x, key)
            return f
        if k == 'ElementAccessExpression':
            o, i = self.expr(n['expression'], sc), self.expr(n['argumentExpression'], sc)

            def f(env):
                x = o(env)
                return m.prop(x, propkey(i(env)))
            return f
        if k in ('CallExpression',):
            return self.call(n, sc)
        if k == 'NewExpression':
            c = self.expr(n['expression'], sc)
            a = self.args(n.get('arguments', []), sc)
            return lambda env: m.construct(c(env), a(env))
        if k == 'BinaryExpression':
            return self.binary(n, sc)
        if k == 'ConditionalExpression':
            c, a, b = self.expr(n['condition'], sc), self.expr(n['whenTrue'], sc), self.expr(n['whenFalse'], sc)

            def f(env):
                t = truth(c(env))
                if type(t) is not T:
                    return a(env) if t else b(env)
                return m.ite(t, lambda: a(env), lambda: b(env))
            return f
        if k == 'PrefixUnaryExpression':
            op = n['operator']
            if op in ('++', '--'):
                p, g, s = self.ref(n['operand'], sc)
                d = 1 if op == '++' else -1

                def f(env):
                    r = p(env)
                    v = binop(m, '+', tonum(m, g(env, r)), d)
                    s(env, r, v)
                    return v
                return f
            e = self.expr(n['operand'], sc)
            if op == '!':
                def f(env):
                    t = truth(e(env))
                    return mkbool(S.not_(t)) if type(t) is T else not t
                return f
            if op == '-':
                return lambda env: neg(m, e(env))
            if op == '+':
                return lambda env: tonum(m, e(env))
            if op == '~':
                return lambda env: binop(m, '^', e(env), -1)
            raise Unsupported('operator ' + op)
        if k == 'PostfixUnaryExpression':
            p, g, s = self.ref(n['operand'], sc)
            d = 1 if n['operator'] == '++' else -1

            def f(env):
                r = p(env)
                v = tonum(m, g(env, r))
                s(env, r, binop(m, '+', v, d))
                return v
            return f
        if k in ('ArrowFunction', 'FunctionExpression'):
            return self.function(n, sc)
        if k == 'ClassExpression':
            return self.klass(n, sc)
        if k == 'ArrayLiteralExpression':
            a = self.args(n['elements'], sc)
            return lambda env: Arr(a(env))
        if k == 'ObjectLiteralExpression':
            return self.object(n, sc)
        if k == 'TemplateExpression':
            head = n['head']['text']
            ps = [(self.expr(s['expression'], sc), s['literal']['text']) for s in n['templateSpans']]
            return lambda env: head + ''.join(tostr(e(env)) + t for e, t in ps)
        if k == 'TypeOfExpression':
            e = self.expr(n['expression'], sc)

            def f(env):
                try:
                    return typeof(e(env))
                except JSThrow:
                    return 'undefined'
            return f
        if k == 'VoidExpression':
            e = self.expr(n['expression'], sc)

            def f(env):
                e(env)
                return UNDEF
            return f
        if k == 'AwaitExpression':
            e = self.expr(n['expression'], sc)
            return lambda env: wait(m, e(env))
        if k == 'OmittedExpression':
            return lambda env: UNDEF
        if k == 'DeleteExpression':
            raise Unsupported('delete')
        raise Unsupported('expression ' + k)

    def object(self, n, sc):
        m = self.m
        ps = []
        for e in n['properties']:
            k = e['k']
            if k == 'PropertyAssignment':
                ps.append((self.key(e['name'], sc), self.named(e['initializer'], sc, e['name'].get('escapedText', '')), None))
            elif k == 'ShorthandPropertyAssignment':
                nm = e['name']['escapedText']
                ps.append(((lambda nm: lambda env: nm)(nm), self.getvar(sc, nm), None))
            elif k == 'MethodDeclaration':
                ps.append((self.key(e['name'], sc), self.function(e, sc, e['name'].get('escapedText', '')), None))
            elif k in ('GetAccessor', 'SetAccessor'):
                ps.append((self.key(e['name'], sc), self.function(e, sc), k))
            elif k == 'SpreadAssignment':
                ps.append((None, self.expr(e['expression'], sc), None))
            else:
                raise Unsupported('object member ' + k)

        def f(env):
            o = Obj({})
            for key, e, acc in ps:
                if key is None:
                    v = e(env)
                    if isinstance(v, Obj):
                        o.p.update(v.p)
                elif acc:
                    kk = key(env)
                    a = o.p.get(kk) if type(o.p.get(kk)) is Accessor else Accessor()
                    if acc == 'GetAccessor':
                        a.get = e(env)
                    else:
                        a.set = e(env)
                    o.p[kk] = a
                else:
                    o.p[tostr(key(env))] = e(env)
            return o
        return f

    def call(self, n, sc):
        m = self.m
        c = n['expression']
        while c['k'] == 'ParenthesizedExpression':
            c = c['expression']
        a = self.args(n['arguments'], sc)
        opt = bool(n.get('questionDotToken'))
        if c['k'] == 'PropertyAccessExpression':
            o = self.expr(c['expression'], sc)
            key = c['name']['escapedText']
            opt2 = bool(c.get('questionDotToken'))

            def f(env):
                x = o(env)
                if opt2 and (x is UNDEF or x is None):
                    return UNDEF
                g = m.prop(x, key)
                if opt and (g is UNDEF or g is None):
                    return UNDEF
                if g is UNDEF:
                    raise JSThrow(Obj({'name': 'TypeError', 'message': key + ' is not a function'}, 'Error'))
                return m.call(g, x, a(env))
            return f
        if c['k'] == 'ElementAccessExpression':
            o, i = self.expr(c['expression'], sc), self.expr(c['argumentExpression'], sc)

            def f(env):
                x = o(env)
                return m.call(m.prop(x, propkey(i(env))), x, a(env))
            return f
        if c['k'] in ('SuperKeyword', 'ImportKeyword'):
            raise Unsupported(c['k'])
        g = self.expr(c, sc)

        def f(env):
            h = g(env)
            if opt and (h is UNDEF or h is None):
                return UNDEF
            return m.call(h, UNDEF, a(env))
        return f

    def binary(self, n, sc):
        m = self.m
        op = OPS.get(n['operatorToken']['k'])
        if op is None:
            raise Unsupported('operator ' + n['operatorToken']['k'])
        if op == '=':
            t = n['left']
            if t['k'] == 'ElementAccessExpression':
                o, i = self.expr(t['expression'], sc), self.expr(t['argumentExpression'], sc)
                e = self.expr(n['right'], sc)

                def f(env):
                    x = o(env)
                    y = propkey(i(env))
                    v = e(env)
                    m.setprop(x, y, v)
                    return v
                return f
            if t['k'] == 'PropertyAccessExpression':
                o = self.expr(t['expression'], sc)
                key = t['name']['escapedText']
                e = self.expr(n['right'], sc)

                def f(env):
                    x = o(env)
                    v = e(env)
                    m.setprop(x, key, v)
                    return v
                return f
            s = self.assign_target(t, sc)
            e = self.named(n['right'], sc, t.get('escapedText', ''))

            def f(env):
                v = e(env)
                s(env, v)
                return v
            return f
        if op in ('&&', '||', '??'):
            a, b = self.expr(n['left'], sc), self.expr(n['right'], sc)

            def f(env):
                x = a(env)
                if op == '??':
                    return b(env) if x is UNDEF or x is None else x
                t = truth(x)
                if type(t) is not T:
                    return (b(env) if t else x) if op == '&&' else (x if t else b(env))
                return m.ite(t, lambda: b(env), lambda: x) if op == '&&' else m.ite(t, lambda: x, lambda: b(env))
            return f
        if op == ',':
            a, b = self.expr(n['left'], sc), self.expr(n['right'], sc)

            def f(env):
                a(env)
                return b(env)
            return f
        if op[-1] == '=' and op not in ('==', '===', '!=', '!==', '<=', '>='):
            o = op[:-1]
            p, g, s = self.ref(n['left'], sc)
            e = self.expr(n['right'], sc)
            if o in ('&&', '||', '??'):
                def f(env):
                    r = p(env)
                    x = g(env, r)
                    t = not (x is UNDEF or x is None) if o == '??' else truth(x)
                    if type(t) is T:
                        raise Unsupported('logical assignment on a symbolic value')
                    if bool(t) != (o == '&&'):
                        return x
                    v = e(env)
                    s(env, r, v)
                    return v
                return f

            def f(env):
                r = p(env)
                v = binop(m, o, g(env, r), e(env))
                s(env, r, v)
                return v
            return f
        a, b = self.expr(n['left'], sc), self.expr(n['right'], sc)
        if op in ('===', '!==', '==', '!=', 'in', 'instanceof', '<', '>', '<=', '>='):
            return lambda env: binop(m, op, a(env), b(env))

        def f(env):
            x, y = a(env), b(env)
            if x.__class__ is int and y.__class__ is int:
                if op == '+':
                    return x + y
                if op == '*':
                    return x * y
            return binop(m, op, x, y)
        return f


OPS = {'PlusToken': '+', 'MinusToken': '-', 'AsteriskToken': '*', 'SlashToken': '/', 'PercentToken': '%', 'AsteriskAsteriskToken': '**',
       'AmpersandToken': '&', 'BarToken': '|', 'CaretToken': '^', 'LessThanLessThanToken': '<<', 'GreaterThanGreaterThanToken': '>>',
       'GreaterThanGreaterThanGreaterThanToken': '>>>', 'EqualsEqualsToken': '==', 'EqualsEqualsEqualsToken': '===',
       'ExclamationEqualsToken': '!=', 'ExclamationEqualsEqualsToken': '!==', 'LessThanToken': '<', 'GreaterThanToken': '>',
       'LessThanEqualsToken': '<=', 'GreaterThanEqualsToken': '>=', 'AmpersandAmpersandToken': '&&', 'BarBarToken': '||',
       'QuestionQuestionToken': '??', 'CommaToken': ',', 'EqualsToken': '=', 'InKeyword': 'in', 'InstanceOfKeyword': 'instanceof',
       'PlusEqualsToken': '+=', 'MinusEqualsToken': '-=', 'AsteriskEqualsToken': '*=', 'SlashEqualsToken': '/=',
       'PercentEqualsToken': '%=', 'AmpersandEqualsToken': '&=', 'BarEqualsToken': '|=', 'CaretEqualsToken': '^=',
       'LessThanLessThanEqualsToken': '<<=', 'GreaterThanGreaterThanEqualsToken': '>>=',
       'GreaterThanGreaterThanGreaterThanEqualsToken': '>>>=', 'AmpersandAmpersandEqualsToken': '&&=', 'BarBarEqualsToken': '||=',
       'QuestionQuestionEqualsToken': '??=', 'AsteriskAsteriskEqualsToken': '**='}


def contains(n, kinds):
    if isinstance(n, list):
        return any(contains(x, kinds) for x in n)
    if isinstance(n, dict):
        return n['k'] in kinds or any(contains(v, kinds) for v in n.values() if isinstance(v, (dict, list)))
    return False


def leaves(n):
    """does an if statement contain something that leaves the statement list?"""
    return contains([n['thenStatement'], n.get('elseStatement') or []], ('ReturnStatement', 'BreakStatement', 'ContinueStatement'))


def propkey(k):
    if type(k) is float:
        return norm(k) if norm(k) is not k else k
    if type(k) is Frac:
        raise Unsupported('symbolic fraction as an index')
    return k


def neg(m, v):
    v = tonum(m, v)
    return -v if type(v) in (int, float) else sarith('-', 0, v)


class Binding:
    """a live import"""

    def __init__(self, env, i):
        self.env, self.i = env, i

    def get(self):
        v = self.env[self.i]
        if v is TDZ:
            raise JSThrow(Obj({'name': 'ReferenceError', 'message': 'import used before its module ran'}, 'Error'))
        return v


# ------------------------------------------------------------------ modules

def load(m, trees, name, seen=()):
    """run module `name`; returns {export: Binding}"""
    if name in m.modules:
        return m.modules[name]
    stmts = trees[name]
    c = Compiler(m, name)
    top = Scope(None, None)
    top.func = top
    vs = []
    var_names(stmts, vs)
    for v in vs:
        top.add(v)
    exports = {}
    m.modules[name] = exports
    f = c.block(stmts, top, False, new=False)
    env = top.make(None)
    for v in vs:
        env[top.names[v]] = UNDEF
    for n in stmts:
        if n['k'] == 'ImportDeclaration':
            spec = n['moduleSpecifier']['text']
            dep = spec[2:] if spec.startswith('./') else spec
            if dep not in trees:
                raise Unsupported('import of ' + spec)
            ex = load(m, trees, dep)
            cl = n.get('importClause')
            if not cl:
                continue
            if cl.get('name'):
                env[top.names[cl['name']['escapedText']]] = ex['default']
            b = cl.get('namedBindings')
            if b and b['k'] == 'NamespaceImport':
                env[top.names[b['name']['escapedText']]] = Namespace(ex)
            elif b:
                for e in b['elements']:
                    src = (e.get('propertyName') or e['name'])['escapedText']
                    if src not in ex:
                        raise JSThrow('SyntaxError: no export ' + src)
                    env[top.names[e['name']['escapedText']]] = ex[src]
    for n in stmts:
        mods = [x['k'] for x in n.get('modifiers', ())]
        if 'ExportKeyword' in mods:
            if n['k'] == 'VariableStatement':
                for d in n['declarationList']['declarations']:
                    for b in bound(d['name']):
                        exports[b] = Binding(env, top.names[b])
            else:
                nm = n['name']['escapedText'] if n.get('name') else 'default'
                exports['default' if 'DefaultKeyword' in mods else nm] = Binding(env, top.names[nm])
        elif n['k'] == 'ExportAssignment':
            top.add('default')
            if len(env) <= len(top.names):
                env.append(TDZ)
            exports['default'] = Binding(env, top.names['default'])
        elif n['k'] == 'ExportDeclaration':
            if n.get('moduleSpecifier') or not n.get('exportClause'):
                raise Unsupported('re-export')
            for e in n['exportClause']['elements']:
                src = (e.get('propertyName') or e['name'])['escapedText']
                exports[e['name']['escapedText']] = Binding(env, top.names[src])
    r = f(env)
    return exports


class Namespace(Obj):
    def __init__(self, ex):
        Obj.__init__(self, {}, 'Module')
        self.ex = ex

    def get(self, m, k):
        return self.ex[k].get() if k in self.ex else UNDEF


# ------------------------------------------------------------------ promises

def promise(m, v=UNDEF, err=None):
    p = Obj({}, 'Promise')
    p.state = 'pending'
    p.value = UNDEF
    p.waiters = []
    settle(m, p, 'rejected' if err is not None else 'done', err if err is not None else v)
    return p


def settle(m, p, state, v):
    if state == 'done' and isinstance(v, Obj) and v.cls == 'Promise':
        on(m, v, lambda x: settle(m, p, 'done', x), lambda x: settle(m, p, 'rejected', x))
        return
    p.state, p.value = state, v
    ws, p.waiters = p.waiters, []
    for ok, bad in ws:
        m.jobs.append((lambda f, x: lambda: f(x))(ok if state == 'done' else bad, v))


def on(m, p, ok, bad):
    if p.state == 'pending':
        p.waiters.append((ok, bad))
    else:
        m.jobs.append(lambda: (ok if p.state == 'done' else bad)(p.value))


def pending(m):
    p = Obj({}, 'Promise')
    p.state, p.value, p.waiters = 'pending', UNDEF, []
    return p


def then(m, this, a):
    q = pending(m)

    def h(f, state):
        def g(v):
            if not isinstance(f, (Fun, Native)):
                return settle(m, q, state, v)
            try:
                r = m.call(f, UNDEF, [v])
            except JSThrow as e:
                return settle(m, q, 'rejected', e.v)
            settle(m, q, 'done', r)
        return g
    on(m, this, h(a[0] if a else UNDEF, 'done'), h(a[1] if len(a) > 1 else UNDEF, 'rejected'))
    return q


def wait(m, v):
    if not (isinstance(v, Obj) and v.cls == 'Promise'):
        return v
    n = 0
    while v.state == 'pending':
        n += 1
        if not (m.jobs or m.timers) or n > 10000:
            raise Unsupported('await of a promise that never settles')
        (m.jobs or m.timers).pop(0)()
    if v.state == 'rejected':
        raise JSThrow(v.value)
    return v.value


# ------------------------------------------------------------------ library

def _cb(a):
    if not a or not isinstance(a[0], (Fun, Native)):
        raise JSThrow(Obj({'name': 'TypeError', 'message': 'not a function'}, 'Error'))
    return a[0]


def _items(t):
    return t.a if type(t) is Arr else [t.at(i) for i in range(t.n)]


def _foreach(m, t, a):
    f = _cb(a)
    for i in range(len(t.a) if type(t) is Arr else t.n):
        m.call(f, UNDEF, [t.a[i] if type(t) is Arr else t.at(i), i, t])
    return UNDEF


def _map(m, t, a):
    f = _cb(a)
    return Arr([m.call(f, UNDEF, [x, i, t]) for i, x in enumerate(list(_items(t)))])


def _reduce(m, t, a):
    f = _cb(a)
    it = list(_items(t))
    i = 0
    if len(a) > 1:
        r = a[1]
    else:
        r = it[0]
        i = 1
    while i < len(it):
        r = m.call(f, UNDEF, [r, it[i], i, t])
        i += 1
    return r


def _push(m, t, a):
    if m.log is not None:
        raise Unsupported('array growth under a symbolic condition')
    t.a.extend(a)
    return len(t.a)


def _fill(m, t, a):
    n = len(t.a) if type(t) is Arr else t.n
    lo, hi = bounds(a[1:], n)
    for i in range(lo, hi):
        if type(t) is Arr:
            m.write(t.a, i, a[0])
        else:
            t.put(m, i, a[0])
    return t


def _tset(m, t, a):
    off = toint(a[1]) if len(a) > 1 else 0
    it = list(_items(a[0]))
    if off < 0 or off + len(it) > t.n:
        raise JSThrow(Obj({'name': 'RangeError', 'message': 'offset is out of bounds'}, 'Error'))
    if type(a[0]) is Typed and a[0].size == 1 and t.size == 1 and t.mode != 2:
        bs = a[0].buf.b[a[0].off:a[0].off + a[0].n]
        for i, x in enumerate(bs):
            m.write(t.buf.b, t.off + off + i, x)
        return UNDEF
    for i, x in enumerate(it):
        t.put(m, off + i, x)
    return UNDEF


def _subarray(m, t, a):
    lo, hi = bounds(a, t.n)
    return Typed(t.cls, t.buf, t.off + lo * t.size, hi - lo)


def _tslice(m, t, a):
    lo, hi = bounds(a, t.n)
    return Typed(t.cls, Buffer(t.buf.b[t.off + lo * t.size:t.off + hi * t.size]), 0, hi - lo)


def _slice(m, t, a):
    lo, hi = bounds(a, len(t.a))
    return Arr(t.a[lo:hi])


def _entries(m, t, a):
    return Arr([Arr([i, x]) for i, x in enumerate(_items(t))])


def _keys(m, t, a):
    return Arr(list(range(len(_items(t)))))


ARRAY_METHODS = dict(forEach=_foreach, map=_map, reduce=_reduce, push=_push, fill=_fill, slice=_slice, entries=_entries, keys=_keys,
                     values=lambda m, t, a: t, join=lambda m, t, a: (tostr(a[0]) if a else ',').join(tostr(x) for x in t.a),
                     reverse=lambda m, t, a: (t.a.reverse(), t)[1],
                     concat=lambda m, t, a: Arr(t.a + [y for x in a for y in (x.a if type(x) is Arr else [x])]),
                     filter=lambda m, t, a: Arr([x for i, x in enumerate(t.a) if _sure(truth(m.call(_cb(a), UNDEF, [x, i, t])))]))
TYPED_METHODS = dict(forEach=_foreach, reduce=_reduce, fill=_fill, subarray=_subarray, slice=_tslice, entries=_entries, keys=_keys,
                     values=lambda m, t, a: t, set=_tset)


def _sure(c):
    if type(c) is T:
        raise Unsupported('filter on a symbolic condition')
    return c


def _apply(m, t, a):
    return m.call(t, a[0] if a else UNDEF, list(a[1].a) if len(a) > 1 and type(a[1]) is Arr else [])


def _bind(m, t, a):
    pre = list(a[1:])
    return Native(lambda m, _, b: m.call(t, a[0] if a else UNDEF, pre + list(b)))


FUNC_METHODS = dict(call=lambda m, t, a: m.call(t, a[0] if a else UNDEF, list(a[1:])), apply=_apply, bind=_bind)
OBJECT_METHODS = dict(hasOwnProperty=lambda m, t, a: a[0] in t.p, toString=lambda m, t, a: tostr(t))
STRING_METHODS = dict(startsWith=lambda m, t, a: t.startswith(a[0]), endsWith=lambda m, t, a: t.endswith(a[0]),
                      includes=lambda m, t, a: a[0] in t, toLowerCase=lambda m, t, a: t.lower(), trim=lambda m, t, a: t.strip(),
                      charCodeAt=lambda m, t, a: ord(t[toint(a[0])]), padStart=lambda m, t, a: t.rjust(toint(a[0]), a[1] if len(a) > 1 else ' '))
NUMBER_METHODS = dict(toString=lambda m, t, a: tostr(t) if not a or a[0] == 10 else '%x' % t if a[0] == 16 else bin(t)[2:])


def _minmax(least):
    def f(m, t, a):
        r = math.inf if least else -math.inf
        first = True
        for x in a:
            x = tonum(m, x)
            if first:
                r, first = x, False
                continue
            if type(x) is N or type(r) is N:
                c = binop(m, '<', x, r) if least else binop(m, '<', r, x)
                r = m.join(c.t, x, r) if type(c) is B else x if c else r
            else:
                r = min(x, r) if least else max(x, r)
        return r
    return f


def _imul(m, t, a):
    return num32(S.mul(to32(tonum(m, a[0])), to32(tonum(m, a[1])), 32), True)


def _abs(m, t, a):
    v = tonum(m, a[0])
    if type(v) is not N:
        return abs(v)
    if v.lo >= 0:
        return v
    return m.join(S.slt(to64(v), 0, 64), neg(m, v), v)


def arg(a, i):
    return a[i] if i < len(a) else UNDEF


def _typed(kind):
    size, mode = KINDS[kind]

    def make(m, a):
        x = arg(a, 0)
        if type(x) is Buffer:
            off = toint(arg(a, 1))
            if off % size or off > len(x.b):
                raise JSThrow(Obj({'name': 'RangeError', 'message': 'start offset'}, 'Error'))
            if arg(a, 2) is UNDEF:
                if (len(x.b) - off) % size:
                    raise JSThrow(Obj({'name': 'RangeError', 'message': 'byte length'}, 'Error'))
                n = (len(x.b) - off) // size
            else:
                n = toint(a[2])
                if off + n * size > len(x.b) or n < 0:
                    raise JSThrow(Obj({'name': 'RangeError', 'message': 'invalid typed array length'}, 'Error'))
            return Typed(kind, x, off, n)
        if isinstance(x, Obj):
            it = list(_items(x)) if type(x) in (Arr, Typed) else None
            if it is None:
                raise Unsupported('typed array of an object')
            t = Typed(kind, Buffer([0] * (len(it) * size)), 0, len(it))
            save, m.log = m.log, None
            for i, v in enumerate(it):
                t.put(m, i, v)
            m.log = save
            return t
        n = toint(x) if x is not UNDEF else 0
        return Typed(kind, Buffer([0] * (n * size)), 0, n)

    def frm(m, t, a):
        it = _items(a[0]) if type(a[0]) in (Arr, Typed) else [UNDEF] * toint(a[0].get(m, 'length'))
        if len(a) > 1:
            it = [m.call(a[1], UNDEF, [x, i]) for i, x in enumerate(it)]
        return make(m, [Arr(list(it))])
    return Native(lambda m, t, a: (_ for _ in ()).throw(JSThrow('TypeError: constructor requires new')), make,
                  {'name': kind, 'BYTES_PER_ELEMENT': size, 'from': Native(frm), 'of': Native(lambda m, t, a: make(m, [Arr(list(a))]))})


def _array(m, a):
    if len(a) == 1 and type(a[0]) is int:
        return Arr([UNDEF] * a[0])
    return Arr(list(a))


def _arrayfrom(m, t, a):
    x = a[0]
    if type(x) in (Arr, Typed):
        it = list(_items(x))
    elif type(x) is str:
        it = list(x)
    else:
        it = [UNDEF] * toint(x.get(m, 'length'))
    if len(a) > 1:
        it = [m.call(a[1], UNDEF, [v, i]) for i, v in enumerate(it)]
    return Arr(it)


def _dataview(m, a):
    buf = a[0]
    off = toint(arg(a, 1))
    n = toint(a[2]) if arg(a, 2) is not UNDEF else len(buf.b) - off
    if off < 0 or n < 0 or off + n > len(buf.b):
        raise JSThrow(Obj({'name': 'RangeError', 'message': 'view out of bounds'}, 'Error'))
    o = Obj({}, 'DataView')

    def getter(kind):
        def f(m, t, a):
            i = toint(a[0])
            size = KINDS[kind][0]
            if i < 0 or i + size > n:
                raise JSThrow(Obj({'name': 'RangeError', 'message': 'offset out of bounds'}, 'Error'))
            bs = buf.b[off + i:off + i + size]
            if not truth(arg(a, 1)):
                bs = bs[::-1]
            return Typed(kind, Buffer(bs), 0, 1).at(0)
        return Native(f)

    def setter(kind):
        def f(m, t, a):
            i = toint(a[0])
            size = KINDS[kind][0]
            if i < 0 or i + size > n:
                raise JSThrow(Obj({'name': 'RangeError', 'message': 'offset out of bounds'}, 'Error'))
            save, m.log = m.log, None
            x = Typed(kind, Buffer([0] * size), 0, 1)
            x.put(m, 0, a[1])
            m.log = save
            bs = x.buf.b if truth(arg(a, 2)) else x.buf.b[::-1]
            for k, b in enumerate(bs):
                m.write(buf.b, off + i + k, b)
            return UNDEF
        return Native(f)
    for kind in KINDS:
        if 'Clamped' not in kind:
            o.p['get' + kind[:-5]] = getter(kind)
            o.p['set' + kind[:-5]] = setter(kind)
    o.p['byteLength'] = n
    o.p['byteOffset'] = off
    o.p['buffer'] = buf
    return o


def _error(name):
    return Native(lambda m, t, a: Obj({'name': name, 'message': arg(a, 0)}, 'Error'),
                  lambda m, a: Obj({'name': name, 'message': arg(a, 0)}, 'Error'), {'name': 'Error'})


def _promise_ctor(m, a):
    p = pending(m)
    try:
        m.call(a[0], UNDEF, [Native(lambda m, t, b: (settle(m, p, 'done', arg(b, 0)) if p.state == 'pending' else None, UNDEF)[1]),
                             Native(lambda m, t, b: (settle(m, p, 'rejected', arg(b, 0)) if p.state == 'pending' else None, UNDEF)[1])])
    except JSThrow as e:
        settle(m, p, 'rejected', e.v)
    return p


def _promise_all(m, t, a):
    return promise(m, Arr([wait(m, x) for x in m.iterate(a[0])]))


def base_globals():
    nat = lambda f: Native(lambda m, t, a: f(m, t, a))
    num = lambda f: Native(lambda m, t, a: f(tonum(m, arg(a, 0)) if type(arg(a, 0)) is not Frac else a[0]))
    g = {}
    g['Math'] = Obj(dict(floor=num(floor), trunc=num(trunc), ceil=num(lambda v: v if type(v) in (int, N) else _ceil(v)),
                         round=num(lambda v: v if type(v) in (int, N) else floor(v + 0.5) if type(v) is float else _frac()),
                         min=Native(_minmax(True)), max=Native(_minmax(False)), abs=Native(_abs), imul=Native(_imul),
                         pow=Native(lambda m, t, a: binop(m, '**', tonum(m, a[0]), tonum(m, a[1]))),
                         sign=num(lambda v: (v > 0) - (v < 0) if type(v) in (int, float) else _frac()), PI=math.pi), 'Math')
    for k in KINDS:
        g[k] = _typed(k)
    g['ArrayBuffer'] = Native(lambda m, t, a: None, lambda m, a: Buffer([0] * toint(a[0])), {'name': 'ArrayBuffer'})
    g['DataView'] = Native(lambda m, t, a: None, _dataview, {'name': 'DataView'})
    g['Array'] = Native(lambda m, t, a: _array(m, a), _array, {'name': 'Array', 'from': Native(_arrayfrom),
                        'isArray': Native(lambda m, t, a: type(arg(a, 0)) is Arr), 'of': Native(lambda m, t, a: Arr(list(a)))})
    g['Object'] = Native(lambda m, t, a: Obj({}), lambda m, a: Obj({}), {
        'name': 'Object', 'freeze': Native(lambda m, t, a: a[0]), 'keys': Native(lambda m, t, a: Arr(list(a[0].p))),
        'entries': Native(lambda m, t, a: Arr([Arr([k, v]) for k, v in a[0].p.items()])),
        'assign': Native(lambda m, t, a: ([a[0].p.update(x.p) for x in a[1:]], a[0])[1])})
    g['Number'] = Native(lambda m, t, a: tonum(m, arg(a, 0)), None, {'isInteger': Native(lambda m, t, a: type(arg(a, 0)) in (int, N)),
                         'MAX_SAFE_INTEGER': MAXINT - 1})
    g['Boolean'] = Native(lambda m, t, a: mkbool(truth(arg(a, 0))))
    g['String'] = Native(lambda m, t, a: tostr(arg(a, 0)) if a else '')
    g['parseInt'] = Native(lambda m, t, a: int(tostr(a[0]), toint(arg(a, 1)) or 10))
    g['isNaN'] = Native(lambda m, t, a: type(tonum(m, arg(a, 0))) is float and tonum(m, a[0]) != tonum(m, a[0]))
    for e in ('Error', 'TypeError', 'RangeError', 'SyntaxError', 'ReferenceError'):
        g[e] = _error(e)
    g['Promise'] = Native(lambda m, t, a: None, _promise_ctor, {
        'name': 'Promise', 'resolve': Native(lambda m, t, a: arg(a, 0) if isinstance(arg(a, 0), Obj) and a[0].cls == 'Promise' else promise(m, arg(a, 0))),
        'reject': Native(lambda m, t, a: promise(m, None, arg(a, 0))), 'all': Native(_promise_all)})
    log = Native(lambda m, t, a: UNDEF)
    g['console'] = Obj(dict(log=log, error=log, warn=log, info=log, debug=log, time=log, timeEnd=log, assert_=log))
    g['console'].p['assert'] = log
    g['TextDecoder'] = Native(lambda m, t, a: None, lambda m, a: Obj({}, 'TextDecoder'), {'name': 'TextDecoder'})
    g['TextEncoder'] = Native(lambda m, t, a: None, lambda m, a: Obj({}, 'TextEncoder'), {'name': 'TextEncoder'})
    g['NaN'] = math.nan
    g['Infinity'] = math.inf
    later = Native(lambda m, t, a: (m.timers.append(lambda: m.call(a[0], UNDEF, list(a[2:]) or [0])), 1)[1])
    g['setTimeout'] = later
    g['requestAnimationFrame'] = later
    g['queueMicrotask'] = Native(lambda m, t, a: (m.jobs.append(lambda: m.call(a[0], UNDEF, [])), UNDEF)[1])
    g['performance'] = Obj(dict(now=Native(lambda m, t, a: 0)))
    return g


def _frac():
    raise Unsupported('rounding of a symbolic number')


def _ceil(v):
    if type(v) is Frac:
        raise Unsupported('rounding of a symbolic number')
    return v if v != v or math.isinf(v) else math.ceil(v)


PROMISE_PROTO = {}


def install_promise():
    def get(self, m, k):
        if self.cls == 'Promise':
            if k == 'then':
                return Native(then)
            if k == 'catch':
                return Native(lambda m, t, a: then(m, t, [UNDEF, arg(a, 0)]))
            if k == 'finally':
                def fin(m, t, a):
                    f = arg(a, 0)

                    def ok(m, _, b):
                        m.call(f, UNDEF, [])
                        return arg(b, 0)

                    def bad(m, _, b):
                        m.call(f, UNDEF, [])
                        raise JSThrow(arg(b, 0))
                    return then(m, t, [Native(ok), Native(bad)])
                return Native(fin)
        return base(self, m, k)
    base = Obj.get
    Obj.get = get


install_promise()
