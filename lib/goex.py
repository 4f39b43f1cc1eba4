"""Symbolic executor for Go, over the SSA form dumped by gossa from the generator's current
source.  Paths are explored by re-execution with a decision prefix; a branch on a symbolic
condition is merged at its immediate postdominator when both arms are free of side effects
(if-then-else terms for the values that differ) and forked otherwise."""
import itertools
import sys

import ex
import gotext
import sym as S

T = S.T
MASK = S.MASK

INTS = {'int': (64, 1), 'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int64': (64, 1), 'rune': (32, 1),
        'uint': (64, 0), 'uint8': (8, 0), 'uint16': (16, 0), 'uint32': (32, 0), 'uint64': (64, 0), 'byte': (8, 0),
        'uintptr': (64, 0), 'bool': (1, 0), 'untyped int': (64, 1), 'untyped rune': (32, 1), 'untyped bool': (1, 0)}
CLASSES = [8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448,
           480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456,
           4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384,
           18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768]


class Unsupported(Exception):
    pass


class Impure(Exception):
    pass


class Panic(Exception):
    """a Go panic"""


class Limit(Exception):
    pass


class Infeasible(Exception):
    pass


class Obj:
    __slots__ = ('v', 'id', 't')

    def __init__(self, v, n, t=None):
        self.v = v
        self.id = n
        self.t = t          # type of the value; of the elements when v is a list


class Ptr:
    __slots__ = ('o', 'p')

    def __init__(self, o, p=()):
        self.o = o
        self.p = p

    def __eq__(self, b):
        return type(b) is Ptr and self.o is b.o and self.p == b.p

    def __hash__(self):
        return hash((id(self.o), self.p))


class Slice:
    __slots__ = ('o', 'off', 'n', 'cap')

    def __init__(self, o, off, n, cap):
        self.o = o
        self.off = off
        self.n = n
        self.cap = cap

    def __eq__(self, b):
        return type(b) is Slice and self.o is b.o and (self.off, self.n, self.cap) == (b.off, b.n, b.cap)

    def __hash__(self):
        return hash((id(self.o), self.off, self.n))


NILS = Slice(None, 0, 0, 0)


class Map:
    __slots__ = ('items', 'id')

    def __init__(self, n):
        self.items = []
        self.id = n


class Iface:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t = t
        self.v = v

    def __eq__(self, b):
        return type(b) is Iface and self.t == b.t and self.v == b.v

    def __hash__(self):
        return hash(self.t)


class Fn:
    __slots__ = ('name', 'b')

    def __init__(self, name, b=()):
        self.name = name
        self.b = b


class Native:
    """a callable given to Go code; f(machine, args) -> value"""

    def __init__(self, f):
        self.f = f


class Foreign:
    """a Python object behind a Go interface; methods: name -> f(machine, args)"""

    def __init__(self, methods):
        self.methods = methods


class Str:
    """a string of symbolic runes of known UTF-8 lengths: ((value, bytes), ...)"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = tuple(r)

    def __eq__(self, b):
        return type(b) is Str and len(self.r) == len(b.r) and all(x[1] == y[1] and x[0] is y[0] or x == y for x, y in zip(self.r, b.r))

    def __hash__(self):
        return hash(tuple(n for _, n in self.r))


class Opaque:
    """text that is only printed"""


OPAQUE = Opaque()


def runes(s):
    """[(rune, bytes)] of a string"""
    if type(s) is Str:
        return list(s.r)
    out = []
    i = 0
    while i < len(s):
        for n in (1, 2, 3, 4):
            try:
                c = s[i:i + n].decode()
                if len(c) == 1:
                    out.append((ord(c), n))
                    i += n
                    break
            except UnicodeDecodeError:
                pass
        else:
            out.append((0xFFFD, 1))
            i += 1
    return out


def slen(s):
    if type(s) is Str:
        if any(n is None for _, n in s.r):
            raise Unsupported('length of quoted text')
        return sum(n for _, n in s.r)
    return len(s)


def sbyte(s, i):
    if type(s) is bytes:
        return s[i]
    for v, n in s.r:
        if i < n:
            if type(v) is int:
                return chr(v).encode()[i]
            if n == 1:
                t = S.trunc(v, 32, 8)
                if v in gotext.DIG:
                    gotext.DIG[t] = gotext.DIG[v]
                return t
            bits = 6 * (n - 1 - i)
            if i:
                return S.or_(0x80, S.zext(S.slice_(v, bits, 6, 32), 6, 8), 8)
            k = {2: 5, 3: 4, 4: 3}[n]
            return S.or_({2: 0xC0, 3: 0xE0, 4: 0xF0}[n], S.zext(S.slice_(v, bits, k, 32), k, 8), 8)
        i -= n
    raise IndexError


def utf8(v):
    if 0xD800 <= v < 0xE000 or v > 0x10FFFF:
        v = 0xFFFD
    return chr(v).encode()


def pite(c, x, y, w):
    """if-then-else, bit range by bit range when only few bits differ"""
    if w > 1 and (type(x) is T and x.op in ('cat', 'lin', 'ite') or type(y) is T and y.op in ('cat', 'lin', 'ite')):
        al = list(S._align(S._split_const(S.pieces(x, w)), S._split_const(S.pieces(y, w))))
        out = []
        diff = 0
        for a, b in al:
            if a == b or a[0] is b[0] and a[1:] == b[1:]:
                out.append(a)
                continue
            n = a[2]
            diff += n
            if n > 4 or diff > 4:
                return S.ite(c, x, y, w)
            for k in range(n - 1, -1, -1):
                p = (a[1] >> k) & 1 if a[0] is None else S.slice_(a[0], a[1] + k, 1, a[0].w)
                q = (b[1] >> k) & 1 if b[0] is None else S.slice_(b[0], b[1] + k, 1, b[0].w)
                z = S.ite(c, p, q, 1)
                out.append((None, z, 1) if type(z) is int else (z, 0, 1))
        return S.mk_cat(tuple(out))
    return S.ite(c, x, y, w)


class Program:
    def __init__(self, j):
        self.types = j['types']
        self.fns = j['fns']
        self.methods = j['methods']
        self.byname = {t['s']: i for i, t in enumerate(self.types)}
        self._ip = {}
        self._live = {}
        self.impure = set()

    def width(self, t):
        ty = self.types[t]
        if ty['k'] == 'basic':
            return INTS.get(ty['n'])
        return None

    def zero(self, t):
        ty = self.types[t]
        k = ty['k']
        if k == 'basic':
            if ty['n'] in INTS:
                return 0
            if 'string' in ty['n']:
                return b''
            if 'float' in ty['n']:
                return 0.0
            return None
        if k == 'slice':
            return NILS
        if k == 'struct':
            return tuple(self.zero(x) for x in ty['f'])
        if k == 'array':
            z = self.zero(ty['e'])
            return tuple(z for _ in range(ty['l']))
        if k == 'tuple':
            return tuple(self.zero(x) for x in ty['f'])
        return None

    def size(self, t):
        ty = self.types[t]
        k = ty['k']
        if k == 'basic':
            if ty['n'] in INTS:
                return max(1, INTS[ty['n']][0] // 8)
            return 16 if 'string' in ty['n'] else 8
        if k == 'slice':
            return 24
        if k == 'iface':
            return 16
        if k == 'struct':
            n = 0
            al = 1
            for f in ty['f']:
                s = self.size(f)
                a = min(8, s & -s if s else 1)
                n = (n + a - 1) // a * a + s
                al = max(al, a)
            return (n + al - 1) // al * al
        if k == 'array':
            return self.size(ty['e']) * ty['l']
        return 8

    def ipdoms(self, name):
        """immediate postdominators of the blocks (None: the function's return); blocks that
        only panic do not count"""
        r = self._ip.get(name)
        if r is not None:
            return r
        bl = self.fns[name]['blocks']
        n = len(bl)
        EXIT = n
        succ = []
        dead = set()
        for i, b in enumerate(bl):
            if not b['s']:
                succ.append([EXIT])
                if b['i'] and b['i'][-1]['o'] == 'panic':
                    dead.add(i)
            else:
                succ.append(list(b['s']))
        live = [i for i in range(n) if i not in dead]
        pd = {i: set(live) | {EXIT} for i in live}
        pd[EXIT] = {EXIT}
        ch = True
        while ch:
            ch = False
            for i in reversed(live):
                ss = [s for s in succ[i] if s not in dead]
                new = set.intersection(*[pd[s] for s in ss]) if ss else set()
                new = new | {i}
                if new != pd[i]:
                    pd[i] = new
                    ch = True
        r = {}
        for i in live:
            c = pd[i] - {i}
            best = None
            for x in c:
                if all(y in pd[x] for y in c):
                    best = x
            r[i] = best
        self._ip[name] = (r, EXIT)
        return self._ip[name]


    def live(self, name):
        """registers live on entry to each block (after its phis)"""
        r = self._live.get(name)
        if r is not None:
            return r
        bl = self.fns[name]['blocks']

        def regs(x, out):
            if isinstance(x, dict):
                if 'r' in x and isinstance(x['r'], str):
                    out.add(x['r'])
                for v in x.values():
                    regs(v, out)
            elif isinstance(x, list):
                for v in x:
                    regs(v, out)
        use, dfn, edge, types = [], [], [], {}
        for b in bl:
            u, d = set(), set()
            e = [set() for _ in b['p']]
            for i in b['i']:
                if 'd' in i:
                    types[i['d']] = i['t']
                if i['o'] == 'phi':
                    for k, x in enumerate(i['e']):
                        regs(x, e[k])
                    continue
                t = set()
                for k, x in i.items():
                    if k == 'r' and i['o'] != 'ret':
                        continue
                    regs(x, t)
                u |= t - d
                if 'd' in i:
                    d.add(i['d'])
            use.append(u)
            dfn.append(d)
            edge.append(e)
        live = [set(u) for u in use]
        phid = [{i['d'] for i in b['i'] if i['o'] == 'phi'} for b in bl]
        ch = True
        while ch:
            ch = False
            for k in range(len(bl) - 1, -1, -1):
                o = set()
                for s in bl[k]['s']:
                    o |= live[s] - phid[s]
                    for j, p in enumerate(bl[s]['p']):
                        if p == k:
                            o |= edge[s][j]
                new = use[k] | (o - dfn[k])
                if new != live[k]:
                    live[k] = new
                    ch = True
        ptypes = dict(zip(self.fns[name]['params'], self.fns[name]['ptypes']))
        types.update(ptypes)
        self._live[name] = (live, phid, types)
        return self._live[name]


class Join:
    """values that two arms of a branch computed, as one: c ? x : y"""

    def __init__(self, m, c, first):
        self.m = m
        self.c = c
        self.first = first
        self.made = {}
        self.side = ({}, {})

    def value(self, x, y, t):
        if x is y:
            return x
        ty = self.m.p.types[t] if t is not None else None
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            if type(x) is int and type(y) is int and x == y:
                return x
            w = self.m.p.width(t) if t is not None else None
            if w is None:
                if type(x) is T or type(y) is T:
                    w = ((x if type(x) is T else y).w, 0)
                else:
                    raise Impure()
            return pite(self.c, x, y, w[0])
        if type(x) is tuple and type(y) is tuple and len(x) == len(y) and x and x[0] != 'symptr':
            if ty is not None and ty['k'] in ('struct', 'tuple'):
                ts = ty['f']
            elif ty is not None and ty['k'] == 'array':
                ts = [ty['e']] * len(x)
            else:
                ts = [None] * len(x)
            return tuple(self.value(a, b, u) for a, b, u in zip(x, y, ts))
        if type(x) is type(y) and x == y and type(x) in (bytes, Str, Slice, Ptr, Iface):
            return x
        if type(x) is Slice and type(y) is Slice and x.o is not None and y.o is not None and (x.off, x.n, x.cap) == (y.off, y.n, y.cap):
            return Slice(self.obj(x.o, y.o), x.off, x.n, x.cap)
        if type(x) is Ptr and type(y) is Ptr and x.p == y.p:
            return Ptr(self.obj(x.o, y.o), x.p)
        if x is OPAQUE or y is OPAQUE:
            return OPAQUE
        if x is None and y is None:
            return None
        raise Impure()

    def obj(self, a, b):
        """one object for two that the arms made"""
        if a is b:
            return a
        r = self.made.get((a, b))
        if r is not None:
            return r
        if a in self.side[0] or b in self.side[1]:
            raise Impure()
        if not (a.id >= self.first and b.id >= self.first):
            raise Impure()
        self.side[0][a] = self.side[1][b] = 1
        if a.t != b.t:
            raise Impure()
        r = Obj(None, next(self.m.n))
        r.t = a.t
        self.made[a, b] = r
        r.v = self.memory(a.v, b.v, a.t, True)
        return r

    def memory(self, x, y, t, whole=False):
        """contents of memory; t: the element type of lists, else the type of the value"""
        if type(x) is list and type(y) is list:
            if len(x) != len(y):
                raise Impure()
            return [self.value(a, b, t) for a, b in zip(x, y)]
        return self.value(x, y, t)


class Machine:
    """one path"""

    def __init__(self, prog, solver, prefix, overrides, steps=3000000):
        self.p = prog
        self.solver = solver
        self.prefix = prefix
        self.made = []
        self.more = []
        self.pc = []
        self.n = itertools.count()
        self.steps = steps
        self.pure = None
        self.log = None
        self.decide_first = False
        self.decided = {}
        self.over = overrides
        self.globals = {}
        self.instrs = 0
        self.seen = set()
        self.merges = 0
        self.feas = 0

    # ---------------------------------------------------------------- objects
    def new(self, v, t=None):
        return Obj(v, next(self.n), t)

    def mkslice(self, vals, t=None):
        vals = list(vals)
        o = self.new(vals, t)
        n = len(vals)
        return Slice(o, 0, n, n)

    def items(self, s):
        return s.o.v[s.off:s.off + s.n] if s.n else []

    def load(self, p):
        if type(p) is not Ptr:
            if p is None:
                raise Panic('nil dereference')
            raise Unsupported('load of %r' % (p,))
        v = p.o.v
        for i in p.p:
            v = v[i]
        return v

    def store(self, p, x):
        if type(p) is not Ptr:
            raise Panic('nil dereference')

        def upd(v, path):
            if not path:
                return x
            w = list(v)
            w[path[0]] = upd(w[path[0]], path[1:])
            return tuple(w)
        if p.p and type(p.o.v) is list:
            self.setloc(p.o, p.p[0], upd(p.o.v[p.p[0]], p.p[1:]))
        else:
            self.setloc(p.o, None, upd(p.o.v, p.p))

    def setloc(self, o, k, x):
        """write element k (or all) of an object, remembering the old value inside a merge region"""
        if self.pure is not None and o.id < self.pure and (o, k) not in self.log:
            self.log[o, k] = o.v if k is None else o.v[k]
        if k is None:
            o.v = x
        else:
            o.v[k] = x

    # ---------------------------------------------------------------- decisions
    def branch(self, c):
        if type(c) is int:
            return bool(c)
        if self.pure is not None:
            raise Impure()
        if c in self.pc:
            return True
        nc = S.not_(c)
        if nc in self.pc:
            return False
        k = len(self.made)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            self.feas += 1
            r, _ = self.solver.check(self.pc + [c])
            if r == 'unsat':
                v = False
            else:
                r2, _ = self.solver.check(self.pc + [nc])
                if r2 == 'unsat':
                    v = True
                    if r == 'unknown':
                        raise Unsupported('undecided branch')
                else:
                    v = True
                    self.more.append(self.made + [False])
        self.made.append(v)
        self.pc.append(c if v else nc)
        return v

    def known(self, c):
        """is c decided by the path condition?"""
        if c in self.pc or S.not_(c) in self.pc:
            return True
        if self.pure is not None:
            return False
        r = self.decided.get(c)
        if r is None:
            self.feas += 1
            r = self.solver.check(self.pc + [c])[0] == 'unsat' or self.solver.check(self.pc + [S.not_(c)])[0] == 'unsat'
            if r:
                self.decided[c] = r
        return r

    def choose(self, n):
        """a nondeterministic choice"""
        if n == 1:
            return 0
        if self.pure is not None:
            raise Impure()
        k = len(self.made)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for j in range(1, n):
                self.more.append(self.made + [j])
        self.made.append(v)
        return v

    # ---------------------------------------------------------------- values
    def value(self, v, regs):
        if 'r' in v:
            return regs[v['r']]
        if 'c' in v:
            t = v['t']
            x = v['v']
            if x is None:
                return self.p.zero(t)
            if v.get('str'):
                import base64
                return base64.b64decode(x)
            if v.get('float'):
                return float(eval(x)) if '/' in x else float(x)
            if x is True or x is False:
                return int(x)
            w = self.p.width(t)
            if w is None:
                return float(x)
            return int(x) & MASK[w[0]]
        if 'f' in v:
            return Fn(v['f'])
        if 'g' in v:
            g = self.globals.get(v['g'])
            if g is None:
                ty = self.p.types[v['t']]
                g = self.globals[v['g']] = Ptr(Obj(self.p.zero(ty['e']), -1, ty['e']))
            return g
        if 'b' in v:
            return ('builtin', v['b'])
        raise Unsupported('value %s' % v)

    def same(self, x, y, t=None):
        """equality of two Go values as a 1-bit term"""
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            w = x.w if type(x) is T else y.w if type(y) is T else 64
            return S.eq(x, y, w)
        if isinstance(x, (bytes, Str)) and isinstance(y, (bytes, Str)):
            if type(x) is bytes and type(y) is bytes:
                return int(x == y)
            if slen(x) != slen(y):
                return 0
            return S.band(*[S.eq(sbyte(x, i), sbyte(y, i), 8) for i in range(slen(x))]) if slen(x) else 1
        if type(x) is tuple and type(y) is tuple:
            return S.band(*[self.same(a, b) for a, b in zip(x, y)])
        if type(x) is Slice and type(y) is Slice:
            return int(x.o is y.o)
        if type(x) is Iface and type(y) is Iface:
            if x.t != y.t:
                return 0
            return self.same(x.v, y.v)
        if x is OPAQUE or y is OPAQUE:
            raise Unsupported('comparison of formatted text')
        return int(x == y)

    # ---------------------------------------------------------------- functions
    def call(self, f, args):
        if type(f) is Native:
            return f.f(self, args)
        if type(f) is not Fn:
            raise Panic('call of nil')
        o = self.over.get(f.name)
        if o is not None:
            return o(self, args)
        i = INTRINSICS.get(f.name)
        if i is not None:
            return i(self, args)
        d = self.p.fns.get(f.name)
        if d is None:
            if f.name.startswith(('fmt.', '(*fmt.', 'log.', 'errors.')):
                return self.opaque(f.name)
            raise Unsupported('call of %s' % f.name)
        self.seen.add(f.name)
        regs = dict(zip(d['params'], args))
        regs.update(zip(d['free'], f.b))
        r = self.run(f.name, d, regs, 0, -1, None)
        return r[1]

    def opaque(self, name):
        if name in ('fmt.Sprintf', 'fmt.Sprint', 'fmt.Sprintln'):
            return OPAQUE
        if name in ('fmt.Errorf', 'errors.New'):
            return Iface(-1, OPAQUE)
        return (0, None)

    def phis(self, d, b, pred, regs):
        """values of block b's phis on arrival from pred"""
        k = None
        out = {}
        for i in d['blocks'][b]['i']:
            if i['o'] != 'phi':
                break
            if k is None:
                k = d['blocks'][b]['p'].index(pred)
            out[i['d']] = (self.value(i['e'][k], regs), i['t'])
        return out

    def run(self, name, d, regs, b, pred, stop, entered=False):
        """execute from block b; ('ret', value) or, when block `stop` is reached, ('stop', phi values)"""
        blocks = d['blocks']
        while True:
            if not entered:
                ph = self.phis(d, b, pred, regs)
                if b == stop:
                    return 'stop', ph, regs
                for k, (v, t) in ph.items():
                    regs[k] = v
            entered = False
            bl = blocks[b]
            for i in bl['i']:
                o = i['o']
                if o == 'phi':
                    continue
                self.instrs += 1
                if self.instrs > self.steps:
                    raise Limit('step limit')
                if o == 'jump':
                    pred, b = b, bl['s'][0]
                    break
                if o == 'if':
                    c = self.value(i['x'], regs)
                    if type(c) is not int and not (self.decide_first and self.known(c)):
                        m = self.try_merge(name, d, regs, b, c)
                        if m is not None:
                            kind, val, ip = m
                            if kind == 'ret':
                                return 'ret', val
                            if ip == stop:
                                return 'stop', val, regs
                            for k, (v, t) in val.items():
                                regs[k] = v
                            pred, b = None, ip
                            entered = True
                            break
                    v = self.branch(c)
                    pred, b = b, bl['s'][0 if v else 1]
                    break
                if o == 'ret':
                    r = [self.value(x, regs) for x in i['r']]
                    return 'ret', (r[0] if len(r) == 1 else tuple(r) if r else None)
                if o == 'panic':
                    raise Panic('panic')
                self.step(o, i, regs)
            else:
                raise Unsupported('block without terminator in %s' % name)

    def try_merge(self, name, d, regs, b, c):
        key = (name, b)
        if key in self.p.impure:
            return None
        ips, EXIT = self.p.ipdoms(name)
        ip = ips.get(b)
        if ip is None:
            return None
        save, slog = self.pure, self.log
        first = next(self.n)
        s = d['blocks'][b]['s']
        try:
            rs = []
            ws = []
            for k in (0, 1):
                self.pure = next(self.n)
                self.log = {}
                try:
                    rs.append(self.run(name, d, dict(regs), s[k], b, None if ip == EXIT else ip))
                    ws.append({l: l[0].v if l[1] is None else l[0].v[l[1]] for l in self.log})
                finally:
                    old = self.log
                    for (o, k2) in reversed(list(old)):
                        if k2 is None:
                            o.v = old[o, k2]
                        else:
                            o.v[k2] = old[o, k2]
            self.pure, self.log = save, slog
            if rs[0][0] != rs[1][0]:
                raise Impure()
            J = Join(self, c, first)
            # what both arms leave in memory
            new = []
            for l in dict.fromkeys(list(ws[0]) + list(ws[1])):
                if any((l[0], None) in w and l[1] is not None or l[1] is None and any(q[0] is l[0] and q[1] is not None for q in w) for w in ws):
                    raise Impure()
                cur = l[0].v if l[1] is None else l[0].v[l[1]]
                x, y = ws[0].get(l, cur), ws[1].get(l, cur)
                t = l[0].t
                new.append((l, J.memory(x, y, t)))
            out = {}
            upd = {}
            if rs[0][0] == 'ret':
                v = J.value(rs[0][1], rs[1][1], self.restype(d))
            else:
                for k, (x, t) in rs[0][1].items():
                    out[k] = (J.value(x, rs[1][1][k][0], t), t)
                live, phid, types = self.p.live(name)
                ra, rb = rs[0][2], rs[1][2]
                for k in live[ip] - phid[ip]:
                    x, y = ra.get(k, self), rb.get(k, self)
                    if x is self or y is self:
                        raise Impure()
                    if x is not y:
                        upd[k] = J.value(x, y, types[k]) if k in types else self.same_only(x, y)
                    elif k not in regs or regs[k] is not x:
                        upd[k] = x
            for l, x in new:
                self.setloc(l[0], l[1], x)
            regs.update(upd)
            self.merges += 1
            if rs[0][0] == 'ret':
                return 'ret', v, None
            return 'stop', out, ip
        except (Impure, Panic):
            self.pure, self.log = save, slog
            if save is not None:
                raise Impure()
            self.p.impure.add(key)
            return None
        finally:
            self.pure, self.log = save, slog

    def same_only(self, x, y):
        if type(x) is list or type(y) is list or not x == y:
            raise Impure()
        return x

    def restype(self, d):
        t = self.p.types[d['res']]
        return t['f'][0] if t['k'] == 'tuple' and len(t['f']) == 1 else d['res']

    # ---------------------------------------------------------------- instructions
    def index(self, i, n):
        """concrete index in 0..n-1 (forks on symbolic ones)"""
        if type(i) is int:
            if i >= n:
                raise Panic('index out of range')
            return i
        if not self.branch(S.ult(i, n, i.w)):
            raise Panic('index out of range')
        return i

    def pick(self, vals, i, t):
        if type(i) is int:
            return vals[i]
        r = vals[-1]
        try:
            for k in range(len(vals) - 2, -1, -1):
                r = Join(self, S.eq(i, k, i.w), float('inf')).value(vals[k], r, t)
            return r
        except Impure:
            # values that have no common form: one path for each index
            return vals[self.concrete(i, len(vals) - 1)]

    def step(self, o, i, regs):
        val = lambda k: self.value(i[k], regs)
        if o == 'bin':
            regs[i['d']] = self.bin(i['op'], val('x'), val('y'), i['xt'], i['y'])
        elif o == 'un':
            op = i['op']
            x = val('x')
            if op == '*':
                if type(x) is tuple and x and x[0] == 'symptr':
                    regs[i['d']] = self.pick([self.load(q) for q in x[1]], x[2], i['t'])
                else:
                    regs[i['d']] = self.load(x)
            elif op == '!':
                regs[i['d']] = S.not_(x)
            elif op == '-':
                regs[i['d']] = -x if type(x) is float else S.neg(x, self.p.width(i['t'])[0])
            elif op == '^':
                w = self.p.width(i['t'])[0]
                regs[i['d']] = S.xor(x, MASK[w], w)
            else:
                raise Unsupported('unary ' + op)
        elif o == 'call':
            regs[i['d']] = self.docall(i['call'], regs)
        elif o == 'store':
            a = val('a')
            if type(a) is tuple and a and a[0] == 'symptr':
                x = val('v')
                try:
                    new = [Join(self, S.eq(a[2], k, a[2].w), float('inf')).value(x, self.load(q), i['v'].get('t')) for k, q in enumerate(a[1])]
                except Impure:
                    self.store(a[1][self.concrete(a[2], len(a[1]) - 1)], x)
                else:
                    for q, v in zip(a[1], new):
                        self.store(q, v)
            else:
                self.store(a, val('v'))
        elif o == 'alloc':
            regs[i['d']] = Ptr(self.new(self.p.zero(i['e']), i['e']))
        elif o == 'copy':
            regs[i['d']] = val('x')
        elif o == 'convert':
            regs[i['d']] = self.convert(val('x'), i['xt'], i['t'])
        elif o == 'extract':
            regs[i['d']] = val('x')[i['i']]
        elif o == 'field':
            regs[i['d']] = val('x')[i['i']]
        elif o == 'fieldaddr':
            p = val('x')
            if type(p) is tuple and p and p[0] == 'symptr':
                regs[i['d']] = ('symptr', [Ptr(q.o, q.p + (i['i'],)) for q in p[1]], p[2])
                return
            if type(p) is not Ptr:
                raise Panic('nil dereference')
            regs[i['d']] = Ptr(p.o, p.p + (i['i'],))
        elif o == 'index':
            x = val('x')
            k = val('i')
            if isinstance(x, (bytes, Str)):
                k = self.index(k, slen(x))
                regs[i['d']] = sbyte(x, self.concrete(k, slen(x) - 1))
            else:
                regs[i['d']] = self.pick(x, self.index(k, len(x)), i['t'])
        elif o == 'indexaddr':
            x = val('x')
            k = val('i')
            if type(x) is Slice:
                k = self.index(k, x.n)
                if type(k) is not int:
                    regs[i['d']] = ('symptr', [Ptr(x.o, (x.off + j,)) for j in range(x.n)], k)
                else:
                    regs[i['d']] = Ptr(x.o, (x.off + k,))
            else:
                if type(x) is not Ptr:
                    raise Panic('nil dereference')
                arr = self.load(x)
                k = self.index(k, len(arr))
                if type(k) is not int:
                    regs[i['d']] = ('symptr', [Ptr(x.o, x.p + (j,)) for j in range(len(arr))], k)
                else:
                    regs[i['d']] = Ptr(x.o, x.p + (k,))
        elif o == 'lookup':
            x = val('x')
            if isinstance(x, (bytes, Str)):
                k = self.index(val('i'), slen(x))
                regs[i['d']] = sbyte(x, self.concrete(k, slen(x) - 1))
                return
            e = self.find(x, val('i'))
            z = self.p.zero(self.p.types[i['xt']]['e'])
            v = z if e is None else e[1]
            regs[i['d']] = (v, int(e is not None)) if i['ok'] else v
        elif o == 'mapset':
            m = val('x')
            if m is None:
                raise Panic('assignment to nil map')
            if self.pure is not None and m.id < self.pure:
                raise Impure()
            e = self.find(m, val('k'))
            if e is None:
                m.items.append([val('k'), val('v')])
            else:
                e[1] = val('v')
        elif o == 'mkmap':
            regs[i['d']] = Map(next(self.n))
        elif o == 'mkslice':
            n, c = self.concrete(val('l'), 64), self.concrete(val('c'), 64)
            if n >> 63 or n > c:
                raise Panic('makeslice')
            et = self.p.types[i['t']]['e']
            regs[i['d']] = Slice(self.new([self.p.zero(et)] * c, et), 0, n, c)
        elif o == 'closure':
            regs[i['d']] = Fn(i['fn']['f'], tuple(self.value(x, regs) for x in i['b']))
        elif o == 'mkiface':
            regs[i['d']] = Iface(i['xt'], val('x'))
        elif o == 'range':
            x = val('x')
            if isinstance(x, (bytes, Str)):
                rs = runes(x)
                at = 0
                it = []
                for v, n in rs:
                    it.append((at, v))
                    at += n
                regs[i['d']] = ['s', it, 0]
            else:
                regs[i['d']] = ['m', list(x.items) if x is not None else [], 0]
        elif o == 'next':
            it = val('x')
            if self.pure is not None:
                # iterators are advanced in place: the arms of a merge use copies
                it = [it[0], list(it[1]), it[2]]
                regs[i['x']['r']] = it
            if it[0] == 's':
                if it[2] < len(it[1]):
                    k, v = it[1][it[2]]
                    it[2] += 1
                    regs[i['d']] = (1, k, v)
                else:
                    regs[i['d']] = (0, 0, 0)
            else:
                if it[1]:
                    e = it[1].pop(self.choose(len(it[1])))
                    regs[i['d']] = (1, e[0], e[1])
                else:
                    f = self.p.types[i['t']]['f']
                    regs[i['d']] = (0,) + tuple(self.p.zero(x) if self.p.types[x]['k'] != 'basic' or self.p.types[x]['n'] != 'invalid type' else None for x in f[1:])
        elif o == 'slice':
            regs[i['d']] = self.doslice(val('x'), i, regs)
        elif o == 'assert':
            x = val('x')
            ok = type(x) is Iface and (x.t == i['to'] or (self.p.types[i['to']]['k'] == 'iface' and x.t >= 0))
            v = (x.v if self.p.types[i['to']]['k'] != 'iface' else x) if ok else self.p.zero(i['to'])
            if i['ok']:
                regs[i['d']] = (v, int(ok))
            elif not ok:
                raise Panic('type assertion')
            else:
                regs[i['d']] = v
        elif o == 'rundefers':
            pass
        else:
            raise Unsupported('instruction ' + o)

    def find(self, m, k):
        if m is None:
            return None
        for e in m.items:
            if self.branch(self.same(e[0], k)):
                return e
        return None

    def concrete(self, v, limit):
        """a value in 0..limit as a number (forks on symbolic ones)"""
        if type(v) is int:
            return v
        if self.pure is not None:
            raise Impure()
        if not self.branch(S.ule(v, limit, v.w)):
            raise Panic('bounds out of range')
        for j in range(limit):
            if self.branch(S.eq(v, j, v.w)):
                return j
        return limit

    def doslice(self, x, i, regs):
        def num(k, d, most):
            v = i.get(k)
            if v is None:
                return d
            return self.concrete(self.value(v, regs), most)
        if isinstance(x, (bytes, Str)):
            n = slen(x)
            a, b = num('lo', 0, n), num('hi', n, n)
            if not a <= b <= n:
                raise Panic('slice bounds')
            if type(x) is bytes:
                return x[a:b]
            out = []
            at = 0
            for v, k in x.r:
                if at >= a and at + k <= b:
                    out.append((v, k))
                elif at < b and at + k > a:
                    raise Unsupported('string cut inside a character')
                at += k
            return Str(out)
        if type(x) is Ptr:
            arr = self.load(x)
            n = len(arr)
            if x.p == () and type(x.o.v) is tuple:
                # the array's own storage becomes the backing store
                if self.pure is not None and x.o.id < self.pure and (x.o, None) in self.log:
                    raise Impure()
                x.o.v = list(x.o.v)
                if x.o.t is not None:
                    x.o.t = self.p.types[x.o.t]['e']
            if x.p or type(x.o.v) is not list:
                raise Unsupported('slice of a nested array')
            x = Slice(x.o, 0, n, n)
        a, b = num('lo', 0, x.cap), num('hi', x.n, x.cap)
        c = num('max', x.cap, x.cap)
        if not (a <= b <= c <= x.cap):
            raise Panic('slice bounds')
        return Slice(x.o, x.off + a, b - a, c - a)

    def convert(self, x, ft, tt):
        f, t = self.p.types[ft], self.p.types[tt]
        fw, tw = self.p.width(ft), self.p.width(tt)
        if fw and tw:
            if fw[0] == tw[0]:
                return x
            if tw[0] < fw[0]:
                return S.trunc(x, fw[0], tw[0])
            return (S.sext if fw[1] else S.zext)(x, fw[0], tw[0])
        if t['k'] == 'basic' and 'string' in t.get('n', ''):
            if fw:
                if type(x) is int:
                    return utf8(x & MASK[fw[0]])
                return self.runestr(x, fw)
            if f['k'] == 'slice':
                e = self.p.width(f['e'])[0]
                it = self.items(x)
                if e == 8:
                    if all(type(v) is int for v in it):
                        return bytes(it)
                    if any(S.hi(v) > 127 for v in it):
                        raise Unsupported('bytes to string')
                    return Str([(v if type(v) is int else gotext.digit(*gotext.DIG[v]) if v in gotext.DIG else S.zext(v, 8, 32), 1) for v in it])
                if all(type(v) is int for v in it):
                    return b''.join(utf8(v) for v in it)
                out = []
                for v in it:
                    s = utf8(v) if type(v) is int else self.runestr(v, (32, 1))
                    out += runes(s)
                return Str(out)
            if isinstance(x, (bytes, Str)):
                return x
        if t['k'] == 'slice' and isinstance(x, (bytes, Str)):
            if self.p.width(t['e'])[0] == 8:
                return self.mkslice([sbyte(x, i) for i in range(slen(x))])
            return self.mkslice([v for v, _ in runes(x)])
        if fw and t['k'] == 'basic' and 'float' in t['n'] and type(x) is int:
            return float(x - (1 << fw[0]) if fw[1] and x >> (fw[0] - 1) else x)
        if tw and type(x) is float:
            return int(x) & MASK[tw[0]]
        if f['k'] == t['k']:
            return x
        raise Unsupported('conversion %s to %s' % (f['s'], t['s']))

    def runestr(self, x, fw):
        w = fw[0]
        if w > 32:
            if self.branch(S.not_(S.ult(x, 1 << 32, w))):
                return utf8(0xFFFD)
            x = S.trunc(x, w, 32)
        elif w < 32:
            x = S.zext(x, w, 32)
        bad = S.bor(S.not_(S.ult(x, 0x110000, 32)), S.band(S.not_(S.ult(x, 0xD800, 32)), S.ult(x, 0xE000, 32)))
        if self.branch(bad):
            return utf8(0xFFFD)
        for n, lim in ((1, 0x80), (2, 0x800), (3, 0x10000)):
            if self.branch(S.ult(x, lim, 32)):
                return Str([(x, n)])
        return Str([(x, 4)])

    def bin(self, op, x, y, xt, yv):
        wt = self.p.width(xt)
        if op in ('==', '!='):
            r = self.same(x, y)
            return r if op == '==' else S.not_(r)
        if isinstance(x, (bytes, Str, Opaque)) or isinstance(y, (bytes, Str, Opaque)):
            if op == '+':
                if x is OPAQUE or y is OPAQUE:
                    return OPAQUE
                if type(x) is bytes and type(y) is bytes:
                    return x + y
                return Str(runes(x) + runes(y))
            if type(x) is bytes and type(y) is bytes:
                return int({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            raise Unsupported('string ' + op)
        if type(x) is float:
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '<': lambda: int(x < y),
                    '<=': lambda: int(x <= y), '>': lambda: int(x > y), '>=': lambda: int(x >= y)}[op]()
        if wt is None:
            raise Unsupported('operator %s on %s' % (op, self.p.types[xt]['s']))
        w, sg = wt
        if op == '+':
            return S.add(x, y, w)
        if op == '-':
            return S.sub(x, y, w)
        if op == '*':
            return S.mul(x, y, w)
        if op == '&':
            return S.and_(x, y, w)
        if op == '|':
            return S.or_(x, y, w)
        if op == '^':
            return S.xor(x, y, w)
        if op == '&^':
            return S.and_(x, S.xor(y, MASK[w], w), w)
        if op in ('<<', '>>'):
            yw = self.p.width(yv['t'])
            yw = yw or (64, 0)
            if type(y) is int:
                if yw[1] and y >> (yw[0] - 1):
                    raise Panic('negative shift')
                n = min(y, w)
                if op == '<<':
                    if type(x) is T and x.op == 'lin' and 0 < n < w and x.hi << n > MASK[w]:
                        # a shift that drops bits: keep the bits, not a product
                        return S.mk_cat(tuple(S._sub_pieces(S.pieces(x, w), w, 0, w - n)) + ((None, 0, n),))
                    return S.shl(x, n, w) if n < w else 0
                if sg:
                    return S.ashr(x, min(n, w - 1), w)
                return S.lshr(x, n, w) if n < w else 0
            if yw[1] and self.branch(S.slt(y, 0, yw[0])):
                raise Panic('negative shift')
            big = S.not_(S.ult(y, w, yw[0]))
            yy = S.trunc(y, yw[0], w) if yw[0] > w else S.zext(y, yw[0], w) if yw[0] < w else y
            # shift amounts as cases
            r = 0
            if op == '>>' and sg:
                r = S.ashr(x, w - 1, w)
            for k in range(w - 1, -1, -1):
                z = S.shl(x, k, w) if op == '<<' else S.ashr(x, k, w) if sg else S.lshr(x, k, w)
                r = S.ite(S.band(S.not_(big), S.eq(yy, k, w)), z, r, w)
            return r
        if op in ('/', '%'):
            if type(y) is int and y == 0 or type(y) is not int and self.branch(S.eq(y, 0, w)):
                raise Panic('division by zero')
            if sg and not (S.hi(x) >> (w - 1) == 0 and S.hi(y) >> (w - 1) == 0):
                if type(x) is int and type(y) is int:
                    a = x - (1 << w) if x >> (w - 1) else x
                    b = y - (1 << w) if y >> (w - 1) else y
                    q = abs(a) // abs(b)
                    if (a < 0) != (b < 0):
                        q = -q
                    return (q if op == '/' else a - q * b) & MASK[w]
                raise Unsupported('signed division of symbolic values')
            return S.udiv(x, y, w) if op == '/' else S.urem(x, y, w)
        if op in ('<', '<=', '>', '>='):
            if op in ('>', '<='):
                x, y = y, x
            c = S.slt(x, y, w) if sg else S.ult(x, y, w)
            return c if op in ('<', '>') else S.not_(c)
        raise Unsupported('operator ' + op)

    def docall(self, c, regs):
        args = [self.value(a, regs) for a in c['args']]
        if 'invoke' in c:
            r = self.value(c['recv'], regs)
            return self.invoke(r, c['invoke'], args)
        f = self.value(c['fn'], regs)
        if type(f) is tuple and f[0] == 'builtin':
            return self.builtin(f[1], args, c, regs)
        return self.call(f, args)

    def invoke(self, r, name, args):
        if type(r) is Foreign:
            return r.methods[name](self, args)
        if type(r) is not Iface:
            raise Panic('method on nil interface')
        if type(r.v) is Foreign:
            return r.v.methods[name](self, args)
        m = self.p.methods.get(self.p.types[r.t]['s'], {}).get(name) if r.t >= 0 else None
        if m is None:
            raise Unsupported('method %s of %s' % (name, self.p.types[r.t]['s'] if r.t >= 0 else '?'))
        return self.call(Fn(m), [r.v] + args)

    def grow(self, old, n, et):
        size = max(1, self.p.size(et))
        if n > 2 * old:
            c = n
        elif old < 256:
            c = 2 * old
        else:
            c = old
            while c < n:
                c += (c + 768) // 4
        b = c * size
        for k in CLASSES:
            if k >= b:
                b = k
                break
        else:
            b = (b + 8191) // 8192 * 8192
        return max(n, b // size)

    def builtin(self, name, args, c, regs):
        if name == 'len':
            x = args[0]
            if isinstance(x, (bytes, Str)):
                return slen(x)
            if type(x) is Slice:
                return x.n
            if type(x) is Map:
                return len(x.items)
            if x is None:
                return 0
            if type(x) is tuple:
                return len(x)
            if type(x) is Ptr:
                return len(self.load(x))
            raise Unsupported('len of %r' % type(x))
        if name == 'cap':
            return args[0].cap
        if name == 'append':
            s, t = args
            add = [sbyte(t, i) for i in range(slen(t))] if isinstance(t, (bytes, Str)) else self.items(t)
            if not add:
                return s
            n = s.n + len(add)
            if n <= s.cap:
                for k, v in enumerate(add):
                    self.setloc(s.o, s.off + s.n + k, v)
                return Slice(s.o, s.off, n, s.cap)
            st = self.p.types[self.p.types[c['sig']]['f'][0]] if self.p.types[c['sig']]['k'] == 'tuple' else self.p.types[c['sig']]
            et = st['e']
            cap = self.grow(s.cap, n, et)
            vals = self.items(s) + list(add)
            z = self.p.zero(et)
            return Slice(self.new(vals + [z] * (cap - n), et), 0, n, cap)
        if name == 'copy':
            d, s = args
            src = [sbyte(s, i) for i in range(slen(s))] if isinstance(s, (bytes, Str)) else self.items(s)
            n = min(d.n, len(src))
            for k in range(n):
                self.setloc(d.o, d.off + k, src[k])
            return n
        if name in ('min', 'max'):
            ty = c['args'][0]['t']
            w, sg = self.p.width(ty)
            r = args[0]
            for y in args[1:]:
                lt = S.slt(y, r, w) if sg else S.ult(y, r, w)
                if name == 'max':
                    lt = S.slt(r, y, w) if sg else S.ult(r, y, w)
                r = S.ite(lt, y, r, w)
            return r
        if name in ('print', 'println'):
            return None
        if name == 'delete':
            m, k = args
            if m is not None:
                if self.pure is not None and m.id < self.pure:
                    raise Impure()
                e = self.find(m, k)
                if e is not None:
                    m.items.remove(e)
            return None
        if name == 'ssa:wrapnilchk':
            return args[0]
        raise Unsupported('builtin ' + name)


# ------------------------------------------------------------------ library functions

def _swapper(sl):
    def swap(m, a):
        if not sl.n:
            raise Panic('index out of range')
        i, j = (m.concrete(k, sl.n - 1) for k in a)
        if i >= sl.n or j >= sl.n:
            raise Panic('index out of range')
        v = sl.o.v
        a, b = v[sl.off + i], v[sl.off + j]
        m.setloc(sl.o, sl.off + i, b)
        m.setloc(sl.o, sl.off + j, a)
        return None
    return Native(swap)


def _sort_slice(m, a):
    sl = a[0].v
    n = sl.n
    if m.pure is not None:
        raise Impure()
    f = Fn('sort.pdqsort_func')
    m.call(f, [(a[1], _swapper(sl)), 0, n, n.bit_length()])
    return None


def _insertion(m, a):
    """sort.SliceStable: insertion sort in blocks of up to 20"""
    sl = a[0].v
    if sl.n > 20:
        raise Unsupported('stable sort of more than 20')
    sw = _swapper(sl)
    for i in range(1, sl.n):
        j = i
        while j > 0 and m.branch(m.call(a[1], [j, j - 1])):
            sw.f(m, [j, j - 1])
            j -= 1
    return None


TRACE = False
INTRINSICS = {
    'sort.Slice': _sort_slice,
    'sort.SliceStable': _insertion,
    'math/bits.Len': lambda m, a: a[0].bit_length() if type(a[0]) is int else _raise('bits.Len of a symbolic value'),
}


def _raise(s):
    raise Unsupported(s)


gotext.setup(sys.modules[__name__])
INTRINSICS.update(gotext.intrinsics())


# ------------------------------------------------------------------ exploration

class Explorer:
    def __init__(self, prog, overrides=None, timeout_ms=10000, max_paths=20000, deadline=None, decide_first=False):
        self.p = prog
        self.over = overrides or {}
        self.solver = ex.Solver(timeout_ms)
        self.max_paths = max_paths
        self.decide_first = decide_first
        self.deadline = deadline
        self.paths = 0
        self.instrs = 0
        self.merges = 0
        self.seen = set()

    def explore(self, body):
        """body(machine) -> result; yields ('ret', result, machine) | ('panic', why, machine)"""
        import time
        work = [[]]
        while work:
            prefix = work.pop()
            if self.paths >= self.max_paths or self.deadline and time.time() > self.deadline:
                raise Limit('more than %d paths' % self.paths)
            m = Machine(self.p, self.solver, prefix, self.over)
            m.decide_first = self.decide_first
            self.init(m)
            try:
                r = ('ret', body(m), m)
            except Panic as e:
                if TRACE:
                    raise
                r = ('panic', str(e), m)
            except Infeasible:
                r = None
            self.paths += 1
            self.instrs += m.instrs
            self.merges += m.merges
            self.seen |= m.seen
            work += m.more
            if r:
                yield r

    def init(self, m):
        for name in self.p.fns:
            if name.endswith('/lib.init') and 'codegen' in name:
                over = m.over
                m.over = dict(over)
                for n2 in self.p.fns:
                    if n2.endswith('.init') and n2 != name:
                        m.over[n2] = lambda mm, a: None
                for blk in self.p.fns[name]['blocks']:
                    for i in blk['i']:
                        if i['o'] == 'call' and 'fn' in i['call'] and i['call']['fn'].get('f', '').endswith('.init'):
                            m.over[i['call']['fn']['f']] = lambda mm, a: None
                m.call(Fn(name), [])
                m.over = over

    def stats(self):
        s = self.solver
        return dict(queries=s.queries, solver_s=s.time, z3_sat=s.sat, z3_unsat=s.unsat, z3_unknown=s.unknown,
                    instructions=self.instrs, merges=self.merges, outcomes=self.paths, functions=set(self.seen))
