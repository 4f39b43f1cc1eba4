"""Symbolic executor for the LLVM IR of the real code (parsed by ll.py).

Path exploration with state merging: states are scheduled in weak topological order
(with loop iteration counters), states that meet at the same place are joined with
if-then-else terms, branch feasibility is decided by literals, interval facts, a cached
model and finally Z3.
"""
import heapq
import time
import sym as S
from sym import T, MASK
from ll import P, p2i
import lia


from ll import Unsupported  # noqa: E402


class Budget(Exception):
    pass


# ---------------------------------------------------------------- solver

class Solver:
    def __init__(self, timeout_ms=20000, reset_every=3000, oneshot=False):
        self.oneshot = oneshot
        self.z3 = S.z3mod()
        self.timeout = timeout_ms
        self.reset_every = reset_every
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.fresh()

    def fresh(self):
        self.s = self.z3.SolverFor('QF_BV')
        self.s.set('timeout', self.timeout)
        self.px = {}
        self.declared = set()
        self.n = 0

    def proxy(self, t):
        p = self.px.get(t)
        if p is None:
            z3 = self.z3
            b = S.tob(t)
            for v in S.term_vars(t):
                if v not in self.declared:
                    self.declared.add(v)
                    for c in S.VARS[v][2]:
                        self.s.add(c)
            p = z3.Bool('p!%d' % t.id)
            self.s.add(z3.Implies(p, b))
            self.px[t] = p
        return p

    def check(self, terms):
        """('sat', env) | ('unsat', None) | ('unknown', None) for the conjunction of 1-bit terms"""
        ts = []
        for t in terms:
            if type(t) is int:
                if not t:
                    return 'unsat', None
            elif t.op == 'band':
                ts.extend(t.a)
            else:
                ts.append(t)
        self.n += 1
        if self.n > self.reset_every:
            self.fresh()
        t0 = time.time()
        z3 = self.z3
        if self.oneshot:
            s = z3.SolverFor('QF_BV')
            s.set('timeout', self.timeout)
            names = set()
            for t in ts:
                s.add(S.tob(t))
                names |= S.term_vars(t)
            for v in names:
                for c in S.VARS[v][2]:
                    s.add(c)
            r = s.check()
            self.s = s
        else:
            ps = [self.proxy(t) for t in ts]
            r = self.s.check(*ps)
        self.queries += 1
        if r == z3.sat:
            self.sat += 1
            m = self.s.model()
            env = {}
            names = set()
            for t in ts:
                names |= S.term_vars(t)
            for n in names:
                v = m.eval(S.VARS[n][1], model_completion=True)
                x = v.as_long()
                lo = S.VARS[n][0].lo
                env[n] = x
            self.time += time.time() - t0
            return 'sat', env
        self.time += time.time() - t0
        if r == z3.unsat:
            self.unsat += 1
            return 'unsat', None
        self.unknown += 1
        return 'unknown', None


# ---------------------------------------------------------------- interval facts

def iv_full(x):
    return ((x.lo, x.hi),)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        l = max(a[i][0], b[j][0])
        h = min(a[i][1], b[j][1])
        if l <= h:
            out.append((l, h))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_or(a, b):
    out = []
    for l, h in sorted(a + b):
        if out and l <= out[-1][1] + 1:
            if h > out[-1][1]:
                out[-1] = (out[-1][0], h)
        else:
            out.append((l, h))
    return tuple(out)


def iv_not(a, lo, hi):
    out = []
    p = lo
    for l, h in a:
        if l > p:
            out.append((p, l - 1))
        p = h + 1
    if p <= hi:
        out.append((p, hi))
    return tuple(out)


def iv_term(x, iv):
    w = x.w
    alts = []
    for l, h in iv:
        if l == h:
            alts.append(S.eq(x, l, w))
        else:
            alts.append(S.band(S.not_(S.ult(x, l, w)) if l else 1, S.not_(S.ult(h, x, w))))
    return S.bor(*alts)


def atom_iv(c):
    """literal -> (term, intervals) when it constrains one term by constants"""
    neg = False
    if c.op == 'not':
        neg = True
        c = c.a[0]
    if c.op == 'eq':
        x, y = c.a
        if type(y) is not int:
            return None
        iv = ((y, y),)
    elif c.op == 'ult':
        x, y = c.a
        if type(y) is int:
            iv = ((0, y - 1),) if y else ()
        elif type(x) is int:
            k = x
            x = y
            iv = ((k + 1, MASK[x.w]),) if k < MASK[x.w] else ()
        else:
            return None
    else:
        return None
    if neg:
        iv = iv_not(iv, 0, MASK[x.w])
    return x, iv


# ---------------------------------------------------------------- memory

class Cells:
    """byte-addressed object holding values at concrete offsets"""
    __slots__ = ('d', 'size', 'own', 'io')

    def __init__(self, size, io=False, d=None):
        self.d = {} if d is None else d
        self.size = size
        self.own = None
        self.io = io

    def clone(self):
        c = Cells(self.size, self.io, dict(self.d))
        return c


class FB:
    """the frame buffer: words addressed by (possibly symbolic) index.
    mode 'cells': concrete indices only, d: index -> word, initial word by init(i)
    mode 'log':   list of events (kind, index, value, guard)"""
    __slots__ = ('mode', 'd', 'ev', 'own', 'words', 'init')

    def __init__(self, words, mode, init=None):
        self.mode = mode
        self.d = {}
        self.ev = []
        self.own = None
        self.words = words
        self.init = init

    def clone(self):
        f = FB(self.words, self.mode, self.init)
        f.d = dict(self.d)
        f.ev = list(self.ev)
        return f


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'dst', 'iters')

    def __init__(self, fn, block, idx, regs, dst, iters):
        self.fn = fn
        self.block = block
        self.idx = idx
        self.regs = regs
        self.dst = dst
        self.iters = iters

    def copy(self):
        return Frame(self.fn, self.block, self.idx, dict(self.regs), self.dst, dict(self.iters))


class State:
    __slots__ = ('frames', 'objs', 'pc', 'facts', 'models', 'guard_', 'ret', 'tag', 'nfork')

    def __init__(self):
        self.frames = []
        self.objs = {}
        self.pc = frozenset()
        self.facts = {}
        self.models = ()
        self.guard_ = None
        self.ret = None
        self.tag = None
        self.nfork = 0

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        for o in s.objs.values():
            o.own = None
        s.pc = self.pc
        s.facts = dict(self.facts)
        s.models = self.models
        s.guard_ = self.guard_
        s.tag = self.tag
        s.nfork = self.nfork + 1
        return s

    def wobj(self, k):
        o = self.objs[k]
        if o.own is not self:
            o = o.clone()
            o.own = self
            self.objs[k] = o
        return o

    def conds(self):
        out = list(self.pc)
        for x, iv in self.facts.items():
            out.append(iv_term(x, iv))
        return out

    def guard(self):
        if self.guard_ is None:
            self.guard_ = S.band(*self.conds())
        return self.guard_


class Engine:
    def __init__(self, mod, solver=None, deadline=None):
        self.mod = mod
        self.solver = solver or Solver()
        self.lia = lia.Lia()
        self.inb = set()
        self.const_override = {}      # (object, offset, size) -> value
        self.trace_loads = None       # list collecting (obj, off, size, value)
        self.lazy = None              # predicate: decide this condition without Z3
        self.stop_vars = frozenset()  # variables whose concretisation ends the path
        self.stop_fork = False        # after the first frame buffer store, end the path at a fork
        self.stop_store = False       # end the path at the first frame buffer store
        self.nomerge = False
        self.steps = 0
        self.instrs = 0
        self.merges = 0
        self.forks = 0
        self.max_steps = 10 ** 9
        self.deadline = deadline
        self.fns_seen = set()
        self.nload = 0
        self.globals_rw = {}
        self.max_enum = 80
        self.branch_hook = None

    # ---- conditions
    def add_cond(self, st, c):
        """assume c; False if it is visibly false"""
        if type(c) is int:
            return bool(c)
        if c.op == 'band':
            for x in c.a:
                if not self.add_cond(st, x):
                    return False
            return True
        if c in st.pc:
            return True
        if S.not_(c) in st.pc:
            return False
        st.guard_ = None
        r = atom_iv(c)
        if r is not None:
            x, iv = r
            old = st.facts.get(x)
            if old is None:
                old = iv_full(x)
            n = iv_and(old, iv)
            if not n:
                return False
            st.facts[x] = n
            if n != old and len(n) == 1 and n[0][0] == n[0][1] and x.op != 'v':
                # a single value: invert invertible operations
                e = S.eq(x, n[0][0], x.w)
                if type(e) is int:
                    return bool(e)
                r = atom_iv(e)
                if r is None or r[0] is not x:
                    return self.add_cond(st, e)
                if x.op == 'cat' and len(x.a) == 1 and x.a[0][0] is not None and x.a[0][0].op == 'v':
                    # a slice of a variable whose other bits are fixed by its range
                    v, l, nb = x.a[0]
                    k = (v.lo ^ v.hi).bit_length()
                    if l == 0 and nb >= k and k < v.w:
                        y = n[0][0]
                        z = (v.lo >> k) << k | y & ((1 << k) - 1)
                        if (z ^ y) & ((1 << nb) - 1) or not v.lo <= z <= v.hi:
                            return False
                        return self.add_cond(st, S.eq(v, z, v.w))
            return True
        st.pc = st.pc | {c}
        return True

    def known(self, st, c):
        """1/0 when facts decide c, else None"""
        if type(c) is int:
            return c
        if c in st.pc:
            return 1
        if S.not_(c) in st.pc:
            return 0
        if c.op == 'band':
            r = 1
            for x in c.a:
                k = self.known(st, x)
                if k == 0:
                    return 0
                if k is None:
                    r = None
            return r
        if c.op == 'bor':
            r = 0
            for x in c.a:
                k = self.known(st, x)
                if k == 1:
                    return 1
                if k is None:
                    r = None
            return r
        if st.facts:
            r = atom_iv(c)
            if r is not None:
                x, iv = r
                old = st.facts.get(x)
                if old is not None:
                    n = iv_and(old, iv)
                    if not n:
                        return 0
                    if n == old:
                        return 1
            env = self.singles(st)
            if env:
                c2 = S.subst(c, env, {})
                if type(c2) is int:
                    return c2
        return None

    def singles(self, st):
        env = {}
        for x, iv in st.facts.items():
            if x.op == 'v' and len(iv) == 1 and iv[0][0] == iv[0][1]:
                env[x.a[0]] = iv[0][0]
        return env

    def resolve(self, st, t):
        if type(t) is int:
            return t
        env = self.singles(st)
        if env:
            return S.subst(t, env, {})
        return t

    def solve(self, st, c):
        """is st /\\ c satisfiable -> (bool, models)"""
        fac = [iv_term(x, iv) for x, iv in st.facts.items()]
        r, env = self.lia.decide(st.pc, fac, c)
        if r is None:
            r, env = self.solver.check(st.conds() + [c])
        if r == 'sat':
            return True, ((env, {}),)
        if r == 'unsat':
            return False, ()
        return True, ()

    def feasible(self, st, c):
        """is st /\\ c satisfiable -> (bool, models)"""
        if type(c) is int:
            return bool(c), st.models
        ms = tuple(m for m in st.models if S.evalt(c, m[0], m[1]))
        if ms:
            return True, ms
        return self.solve(st, c)

    def implied(self, st, c):
        """c as 0/1 when the path condition settles it (without Z3), else c"""
        if type(c) is int:
            return c
        k = self.known(st, c)
        if k is not None:
            return k
        if self.lazy is not None and self.lazy(c):
            return c
        seen = {S.evalt(c, m[0], m[1]) for m in st.models}
        if len(seen) == 2:
            return c
        fac = None
        for v, t in ((0, c), (1, S.not_(c))):
            if seen and (1 - v) in seen:
                continue
            if fac is None:
                fac = [iv_term(x, iv) for x, iv in st.facts.items()]
            r, env = self.lia.decide(st.pc, fac, t)
            if r == 'unsat':
                return v
            if r == 'sat' and len(st.models) < 6:
                st.models = st.models + ((env, {}),)
        return c

    def split(self, st, c):
        """[(value, state)] for the feasible values of condition c; may reuse st"""
        k = self.known(st, c)
        if k is not None:
            return [(k, st)]
        nc = S.not_(c)
        if self.lazy is not None and self.lazy(c):
            a = st.fork()
            self.forks += 1
            out = []
            if self.add_cond(a, c):
                a.models = ()
                out.append((1, a))
            if self.add_cond(st, nc):
                st.models = ()
                out.append((0, st))
            return out
        m1 = []
        m0 = []
        for m in st.models:
            (m1 if S.evalt(c, m[0], m[1]) else m0).append(m)
        if not m1:
            f1, m1 = self.solve(st, c)
            if not f1:
                return [(0, st)]
        if not m0:
            f0, m0 = self.solve(st, nc)
            if not f0:
                return [(1, st)]
        self.forks += 1
        a = st.fork()
        out = []
        if self.add_cond(a, c):
            a.models = tuple(m1)
            out.append((1, a))
        if self.add_cond(st, nc):
            st.models = tuple(m0)
            out.append((0, st))
        return out

    # ---- memory access
    def load(self, st, t, p):
        """value, or raises Fork"""
        if type(p) is not P:
            raise Unsupported('load through integer %s' % (p,))
        size = _size(t)
        off = p.f
        if type(off) is not int:
            off = self.resolve(st, off)
        o = p.o
        g = self.mod.globals.get(o[1:]) if o[0] == '@' and o not in st.objs else None
        if g is not None:
            if g[1] is None:
                raise Unsupported('external global ' + o)
            if type(off) is not int:
                raise NeedConcrete(off)
            if not g[3]:
                self.own_global(st, o)
                return self.load(st, t, p)
            if off + size > g[0]:
                raise OOB(o, off)
            if self.const_override:
                v = self.const_override.get((o, off, size))
                if v is not None:
                    return v
            if g[2] and off in g[2]:
                return g[2][off]
            v = int.from_bytes(g[1][off:off + size], 'little')
            if t[0] == 'i' and t[1] % 8:
                v &= MASK[t[1]]
            if self.trace_loads is not None:
                self.trace_loads.append((o, off, size, v))
            return v
        ob = st.objs.get(o)
        if ob is None:
            raise Unsupported('load from unknown object %s' % o)
        if type(ob) is FB:
            return self.fb_load(st, o, off, size)
        if type(off) is not int:
            raise NeedConcrete(off)
        if off + size > ob.size:
            raise OOB(o, off)
        c = ob.d.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if t[0] == 'p' and type(v) is T:
                return v
            if t[0] == 'i' and t[1] == 1:
                return S.trunc(v, 8, 1)
            if type(v) is P and t[0] == 'i':
                return p2i(v)
            return v
        # compose from overlapping cells, most significant first
        ps = []
        pos = off + size
        while pos > off:
            # find the cell covering byte pos-1
            b = pos - 1
            for q in range(b, max(b - 16, -1), -1):
                c = ob.d.get(q)
                if c is not None and q + c[0] > b:
                    break
            else:
                c = None
            if c is None:
                self.nload += 1
                ps.append((S.var('undef%d' % self.nload, 8), 0, 8))
                pos = b
                continue
            s0 = max(q, off)
            v = c[1]
            if type(v) is P:
                v = p2i(v)
            n = (pos - s0) * 8
            sh = (s0 - q) * 8
            x = S.slice_(v, sh, n, c[0] * 8)
            ps.append((None, x, n) if type(x) is int else (x, 0, n))
            pos = s0
        return S.mk_cat(tuple(ps))

    def own_global(self, st, o):
        """give the state its copy of a mutable static, as initialised; None for anything else"""
        g = self.mod.globals.get(o[1:]) if o[0] == '@' else None
        if g is None or g[3] or g[1] is None or g[0] > 1 << 16:
            return None
        c = Cells(g[0], True)
        skip = -1
        for i, x in enumerate(g[1]):
            if i in g[2]:
                c.d[i] = (8, g[2][i])
                skip = i + 8
            elif i >= skip:
                c.d[i] = (1, x)
        st.objs[o] = c
        return c

    def store(self, st, t, v, p):
        if type(p) is not P:
            raise Unsupported('store through integer')
        size = _size(t)
        off = p.f
        if type(off) is not int:
            off = self.resolve(st, off)
        ob = st.objs.get(p.o) or self.own_global(st, p.o)
        if ob is None:
            raise Unsupported('store to %s' % p.o)
        if type(ob) is FB:
            return self.fb_store(st, p.o, off, size, v)
        if type(off) is not int:
            raise NeedConcrete(off)
        if off + size > ob.size:
            raise OOB(p.o, off)
        if t[0] == 'i' and t[1] == 1 and type(v) is T:
            v = S.zext(v, 1, 8)
        ob = st.wobj(p.o)
        self.put(ob, off, size, v)

    def put(self, ob, off, size, v):
        d = ob.d
        c = d.get(off)
        if c is not None and c[0] == size:
            d[off] = (size, v)
            return
        for q in range(off - 15, off + size):
            c = d.get(q)
            if c is not None and q + c[0] > off and q < off + size:
                del d[q]
                if q < off or q + c[0] > off + size:
                    w = c[0] * 8
                    x = c[1]
                    if type(x) is P:
                        x = p2i(x)
                    for i in range(c[0]):
                        if not off <= q + i < off + size:
                            d[q + i] = (1, S.slice_(x, 8 * i, 8, w))
        d[off] = (size, v)

    def fb_index(self, st, off, size):
        if type(off) is int:
            if off % 4:
                raise Unsupported('unaligned frame buffer access')
            return off >> 2
        e = S.exact(off)
        if e[0] % 4 == 0 and all(k % 4 == 0 for k in e[1].values()) and off not in e[1]:
            return S.mk_lin(e[0] >> 2, {a: k >> 2 for a, k in e[1].items()}, 64)
        c, ts = S._parts(off, 64)
        if c % 4 == 0 and all(k % 4 == 0 for k, _ in ts):
            return S.lshr(off, 2, 64)
        raise Unsupported('unaligned frame buffer access')

    def in_bounds(self, st, o, idx, words):
        if S.hi(idx) < words:
            return
        key = (idx, st.guard(), words)
        if key in self.inb:
            return
        c = S.ult(idx, words, 64)
        k = self.known(st, c)
        if k != 1:
            f, m = self.feasible(st, S.not_(c))
            if f:
                raise OOB(o, idx)
        self.inb.add(key)

    def fb_load(self, st, o, off, size):
        if size == 8:
            a = self.fb_load(st, o, off, 4)
            b = self.fb_load(st, o, S.add(off, 4, 64), 4)
            ps = []
            for v in (b, a):
                ps.append((None, v, 32) if type(v) is int else (v, 0, 32))
            return S.mk_cat(tuple(ps))
        if size != 4:
            raise Unsupported('frame buffer access of %d bytes' % size)
        ob = st.objs[o]
        idx = self.fb_index(st, off, size)
        self.in_bounds(st, o, idx, ob.words)
        if ob.mode == 'cells':
            if type(idx) is not int:
                raise NeedConcrete(idx)
            v = ob.d.get(idx)
            return ob.init(idx) if v is None else v
        ob = st.wobj(o)
        self.nload += 1
        v = S.var('L%d' % self.nload, 32)
        ob.ev.append(('L', idx, v, st.guard()))
        return v

    def fb_store(self, st, o, off, size, v):
        if size == 8:
            self.fb_store(st, o, off, 4, S.slice_(v, 0, 32, 64))
            self.fb_store(st, o, S.add(off, 4, 64), 4, S.slice_(v, 32, 32, 64))
            return
        if size != 4:
            raise Unsupported('frame buffer access of %d bytes' % size)
        if self.stop_store:
            raise Stop('store')
        ob = st.objs[o]
        idx = self.fb_index(st, off, size)
        self.in_bounds(st, o, idx, ob.words)
        if ob.mode == 'cells':
            if type(idx) is not int:
                raise NeedConcrete(idx)
            st.wobj(o).d[idx] = v
            return
        st.wobj(o).ev.append(('S', idx, v, st.guard()))

    def memset(self, st, p, b, n):
        if type(p) is not P:
            if type(n) is int and n == 0:
                return
            raise Unsupported('memset')
        ob = st.objs.get(p.o) or self.own_global(st, p.o)
        if ob is None:
            raise Unsupported('memset of ' + p.o)
        n = self.resolve(st, n)
        if type(ob) is FB:
            if self.stop_store and n != 0:
                raise Stop('store')
            if type(b) is not int:
                raise Unsupported('memset value')
            w = b * 0x01010101
            i0 = self.fb_index(st, self.resolve(st, p.f), 4)
            cnt = self.fb_index(st, n, 4)
            i1 = S.add(i0, cnt, 64)
            if type(cnt) is int and type(i0) is int:
                if i1 > ob.words:
                    raise OOB(p.o, i1)
                ob = st.wobj(p.o)
                if ob.mode == 'cells':
                    for i in range(i0, i1):
                        ob.d[i] = w
                else:
                    ob.ev.append(('R', i0, (i1, w), st.guard()))
                return
            if ob.mode == 'cells':
                raise NeedConcrete(cnt if type(cnt) is not int else i0)
            if S.hi(i1) > ob.words or S.hi(i0) > S.hi(i1):
                c = S.band(S.not_(S.ult(ob.words, i1, 64)), S.not_(S.ult(i1, i0, 64)))
                if self.known(st, c) != 1:
                    f, m = self.feasible(st, S.not_(c))
                    if f:
                        raise OOB(p.o, i1)
            st.wobj(p.o).ev.append(('R', i0, (i1, w), st.guard()))
            return
        if type(n) is not int:
            raise NeedConcrete(n)
        off = self.resolve(st, p.f)
        if type(off) is not int:
            raise NeedConcrete(off)
        if off + n > ob.size:
            raise OOB(p.o, off)
        ob = st.wobj(p.o)
        for i in range(n):
            self.put(ob, off + i, 1, b)

    def memcpy(self, st, d, s, n):
        n = self.resolve(st, n)
        if type(n) is not int:
            raise NeedConcrete(n)
        if n == 0:
            return
        i = 0
        so = st.objs.get(s.o)
        vals = []
        while i < n:
            if type(so) is Cells and type(s.f) is int:
                c = so.d.get(s.f + i)
                if c is not None and c[0] <= n - i:
                    vals.append((i, c[0], c[1]))
                    i += c[0]
                    continue
                vals.append((i, 1, self.load(st, ('i', 8), P(s.o, s.f + i))))
                i += 1
                continue
            k = 8 if n - i >= 8 and (type(s.f) is not int or (s.f + i) % 8 == 0) and (type(d.f) is not int or (d.f + i) % 8 == 0) else 4 if n - i >= 4 else 1
            vals.append((i, k, self.load(st, ('i', 8 * k), P(s.o, S.add(s.f, i, 64)))))
            i += k
        for i, k, v in vals:
            self.store(st, ('p',) if type(v) is P else ('i', 8 * k), v, P(d.o, S.add(d.f, i, 64)))

    # ---- running
    def start(self, st, fname, args):
        f = self.mod.fn(fname)
        if f is None:
            raise Unsupported('no function ' + fname)
        fr = Frame(f, f.entry, 0, {}, None, {})
        for (n, t), a in zip(f.params, args):
            if n is not None:
                fr.regs[n] = a
        i = 0
        for (n, t), a in zip(f.params, args):
            if n is None:
                fr.regs[str(i)] = a
            i += 1
        st.frames = [fr]

    def key(self, st):
        k = []
        for f in st.frames:
            it = f.iters
            for pos, h in f.block.path:
                k.append(pos)
                if h is not None:
                    k.append(it.get(h, 0))
            k.append(f.idx)
        return tuple(k)

    def run(self, fname, args, st):
        """execute; returns list of (kind, state, info), kind in ret/panic/oob/ub/stop/unsupported.
        What the executor cannot do, for whatever reason, is Unsupported"""
        try:
            return self.run_(fname, args, st)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            raise Unsupported('%s: %s' % (type(e).__name__, e))

    def run_(self, fname, args, st):
        self.start(st, fname, args)
        self.heap = []
        self.seq = 0
        self.out = []
        self.push(st)
        heap = self.heap
        while heap:
            k, _, st = heapq.heappop(heap)
            if heap and heap[0][0] == k or type(st) is list:
                # a list: states already found unmergeable at this key
                fresh = type(st) is not list
                group = [st] if fresh else st
                while heap and heap[0][0] == k:
                    x = heapq.heappop(heap)[2]
                    fresh = True
                    group = group + (x if type(x) is list else [x])
                if fresh and group[0].frames[-1].idx == 0 and not self.nomerge:
                    group = self.merge(group)
                    group.reverse()
                st = group.pop()
                if group:
                    self.seq += 1
                    heapq.heappush(heap, (k, self.seq, group))
                # the remaining ones have the same key; run this one past it first
                self.go(st, k, bool(group))
            else:
                self.go(st, k, False)
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            if self.steps > self.max_steps:
                raise Unsupported('step budget exhausted (unbounded loop?)')
        return self.out

    def push(self, st):
        self.seq += 1
        heapq.heappush(self.heap, (self.key(st), self.seq, st))

    def end(self, kind, st, info=None):
        self.out.append((kind, st, info))

    def go(self, st, k, force):
        """run st until it ends, forks, or another state must run first"""
        heap = self.heap
        while True:
            self.steps += 1
            try:
                r = self.block(st)
            except OOB as e:
                self.end('oob', st, e)
                return
            except Stop as e:
                self.end('stop', st, e)
                return
            except NeedConcrete as e:
                for s in self.concretise(st, e.term):
                    self.push(s)
                return
            if r is None:
                return
            if r is not True:
                for s in r:
                    self.push(s)
                return
            if heap:
                kk = self.key(st)
                if not (kk < heap[0][0]):
                    self.seq += 1
                    heapq.heappush(heap, (kk, self.seq, st))
                    return
            if self.steps & 1023 == 0:
                if self.deadline and time.time() > self.deadline:
                    raise Budget()
                if self.steps > self.max_steps:
                    raise Unsupported('step budget exhausted (unbounded loop?)')

    def concretise(self, st, t):
        """fork on the value of t (an address component) so that it becomes concrete"""
        # an ite with constant arms inside?
        c = _find_cond(t)
        if c is not None:
            out = []
            for v, s in self.split(st, c):
                m = {}
                self.replace_cond(s, c, v)
                out.append(s)
            return out
        # enumerate values through facts / the solver
        out = []
        cur = st
        n = 0
        while True:
            if self.lazy is not None and self.lazy(S.eq(t, 0, t.w)):
                raise Unsupported('symbolic address %s' % (t,))
            r, env = self.solver.check(cur.conds())
            if r == 'unsat':
                return out
            if r != 'sat':
                raise Unsupported('solver gave up on an address')
            v = S.evalt(t, env, {})
            c = S.eq(t, v, t.w)
            if type(c) is int:
                raise Unsupported('address %s' % t)
            a = cur.fork()
            if self.add_cond(a, c):
                a.models = ((env, {}),)
                self.replace_term(a, t, v)
                out.append(a)
            if not self.add_cond(cur, S.not_(c)):
                return out
            cur.models = ()
            n += 1
            if n > self.max_enum:
                raise Unsupported('more than %d values for address %s' % (self.max_enum, t))

    def replace_cond(self, st, c, v):
        memo = {}
        for f in st.frames:
            for r, x in f.regs.items():
                f.regs[r] = _under(x, c, v, memo)

    def replace_term(self, st, t, v):
        memo = {t: v}
        env = self.singles(st)
        for f in st.frames:
            for r, x in f.regs.items():
                f.regs[r] = _repl(x, t, v, env)

    def goto(self, st, fr, name):
        b = fr.block
        n = fr.fn.blocks[name]
        if n.phis:
            R = fr.regs
            bn = b.name
            vals = []
            for ph in n.phis:
                o = ph[3][bn]
                vals.append(R[o[1]] if o[0] == 'r' else o[1])
            for ph, v in zip(n.phis, vals):
                R[ph[1]] = v
        if n.is_header or fr.iters:
            if n.is_header:
                h = n.name
                if h in b.loops:
                    fr.iters[h] = fr.iters.get(h, 0) + 1
                    for l in [l for l in fr.iters if l != h and h in fr.fn.blocks[l].loops and l not in fr.fn.blocks[h].loops]:
                        del fr.iters[l]
                else:
                    fr.iters[h] = 0
            if fr.iters:
                for l in list(fr.iters):
                    if l not in n.loops:
                        del fr.iters[l]
        fr.block = n
        fr.idx = 0

    def block(self, st):
        """execute the rest of the current block; True to continue, None when the state
        ended, or a list of successor states"""
        fr = st.frames[-1]
        R = fr.regs
        items = fr.block.items
        i = fr.idx
        n = len(items)
        while i < n:
            it = items[i]
            k = it[0]
            if k == 'py':
                self.instrs += it[2]
                it[1](R)
                i += 1
                continue
            self.instrs += 1
            fr.idx = i
            if k == 'load':
                p = it[3]
                p = R[p[1]] if p[0] == 'r' else p[1]
                R[it[1]] = self.load(st, it[2], p)
            elif k == 'store':
                v = it[2]
                v = R[v[1]] if v[0] == 'r' else v[1]
                p = it[3]
                p = R[p[1]] if p[0] == 'r' else p[1]
                self.store(st, it[1], v, p)
            elif k == 'select':
                c, x, y = it[3], it[4], it[5]
                c = R[c[1]] if c[0] == 'r' else c[1]
                x = R[x[1]] if x[0] == 'r' else x[1]
                y = R[y[1]] if y[0] == 'r' else y[1]
                if type(c) is not int:
                    c = self.implied(st, c)
                if type(c) is int:
                    R[it[1]] = x if c else y
                else:
                    w = it[2][1] if it[2][0] == 'i' else None
                    if w is not None and (w == 1 or type(x) is T or type(y) is T):
                        R[it[1]] = S.ite(c, x, y, w)
                    elif type(x) is type(y) and x == y:
                        R[it[1]] = x
                    else:
                        out = self.split(st, c)
                        for v, s in out:
                            s.frames[-1].regs[it[1]] = x if v else y
                            s.frames[-1].idx = i + 1
                        if len(out) == 1 and out[0][1] is st:
                            i += 1
                            continue
                        return self.filt([s for _, s in out])
            elif k == 'br':
                if len(it) == 2:
                    self.goto(st, fr, it[1])
                    return True
                c = it[1]
                c = R[c[1]] if c[0] == 'r' else c[1]
                if type(c) is int:
                    self.goto(st, fr, it[2] if c else it[3])
                    return True
                out = self.split(st, c)
                for v, s in out:
                    f = s.frames[-1]
                    self.goto(s, f, it[2] if v else it[3])
                if len(out) == 1 and out[0][1] is st:
                    return True
                return self.filt([s for _, s in out])
            elif k == 'call':
                r = self.call(st, fr, it)
                if r == 'enter':
                    return True
                if r == 'end':
                    return None
            elif k == 'ret':
                v = it[1]
                if v is not None:
                    v = R[v[1]] if v[0] == 'r' else v[1]
                st.frames.pop()
                if not st.frames:
                    st.ret = v
                    self.end('ret', st)
                    return None
                d = fr.dst
                fr = st.frames[-1]
                if d is not None:
                    fr.regs[d] = v
                fr.idx += 1
                return True
            elif k == 'alloca':
                key = '%s#%d' % (it[3], len(st.frames))
                st.objs[key] = Cells(it[2])
                R[it[1]] = P(key, 0)
            elif k == 'switch':
                o, w = it[1]
                v = R[o[1]] if o[0] == 'r' else o[1]
                if type(v) is not int:
                    v = self.resolve(st, v)
                if type(v) is int:
                    for c, l in it[3]:
                        if c == v:
                            self.goto(st, fr, l)
                            break
                    else:
                        self.goto(st, fr, it[2])
                    return True
                res = []
                cur = st
                alive = True
                for c, l in it[3]:
                    out = self.split(cur, S.eq(v, c, w))
                    nxt = None
                    for val, s in out:
                        if val:
                            self.goto(s, s.frames[-1], l)
                            res.append(s)
                        else:
                            nxt = s
                    if nxt is None:
                        alive = False
                        break
                    cur = nxt
                if alive:
                    self.goto(cur, cur.frames[-1], it[2])
                    res.append(cur)
                return self.filt(res)
            elif k == 'unreachable':
                self.end('ub', st, fr.fn.name)
                return None
            else:
                raise Unsupported(k)
            i += 1
        raise Unsupported('fell off block')

    def filt(self, sts):
        """drop states in which a watched variable became concrete (reported as 'conc')"""
        if self.stop_fork and sts and sts[0].objs['fb'].d:
            for s in sts:
                self.end('fork', s)
            return []
        if not self.stop_vars:
            return sts
        out = []
        for s in sts:
            env = self.singles(s)
            if env and (env.keys() & self.stop_vars):
                self.end('conc', s, env)
            else:
                out.append(s)
        return out

    def call(self, st, fr, it):
        _, dst, rt, callee, args, after = it
        R = fr.regs
        a = [R[x[1]] if x[0] == 'r' else x[1] for x in args]
        if callee[0] != '@':
            raise Unsupported('indirect call')
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            v = self.intrinsic(st, name, a)
            if type(v) is T and v.op == 'ite':
                c = self.implied(st, v.a[0])
                if type(c) is int:
                    v = v.a[1] if c else v.a[2]
            if dst is not None:
                R[dst] = v
            return None
        f = self.mod.fn(name)
        if f is None and name in ('bcmp', 'memcmp'):
            v = self.memcmp(st, a[0], a[1], a[2], name == 'bcmp')
            if dst is not None:
                R[dst] = v
            return None
        if f is None and name in ('memcpy', 'memmove', 'memset'):
            (self.memset if name == 'memset' else self.memcpy)(st, a[0], a[1], a[2])
            if dst is not None:
                R[dst] = a[0]
            return None
        if f is None:
            if 'panic' in name or 'verif_panic' == name:
                self.end('panic', st, name)
                return 'end'
            raise Unsupported('call of ' + name)
        if f.noret:
            self.end('panic', st, name)
            return 'end'
        self.fns_seen.add(name)
        # keep only what the caller still needs
        keep = after
        fr.regs = {r: R[r] for r in keep if r in R}
        nf = Frame(f, f.entry, 0, {}, dst, {})
        for (n, t), v in zip(f.params, a):
            nf.regs[n] = v
        st.frames.append(nf)
        return 'enter'

    def memcmp(self, st, p, q, n, eq):
        n = self.resolve(st, n)
        if type(n) is not int or n > 64:
            raise Unsupported('memory comparison of %s bytes' % (n,))
        v = 0
        for i in reversed(range(n)):
            x = self.load(st, ('i', 8), P(p.o, S.add(p.f, i, 64)))
            y = self.load(st, ('i', 8), P(q.o, S.add(q.f, i, 64)))
            e = S.eq(x, y, 8)
            d = 1 if eq else S.ite(S.ult(x, y, 8), 0xffffffff, 1, 32)
            v = S.ite(e, v, d, 32)
        return v

    def intrinsic(self, st, name, a):
        n = name.split('.')
        op = n[1]
        if op in ('lifetime', 'assume', 'experimental', 'dbg', 'donothing', 'invariant', 'sideeffect', 'prefetch'):
            return None
        if op == 'memset':
            return self.memset(st, a[0], a[1], a[2])
        if op in ('memcpy', 'memmove'):
            return self.memcpy(st, a[0], a[1], a[2])
        w = None
        for x in reversed(n):
            if x[0] == 'i' and x[1:].isdigit():
                w = int(x[1:])
                break
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if op in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and n[2] == 'with':
            if op == 'uadd':
                r = S.add(x, y, w)
                if S.hi(x) + S.hi(y) <= MASK[w]:
                    return (r, 0)
                if type(y) is int:
                    return (r, S.ult(MASK[w] - y, x, w) if type(x) is T else int(x + y > MASK[w]))
                return (r, S.ult(r, x, w))
            if op == 'usub':
                return (S.sub(x, y, w), S.ult(x, y, w))
            if op == 'umul':
                r = S.mul(x, y, w)
                if S.hi(x) * S.hi(y) <= MASK[w]:
                    return (r, 0)
                if type(x) is int and type(y) is int:
                    return (r, int(x * y > MASK[w]))
                p = S.mul(S.zext(x, w, 2 * w), S.zext(y, w, 2 * w), 2 * w)
                return (r, S.ult(MASK[w], p, 2 * w))
            if type(x) is int and type(y) is int:
                sx = x - (1 << w) if x >> (w - 1) else x
                sy = y - (1 << w) if y >> (w - 1) else y
                v = sx + sy if op == 'sadd' else sx - sy if op == 'ssub' else sx * sy
                return (v & MASK[w], int(not -(1 << (w - 1)) <= v < (1 << (w - 1))))
            W = 2 * w
            ex, ey = S.sext(x, w, W), S.sext(y, w, W)
            v = S.add(ex, ey, W) if op == 'sadd' else S.sub(ex, ey, W) if op == 'ssub' else S.mul(ex, ey, W)
            r = S.trunc(v, W, w)
            return (r, S.not_(S.eq(S.sext(r, w, W), v, W)))
        if op == 'uadd' and n[2] == 'sat':
            if S.hi(x) + S.hi(y) <= MASK[w]:
                return S.add(x, y, w)
            if type(x) is int and type(y) is not int:
                x, y = y, x
            if type(y) is int:
                if type(x) is int:
                    return min(x + y, MASK[w])
                return S.ite(S.ult(MASK[w] - y, x, w), MASK[w], S.add(x, y, w), w)
            r = S.add(x, y, w)
            return S.ite(S.ult(r, x, w), MASK[w], r, w)
        if op == 'usub' and n[2] == 'sat':
            return S.ite(S.ult(x, y, w), 0, S.sub(x, y, w), w)
        if op == 'umax':
            return S.ite(S.ult(x, y, w), y, x, w)
        if op == 'umin':
            return S.ite(S.ult(x, y, w), x, y, w)
        if op == 'smax':
            return S.ite(S.slt(x, y, w), y, x, w)
        if op == 'smin':
            return S.ite(S.slt(x, y, w), x, y, w)
        if op in ('ucmp', 'scmp'):
            rw = int(n[2][1:])
            w = int(n[3][1:])
            lt = S.ult if op == 'ucmp' else S.slt
            return S.ite(lt(x, y, w), MASK[rw], S.ite(lt(y, x, w), 1, 0, rw), rw)
        if op == 'fshl':
            return S.fshl(x, y, a[2], w)
        if op == 'fshr':
            if type(a[2]) is int:
                s = a[2] % w
                return y if s == 0 else S.fshl(x, y, w - s, w)
            raise Unsupported(name)
        if op == 'expect':
            return x
        if op == 'bswap':
            ps = []
            for i in range(w // 8):
                v = S.slice_(x, 8 * i, 8, w)
                ps.append((None, v, 8) if type(v) is int else (v, 0, 8))
            return S.mk_cat(tuple(ps))
        if op == 'bitreverse':
            ps = []
            for i in range(w):
                v = S.slice_(x, i, 1, w)
                ps.append((None, v, 1) if type(v) is int else (v, 0, 1))
            return S.mk_cat(tuple(ps))
        if op in ('ctpop', 'ctlz', 'cttz'):
            if type(x) is int:
                if op == 'ctpop':
                    return bin(x).count('1')
                if op == 'ctlz':
                    return w - x.bit_length()
                return (x & -x).bit_length() - 1 if x else w
            if op == 'ctpop':
                r = 0
                for i in range(w):
                    r = S.add(r, S.zext(S.slice_(x, i, 1, w), 1, w), w)
                return r
            r = w
            for i in (range(w) if op == 'ctlz' else range(w - 1, -1, -1)):
                r = S.ite(S.slice_(x, i, 1, w), (w - 1 - i) if op == 'ctlz' else i, r, w)
            return r
        if op == 'abs':
            return S.ite(S.slt(x, 0, w), S.neg(x, w), x, w)
        if op == 'trap':
            raise Unsupported('trap')
        if op == 'verif':
            t = ('i', w)
            old = self.load(st, t, x)
            if n[2] == 'cmpxchg':
                ok = S.eq(old, y, w)
                self.store(st, t, S.ite(ok, a[2], old, w), x)
                return (old, ok)
            k = n[3]
            f = dict(xchg=lambda: y, add=lambda: S.add(old, y, w), sub=lambda: S.sub(old, y, w), xor=lambda: S.xor(old, y, w),
                     umax=lambda: S.ite(S.ult(old, y, w), y, old, w), umin=lambda: S.ite(S.ult(y, old, w), y, old, w),
                     **{'and': lambda: S.and_(old, y, w), 'or': lambda: S.or_(old, y, w)}).get(k)
            if f is None:
                raise Unsupported('intrinsic ' + name)
            self.store(st, t, f(), x)
            return old
        raise Unsupported('intrinsic ' + name)

    # ---- merging
    def sig(self, st):
        out = []
        top = st.frames[-1]
        live = top.block.livein
        for f in st.frames:
            L = live if f is top else None
            for r in sorted(f.regs):
                if L is not None and r not in L:
                    continue
                out.append(r)
                out.append(_vsig(f.regs[r]))
        for k in sorted(st.objs):
            o = st.objs[k]
            if type(o) is Cells:
                out.append(k)
                if not o.io:
                    for q in sorted(o.d):
                        c = o.d[q]
                        out.append((q, c[0], _vsig(c[1])))
                else:
                    for q in sorted(o.d):
                        out.append((q, o.d[q][0]))
            elif o.mode == 'cells':
                out.append(id(o))
        out.append(st.tag)
        return tuple(out)

    def merge(self, group):
        # forget dead registers
        buckets = {}
        order = []
        for s in group:
            top = s.frames[-1]
            live = top.block.livein
            R = top.regs
            if len(R) > len(live):
                top.regs = {r: R[r] for r in live if r in R}
            k = self.sig(s)
            if k not in buckets:
                buckets[k] = []
                order.append(k)
            buckets[k].append(s)
        out = []
        for k in order:
            b = buckets[k]
            while len(b) > 1:
                nb = []
                for i in range(0, len(b) - 1, 2):
                    m = self.merge2(b[i], b[i + 1])
                    if m is None:
                        nb.append(b[i])
                        nb.append(b[i + 1])
                    else:
                        self.merges += 1
                        nb.append(m)
                if len(b) & 1:
                    nb.append(b[-1])
                if len(nb) == len(b):
                    break
                b = nb
            out.extend(b)
        return out

    def merge2(self, a, b):
        common = a.pc & b.pc
        ra = a.pc - common
        rb = b.pc - common
        facts = {}
        diff = []
        for x, iv in a.facts.items():
            jv = b.facts.get(x)
            if jv is None:
                diff.append(x)
            elif jv == iv:
                facts[x] = iv
            else:
                diff.append(x)
        for x in b.facts:
            if x not in a.facts:
                diff.append(x)
        s = State()
        if not ra and not rb and len(diff) <= 1:
            if diff:
                x = diff[0]
                u = iv_or(a.facts.get(x, iv_full(x)), b.facts.get(x, iv_full(x)))
                if u != iv_full(x):
                    facts[x] = u
                condA = _Lazy(lambda x=x: iv_term(x, a.facts.get(x, iv_full(x))))
            else:
                condA = _Lazy(lambda: 1)
            s.pc = common
        else:
            ta = S.band(*(list(ra) + [iv_term(x, a.facts[x]) for x in diff if x in a.facts]))
            tb = S.band(*(list(rb) + [iv_term(x, b.facts[x]) for x in diff if x in b.facts]))
            for x in diff:
                if x in a.facts and x in b.facts:
                    u = iv_or(a.facts[x], b.facts[x])
                    if u != iv_full(x):
                        facts[x] = u
            condA = _Lazy(lambda: ta)
            c = S.bor(ta, tb)
            pc = common
            if type(c) is not int:
                pc = pc | (frozenset(c.a) if c.op == 'band' else frozenset((c,)))
            s.pc = pc
        s.facts = facts
        frames = []
        for fa, fb in zip(a.frames, b.frames):
            if fa.fn is not fb.fn or fa.block is not fb.block or fa.idx != fb.idx or fa.iters != fb.iters:
                return None
            regs = {}
            for r, x in fa.regs.items():
                y = fb.regs.get(r)
                if y is None and r not in fb.regs:
                    continue
                v = _vmerge(condA, x, y)
                if v is _NO:
                    return None
                regs[r] = v
            frames.append(Frame(fa.fn, fa.block, fa.idx, regs, fa.dst, dict(fa.iters)))
        s.frames = frames
        for k, x in a.objs.items():
            y = b.objs.get(k)
            if y is None:
                continue
            if x is y:
                s.objs[k] = x
                continue
            if type(x) is Cells:
                n = Cells(x.size, x.io)
                for q, (sz, v) in x.d.items():
                    c = y.d.get(q)
                    if c is None or c[0] != sz:
                        if x.io:
                            return None
                        continue
                    if x.io and type(v) is int and type(c[1]) is int and v != c[1]:
                        v = S.ite(condA(), v, c[1], sz * 8)
                    else:
                        v = _vmerge(condA, v, c[1], sz * 8)
                        if v is _NO:
                            return None
                    n.d[q] = (sz, v)
                s.objs[k] = n
            else:
                if x.mode != 'log':
                    return None
                i = 0
                L = min(len(x.ev), len(y.ev))
                while i < L and x.ev[i] is y.ev[i]:
                    i += 1
                n = FB(x.words, x.mode, x.init)
                n.ev = x.ev + y.ev[i:]
                s.objs[k] = n
        s.models = (a.models[:4] + b.models[:4]) if a.models and b.models else (a.models or b.models)
        s.tag = a.tag
        return s


class _Lazy:
    __slots__ = ('f', 'v')

    def __init__(self, f):
        self.f = f
        self.v = None

    def __call__(self):
        if self.v is None:
            self.v = self.f()
        return self.v


_NO = object()


def _vsig(v):
    if type(v) is int or type(v) is T:
        return v if type(v) is int else 'T'
    if type(v) is P:
        return (v.o, _vsig(v.f))
    if type(v) is tuple:
        return tuple(_vsig(x) for x in v)
    return v


def _vmerge(condA, x, y, w=None):
    if x is y:
        return x
    tx, ty = type(x), type(y)
    if tx is int and ty is int:
        return x if x == y else _NO
    if tx is T and ty is T:
        return S.ite(condA(), x, y, x.w)
    if tx is P and ty is P:
        if x.o != y.o:
            return _NO
        f = _vmerge(condA, x.f, y.f)
        return _NO if f is _NO else P(x.o, f)
    if tx is tuple and ty is tuple:
        out = []
        for p, q in zip(x, y):
            v = _vmerge(condA, p, q)
            if v is _NO:
                return _NO
            out.append(v)
        return tuple(out)
    if (tx is T and ty is int) or (tx is int and ty is T):
        return S.ite(condA(), x, y, x.w if tx is T else y.w)
    return _NO


def _find_cond(t, depth=0):
    """condition of an ite with constant arms that occurs linearly in t"""
    if type(t) is int or depth > 8:
        return None
    if t.op == 'ite':
        return t.a[0]
    if t.op == 'lin':
        for _, x in t.a[1]:
            c = _find_cond(x, depth + 1)
            if c is not None:
                return c
    if t.op == 'cat':
        for x, _, _ in t.a:
            if x is not None:
                if x.w == 1:
                    return x if x.op != 'v' else x
                c = _find_cond(x, depth + 1)
                if c is not None:
                    return c
    return None


def _under(x, c, v, memo):
    """simplify x knowing that condition c has value v"""
    if type(x) is P:
        f = _under(x.f, c, v, memo)
        return x if f is x.f else P(x.o, f)
    if type(x) is tuple:
        return tuple(_under(y, c, v, memo) for y in x)
    if type(x) is not T:
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if x is c:
        r = v
    elif x.op == 'ite':
        if x.a[0] is c:
            r = _under(x.a[1] if v else x.a[2], c, v, memo)
        elif x.a[0].op == 'not' and x.a[0].a[0] is c:
            r = _under(x.a[2] if v else x.a[1], c, v, memo)
        else:
            r = S.ite(x.a[0], _under(x.a[1], c, v, memo), _under(x.a[2], c, v, memo), x.w)
    elif x.op == 'lin':
        r = x.a[0]
        ch = False
        for k, y in x.a[1]:
            z = _under(y, c, v, memo)
            ch = ch or z is not y
            r = S.add(r, S.mul(z, k, x.w), x.w)
        if not ch:
            r = x
    elif x.op == 'cat':
        ps = []
        ch = False
        for y, l, n in x.a:
            if y is None:
                ps.append((None, l, n))
                continue
            z = _under(y, c, v, memo)
            ch = ch or z is not y
            z = S.slice_(z, l, n, y.w)
            ps.append((None, z, n) if type(z) is int else (z, 0, n))
        r = S.mk_cat(tuple(ps)) if ch else x
    elif x.op == 'not' and x.a[0] is c:
        r = 1 - v
    else:
        r = x
    memo[x] = r
    return r


def _repl(x, t, v, env):
    if type(x) is P:
        f = _repl(x.f, t, v, env)
        return x if f is x.f else P(x.o, f)
    if type(x) is tuple:
        return tuple(_repl(y, t, v, env) for y in x)
    if type(x) is not T:
        return x
    if x is t:
        return v
    if env:
        x = S.subst(x, env, {})
        if type(x) is int:
            return x
    d = S.sub(x, t, x.w) if x.w == t.w else x
    if type(d) is int:
        return (d + v) & MASK[x.w]
    return x


def _size(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8
    if k == 'p':
        return 8
    raise Unsupported('memory access of type %s' % (t,))


class NeedConcrete(Exception):
    def __init__(self, t):
        self.term = t


class OOB(Exception):
    def __init__(self, o, off):
        Exception.__init__(self, 'out of bounds access to %s' % o)
        self.o = o
        self.off = off


class Stop(Exception):
    pass
