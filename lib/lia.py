"""A small decision procedure for conjunctions of comparisons between integers
(difference constraints with case splits), used in front of Z3 for branch feasibility.
'unsat' answers use only relaxations, 'sat' answers are checked by evaluation, everything
else is left to Z3."""
import sym as S
from sym import T, MASK

INF = 1 << 80


class Stats:
    sat = 0
    unsat = 0
    none = 0


def find_ite(t, depth=0):
    """an if-then-else in a linear position of t"""
    if type(t) is int or depth > 6:
        return None
    if t.op == 'ite':
        return t
    if t.op == 'lin':
        for _, x in t.a[1]:
            c = find_ite(x, depth + 1)
            if c is not None:
                return c
    if t.op == 'cat':
        for x, _, _ in t.a:
            if x is not None:
                c = find_ite(x, depth + 1)
                if c is not None:
                    return c
    return None


def under(x, c, v, memo):
    """simplify x knowing that condition c has value v"""
    if type(x) is not T:
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if x is c:
        r = v
    elif x.op == 'ite':
        if x.a[0] is c:
            r = under(x.a[1] if v else x.a[2], c, v, memo)
        elif x.a[0].op == 'not' and x.a[0].a[0] is c:
            r = under(x.a[2] if v else x.a[1], c, v, memo)
        else:
            r = S.ite(x.a[0], under(x.a[1], c, v, memo), under(x.a[2], c, v, memo), x.w)
    elif x.op == 'lin':
        r = x.a[0]
        ch = False
        for k, y in x.a[1]:
            z = under(y, c, v, memo)
            ch = ch or z is not y
            r = S.add(r, S.mul(z, k, x.w), x.w)
        if not ch:
            r = x
    elif x.op == 'cat':
        ps = []
        ch = False
        for y, l, n in x.a:
            if y is None:
                ps.append((None, l, n))
                continue
            z = under(y, c, v, memo)
            ch = ch or z is not y
            z = S.slice_(z, l, n, y.w)
            ps.append((None, z, n) if type(z) is int else (z, 0, n))
        r = S.mk_cat(tuple(ps)) if ch else x
    elif x.op == 'not' and x.a[0] is c:
        r = 1 - v
    else:
        r = x
    memo[x] = r
    return r


def literals(t, items, dis):
    """add 1-bit term t to the conjunction: primitive items and disjunctions (lists of terms);
    False when t is false"""
    if type(t) is int:
        return bool(t)
    neg = False
    if t.op == 'not':
        neg = True
        t = t.a[0]
        if type(t) is int:
            return not t
    op = t.op
    if op == 'band' or op == 'bor':
        xs = [S.not_(x) for x in t.a] if neg else t.a
        if (op == 'band') != neg:
            for x in xs:
                if not literals(x, items, dis):
                    return False
        else:
            dis.append(list(xs))
        return True
    if op == 'ite':
        c, p, q = t.a
        if neg:
            p, q = S.not_(p), S.not_(q)
        dis.append([S.band(c, p), S.band(S.not_(c), q)])
        return True
    if op == 'ult' or op == 'eq':
        x, y = t.a
        f = find_ite(x) or find_ite(y)
        if f is not None:
            c = f.a[0]
            out = []
            w = x.w if type(x) is T else y.w
            for v, g in ((1, c), (0, S.not_(c))):
                memo = {}
                a, b = under(x, c, v, memo), under(y, c, v, memo)
                r = S.ult(a, b, w) if op == 'ult' else S.eq(a, b, w)
                out.append(S.band(g, S.not_(r) if neg else r))
            dis.append(out)
            return True
        if op == 'ult':
            if neg:
                x, y = y, x
            items.append(('le', x, y, not neg))
            return True
        if type(y) is int and y == 0 and type(x) is T and x.op == 'lin':
            # c + sum = 0 (mod 2^w) as a comparison of two sides
            r = S._side_split(x.a[0], x.a[1], x.w)
            if r is not None:
                d = dict(r[0][1])
                for a, k in r[1][1].items():
                    d[a] = d.get(a, 0) - k
                k = r[0][0] - r[1][0]
                n = {a: -v for a, v in d.items()}
                if not neg:
                    items.append(('lin', k, d))
                    items.append(('lin', -k, n))
                else:
                    dis.append([('lin', k + 1, d), ('lin', 1 - k, n)])
                return True
            # equal sides may wrap: only usable as an equality of whole terms
        if not neg:
            items.append(('le', x, y, False))
            items.append(('le', y, x, False))
        else:
            dis.append([('le', x, y, True), ('le', y, x, True)])
        return True
    items.append(('?', t))
    return True


class Net:
    def __init__(self):
        self.ix = {None: 0}
        self.atoms = [None]
        self.d = [[0]]
        self.mods = 0

    def copy(self):
        n = Net()
        n.ix = dict(self.ix)
        n.atoms = list(self.atoms)
        n.d = [list(r) for r in self.d]
        n.mods = 0
        return n

    def node(self, a):
        i = self.ix.get(a)
        if i is None:
            i = len(self.atoms)
            self.ix[a] = i
            self.atoms.append(a)
            for j, r in enumerate(self.d):
                # d[i][j] : upper bound of node i - node j
                r.append(self.d[j][0] - a.lo if self.d[j][0] < INF else INF)
            self.d.append([min(INF, a.hi + self.d[0][j]) for j in range(i)] + [0])
        return i

    def edge(self, u, v, c):
        """node u - node v <= c"""
        d = self.d
        if d[u][v] <= c:
            return True
        if d[v][u] + c < 0:
            return False
        n = len(d)
        self.mods += 1
        dv = d[v]
        for i in range(n):
            a = d[i][u] + c
            di = d[i]
            if a < di[v] or i == u:
                for j in range(n):
                    b = a + dv[j]
                    if b < di[j]:
                        di[j] = b
        return True

    def exact(self, t):
        e = S.exact(t)
        if type(t) is int or t.op != 'lin' or t not in e[1]:
            return e
        c, ts = t.a
        w = t.w
        half = 1 << (w - 1)
        full = 1 << w
        cs = [(k - full if k >= half else k, x) for k, x in ts]
        for cc in ((c - full, c) if c >= half else (c, c - full)):
            lo, hi = self.bounds(cs)
            if 0 <= lo + cc and hi + cc < full:
                d = {}
                for k, x in cs:
                    d[x] = k
                return cc, d
        return e

    def bounds(self, cs):
        if len(cs) == 2:
            (k, x), (m, y) = cs
            if k == -1 and m == 1:
                (k, x), (m, y) = cs[1], cs[0]
            if k == 1 and m == -1:
                i, j = self.node(x), self.node(y)
                return -self.d[j][i], self.d[i][j]
        lo = hi = 0
        for k, x in cs:
            i = self.node(x)
            l, h = -self.d[0][i], self.d[i][0]
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def tighten(self):
        """bounds of 'high bits of t' atoms from the bounds of t"""
        for a in list(self.atoms):
            if a is None or a.op != 'cat':
                continue
            x, l, n = a.a[-1]
            if x is None or len(a.a) > 2 or (len(a.a) == 2 and (a.a[0][0] is not None or a.a[0][1])) or x.hi >> (l + n):
                continue
            c, d = self.exact(x)
            lo, hi = self.bounds([(k, y) for y, k in d.items()])
            lo += c
            hi += c
            i = self.node(a)
            if lo >= 0 and not (self.edge(i, 0, hi >> l) and self.edge(0, i, -(lo >> l))):
                return False
        return True

    def item(self, it):
        self.final = True
        if it[0] == 'lin':
            return self.add(it[1], it[2])
        if it[0] != 'le':
            self.final = False
            return None
        x, y, strict = it[1:]
        cx, dx = self.exact(x)
        cy, dy = self.exact(y)
        self.final = not ((type(x) is T and x.op == 'lin' and x in dx) or (type(y) is T and y.op == 'lin' and y in dy))
        d = dict(dx)
        for a, k in dy.items():
            d[a] = d.get(a, 0) - k
        return self.add(cx - cy + (1 if strict else 0), {a: k for a, k in d.items() if k})

    def add(self, k, coefs):
        """k + sum <= 0; False if contradictory, None if not a difference constraint"""
        cs = list(coefs.items())
        if not cs:
            return k <= 0
        if len(cs) == 1:
            a, v = cs[0]
            i = self.node(a)
            if v > 0:
                return self.edge(i, 0, -k // v)
            return self.edge(0, i, -((k + (-v) - 1) // -v))
        if len(cs) == 2:
            (a, v), (b, w) = cs
            if v == 1 and w == -1:
                return self.edge(self.node(a), self.node(b), -k)
            if v == -1 and w == 1:
                return self.edge(self.node(b), self.node(a), -k)
        # relaxation by intervals
        l = k
        for a, v in cs:
            i = self.node(a)
            l += v * (-self.d[0][i]) if v > 0 else v * self.d[i][0]
        if l > 0:
            return False
        return None

    def solution(self, mode):
        """an integer point: mode 0 lowest, 1 highest, 2 lowest then rigid"""
        n = len(self.d)
        if mode == 0:
            return [-self.d[0][i] for i in range(n)]
        return [self.d[i][0] for i in range(n)]


class Lia:
    def __init__(self, budget=40):
        self.cache = {}
        self.budget = budget

    def base(self, terms):
        """(net, disjunctions, deferred items) for a set of conditions, cached; None = unsat"""
        if terms in self.cache:
            return self.cache[terms]
        r = self.assume(Net(), [], [], list(terms))
        if len(self.cache) > 500:
            self.cache.clear()
        self.cache[terms] = r
        return r

    def assume(self, net, dis, res, terms):
        """conjoin terms (net is changed); None if contradictory"""
        items = []
        dis = list(dis)
        for t in terms:
            if type(t) is tuple:
                items.append(t)
            elif not literals(t, items, dis):
                return None
        new = []
        for it in items:
            r = net.item(it)
            if r is False:
                return None
            if (r is None or not net.final) and it[0] != '?':
                new.append(it)
        res = list(res)
        mods = -1
        for rnd in range(3):
            if net.mods == mods and not new:
                break
            mods = net.mods
            if not net.tighten():
                return None
            keep = []
            for it in res + new:
                r = net.item(it)
                if r is False:
                    return None
                if r is None or not net.final:
                    keep.append(it)
            res = keep
            new = []
            if net.mods == mods:
                break
        return net, dis, res

    def decide(self, pc, facts_terms, c):
        terms = frozenset(pc) | frozenset(facts_terms)
        b = self.base(terms)
        self.nodes = 0
        r = 'unsat'
        if b is not None:
            r = self.assume(b[0].copy(), b[1], b[2], [c])
            r = 'unsat' if r is None else self.search(r[0], r[1], r[2], list(terms) + [c])
        if r == 'unsat':
            Stats.unsat += 1
            return 'unsat', None
        if r is None:
            Stats.none += 1
            return None, None
        Stats.sat += 1
        return 'sat', r

    def search(self, net, dis, res, terms):
        self.nodes += 1
        if self.nodes > self.budget:
            return None
        # drop impossible alternatives, commit to single ones
        changed = True
        while changed:
            changed = False
            nd = []
            for k, alts in enumerate(dis):
                live = []
                for a in alts:
                    r = self.assume(net.copy(), [], res, [a])
                    if r is not None:
                        live.append((a, r))
                        if len(live) > 1 and len(alts) > 6:
                            live += [(x, None) for x in alts[alts.index(a) + 1:]]
                            break
                if not live:
                    return 'unsat'
                if len(live) == 1:
                    net, more, res = live[0][1]
                    dis = nd + more + dis[k + 1:]
                    changed = True
                    break
                nd.append([x for x, _ in live])
            else:
                dis = nd
        if not dis:
            return self.point(net, terms)
        env = self.point(net, terms)
        if env is not None:
            return env
        dis.sort(key=len)
        unk = False
        for a in dis[0]:
            r = self.assume(net.copy(), dis[1:], res, [a])
            if r is None:
                continue
            r = self.search(r[0], r[1], r[2], terms)
            if type(r) is dict:
                return r
            if r is None:
                unk = True
                if self.nodes > self.budget:
                    return None
        return None if unk else 'unsat'

    def point(self, net, terms):
        for mode in (0, 1):
            sol = net.solution(mode)
            env = {}
            for i, a in enumerate(net.atoms):
                if a is not None and a.op == 'v':
                    env[a.a[0]] = sol[i]
            memo = {}
            if all(S.evalt(t, env, memo) for t in terms):
                return env
        return None
