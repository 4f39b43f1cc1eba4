"""Random self-check of the term layer: every constructor against plain integer
arithmetic, and the Z3 translation against evaluation."""
import random, sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import sym as S


def gen(r, vs, w, d):
    if d == 0 or r.random() < .15:
        if r.random() < .4:
            return (lambda e, k=r.choice([0, 1, 31, 32, S.MASK[w], r.getrandbits(w)]) & S.MASK[w]: k), None
        v = r.choice([x for x in vs if x.w == w] or [None])
        if v is None:
            k = r.getrandbits(w)
            return (lambda e, k=k: k), None
        return (lambda e, n=v.a[0]: e[n]), v
    return None


def build(r, vs, w, d):
    """returns (term, python function)"""
    M = S.MASK[w]
    if d == 0 or r.random() < .1:
        c = [x for x in vs if x.w == w]
        if c and r.random() < .75:
            v = r.choice(c)
            return v, (lambda e, n=v.a[0]: e[n])
        k = r.choice([0, 1, 5, 31, 32, M, r.getrandbits(w)]) & M
        return k, (lambda e, k=k: k)
    op = r.choice(['add', 'sub', 'mulk', 'mul', 'and', 'or', 'xor', 'shlk', 'lshrk', 'ashrk', 'shl', 'lshr', 'andk', 'zt', 'sl', 'ite', 'rot', 'xs', 'udivk', 'uremk', 'sx'])
    b = lambda ww=w: build(r, vs, ww, d - 1)
    if op == 'zt' or op == 'sx':
        ws = [q for q in (1, 8, 32) if q < w]
        if not ws:
            op = 'add'
        else:
            q = r.choice(ws)
            if q == 1:
                x, f = boolean(r, vs, d - 1)
            else:
                x, f = b(q)
            if op == 'zt':
                return S.zext(x, q, w), f
            return S.sext(x, q, w), (lambda e: S.sext(f(e), q, w))
    if op == 'sl':
        W = [q for q in (8, 32, 64) if q > w]
        if not W:
            op = 'add'
        else:
            q = r.choice(W)
            x, f = b(q)
            return S.trunc(x, q, w), (lambda e: f(e) & M)
    x, f = b()
    if op == 'ite':
        c, g = boolean(r, vs, d - 1)
        y, h = b()
        return S.ite(c, x, y, w), (lambda e: f(e) if g(e) else h(e))
    if op in ('shlk', 'lshrk', 'ashrk', 'rot', 'xs'):
        k = r.randrange(w)
        if op == 'shlk':
            return S.shl(x, k, w), (lambda e: (f(e) << k) & M)
        if op == 'lshrk':
            return S.lshr(x, k, w), (lambda e: f(e) >> k)
        if op == 'ashrk':
            return S.ashr(x, k, w), (lambda e: S.ashr(f(e), k, w))
        if op == 'rot':
            return S.fshl(x, x, k, w), (lambda e: ((f(e) << k) | (f(e) >> (w - k))) & M)
        return S.xor(x, S.lshr(x, k, w), w), (lambda e: f(e) ^ (f(e) >> k))
    if op == 'mulk':
        k = r.choice([3, 5, 11, 4, 0xcc9e2d51, M]) & M
        return S.mul(x, k, w), (lambda e: f(e) * k & M)
    if op == 'andk':
        k = r.choice([31, 0x3f, 0xf0, ~31, 0xff00, 7]) & M
        return S.and_(x, k, w), (lambda e: f(e) & k)
    if op == 'udivk':
        k = r.choice([3, 11, 8, 32])
        return S.udiv(x, k, w), (lambda e: f(e) // k)
    if op == 'uremk':
        k = r.choice([3, 11, 8, 32])
        return S.urem(x, k, w), (lambda e: f(e) % k)
    y, h = b()
    if op == 'add':
        return S.add(x, y, w), (lambda e: (f(e) + h(e)) & M)
    if op == 'sub':
        return S.sub(x, y, w), (lambda e: (f(e) - h(e)) & M)
    if op == 'mul':
        return S.mul(x, y, w), (lambda e: (f(e) * h(e)) & M)
    if op == 'and':
        return S.and_(x, y, w), (lambda e: f(e) & h(e))
    if op == 'or':
        return S.or_(x, y, w), (lambda e: f(e) | h(e))
    if op == 'xor':
        return S.xor(x, y, w), (lambda e: f(e) ^ h(e))
    s = S.and_(y, w - 1, w)
    if op == 'shl':
        return S.shl(x, s, w), (lambda e: (f(e) << (h(e) & (w - 1))) & M)
    return S.lshr(x, s, w), (lambda e: f(e) >> (h(e) & (w - 1)))


def boolean(r, vs, d):
    w = r.choice([8, 32, 64])
    op = r.choice(['eq', 'eqk', 'ult', 'ule', 'slt', 'and', 'or', 'not'])
    if d > 0 and op in ('and', 'or', 'not'):
        x, f = boolean(r, vs, d - 1)
        if op == 'not':
            return S.not_(x), (lambda e: 1 - f(e))
        y, g = boolean(r, vs, d - 1)
        if op == 'and':
            return S.band(x, y), (lambda e: f(e) & g(e))
        return S.bor(x, y), (lambda e: f(e) | g(e))
    x, f = build(r, vs, w, max(d, 0))
    y, g = build(r, vs, w, max(d, 0)) if op != 'eqk' else (None, None)
    if op == 'eqk':
        env = {v.a[0]: r.randint(v.lo, v.hi) for v in vs}
        k = f(env) if r.random() < .8 else r.getrandbits(w)
        return S.eq(x, k, w), (lambda e: int(f(e) == k))
    if op == 'ult':
        return S.ult(x, y, w), (lambda e: int(f(e) < g(e)))
    if op == 'ule':
        return S.ule(x, y, w), (lambda e: int(f(e) <= g(e)))
    if op == 'slt':
        s = 1 << (w - 1)
        return S.slt(x, y, w), (lambda e: int((f(e) ^ s) < (g(e) ^ s)))
    return S.eq(x, y, w), (lambda e: int(f(e) == g(e)))


def main(n, seed=1):
    r = random.Random(seed)
    z3 = S.z3mod()
    vs = [S.var('a', 64, 0, 335), S.var('b', 64), S.var('c', 64, 3, 11), S.var('d', 32), S.var('e', 32, 0, 0x10ffff),
          S.var('f', 8), S.var('g', 8, 0x80, 0xbf), S.var('h', 64, 0, 1)]
    for i in range(n):
        d = r.randint(1, 5)
        if r.random() < .4:
            t, f = boolean(r, vs, d)
            w = 1
        else:
            w = r.choice([8, 32, 64])
            t, f = build(r, vs, w, d)
        for j in range(6):
            env = {v.a[0]: r.choice([v.lo, v.hi, r.randint(v.lo, v.hi), min(v.hi, v.lo + r.randrange(40))]) for v in vs}
            want = f(env)
            got = S.evalt(t, env, {})
            assert got == want, (i, t, env, got, want)
            assert S.lo(t) <= got <= S.hi(t), ('interval', i, t, env, got, S.lo(t), S.hi(t))
            if type(t) is S.T and r.random() < .3:
                keep = {k: env[k] for k in env if r.random() < .5}
                t2 = S.subst(t, keep, {})
                assert S.evalt(t2, env, {}) == want, ('subst', i, t, t2)
        if type(t) is S.T and i % 4 == 0:
            z = S.toz(t, w)
            for nme in S.term_vars(t):
                S.toz(next(v for v in vs if v.a[0] == nme), 64)
            sub = [(S.VARS[nme][1], z3.BitVecVal(env[nme], S.VARS[nme][1].size())) for nme in S.term_vars(t)]
            v = z3.simplify(z3.substitute(z, *sub)).as_long()
            assert v == want, ('z3', i, t, v, want)
    print('ok', n)


if __name__ == '__main__':
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 20000, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
