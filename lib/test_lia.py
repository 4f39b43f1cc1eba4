"""lia.py against Z3 on random conjunctions (python3-vt test_lia.py [n] [seed])"""
import sys
import random
import sym as S
import lia
import ex


def main(n=3000, seed=1):
    r = random.Random(seed)
    sv = ex.Solver(3000, 60)
    cnt = {}
    for k in range(n):
        w = r.choice([8, 16, 64])
        M = S.MASK[w]
        vs = []
        for i in range(r.randrange(1, 4)):
            a, b = sorted((r.randrange(M + 1), r.randrange(M + 1)))
            if r.random() < .5:
                a, b = 0, r.choice([M, 40, 200])
            b = max(b, a + 1) if a < M else M
            vs.append(S.var('q%d_%d' % (k, i), w, min(a, M - 1), min(b, M)))

        def con():
            return r.choice([0, 1, 2, 3, 5, 24, 25, 200, M, M - 1, M - 25, r.randrange(M + 1)])

        def term(d=0):
            x = r.random()
            if x < .35 or d > 3:
                return r.choice(vs)
            if x < .45:
                return con()
            if x < .65:
                return S.add(term(d + 1), con(), w)
            if x < .75:
                return S.sub(term(d + 1), term(d + 1), w)
            if x < .83:
                return S.add(term(d + 1), term(d + 1), w)
            if x < .88:
                s = r.randrange(1, min(w, 6))
                return S.lshr(term(d + 1), s, w)
            if x < .94:
                y = term(d + 1)
                c = r.choice([1, 25, 3])
                return S.ite(S.ult(M - c, y, w), M, S.add(y, c, w), w)
            return S.ite(cond(d + 2), term(d + 1), term(d + 1), w)

        def cond(d=0):
            x = r.random()
            if d < 3 and x < .15:
                return S.band(cond(d + 1), cond(d + 1))
            if d < 3 and x < .3:
                return S.bor(cond(d + 1), cond(d + 1))
            if x < .4:
                return S.not_(cond(d + 1)) if d < 5 else 1
            if x < .75:
                return S.ult(term(d + 1), term(d + 1), w)
            return S.eq(term(d + 1), term(d + 1), w)
        pc = frozenset(c for c in (cond() for _ in range(r.randrange(0, 5))) if type(c) is not int)
        c = cond()
        if type(c) is int:
            continue
        L = lia.Lia()
        a, env = L.decide(pc, [], c)
        b, env2 = sv.check(list(pc) + [c])
        cnt[(a, b)] = cnt.get((a, b), 0) + 1
        if a is not None and b != 'unknown' and a != b:
            print('DISAGREE', a, b, env2, pc, c)
            return 1
    print(cnt)
    return 0


if __name__ == '__main__':
    sys.exit(main(*[int(x) for x in sys.argv[1:]]))
