"""C27: the frame buffer hash.  The library's function is run on buffers whose every word, and the
seed, are symbolic; its result is compared with Murmur3 over 32-bit blocks (finalised with the word
count).  That this reference never maps two buffers that differ in one word (or two seeds, or the
same words in another count ...) to one hash is shown by solver lemmas on its step and finaliser."""
import random
import time

import build
import core
import ex
import native
import sym as S
from ll import P

M = 0xffffffff
FULL = 5896


def r_block(h, k):
    k = S.mul(k, 0xcc9e2d51, 32)
    k = S.fshl(k, k, 15, 32)
    k = S.mul(k, 0x1b873593, 32)
    h = S.xor(h, k, 32)
    h = S.fshl(h, h, 13, 32)
    return S.add(S.mul(h, 5, 32), 0xe6546b64, 32)


def r_final(h, n):
    h = S.xor(h, n & M, 32)
    h = S.xor(h, S.lshr(h, 16, 32), 32)
    h = S.mul(h, 0x85ebca6b, 32)
    h = S.xor(h, S.lshr(h, 13, 32), 32)
    h = S.mul(h, 0xc2b2ae35, 32)
    return S.xor(h, S.lshr(h, 16, 32), 32)


def concrete(ws, seed):
    h = seed
    for k in ws:
        h = r_block(h, k)
    return r_final(h, len(ws))


def replay(ws, seed):
    """None, or what the real function does differently"""
    want = concrete(ws, seed)
    for prof in ('checked', 'release'):
        k, v = native.fbhash(ws, seed, prof)
        if k != 'ok' or v != want:
            # a pair of buffers one word apart with the same hash, when there is one at hand
            same = ''
            if k == 'ok':
                for i in range(len(ws)):
                    for d in (1, 0x80000000, 0xffff):
                        w2 = list(ws)
                        w2[i] ^= d
                        if native.fbhash(w2, seed, prof) == ('ok', v):
                            same = '; changing word %d by %#x leaves the hash the same' % (i, d)
                            break
                    if same or len(ws) > 300:
                        break
            return 'hash of %d words, seed %#x (%s build): %s, expected %08x%s' % (
                len(ws), seed, prof, '%08x' % v if k == 'ok' else k, want, same)
    return None


def task(n, chunk):
    S.reset()
    out = dict(stats={}, violations=[], errors=[], samples=[])
    pr = core.Prover(30000)
    ns = n if type(n) is tuple else (n,)
    for n in ns:
        S.reset()
        pr.solver = ex.Solver(30000, oneshot=True)
        e = ex.Engine(build.module())
        e.max_steps = 10 ** 7
        e.deadline = time.time() + 200
        st = ex.State()
        ws = [S.var('w%d' % i, 32) for i in range(n)]
        seed = S.var('seed', 32)
        c = ex.Cells(max(4, 4 * n))
        c.d = {4 * i: (4, w) for i, w in enumerate(ws)}
        st.objs['buf'] = c
        want = seed
        for w in ws:
            want = r_block(want, w)
        want = r_final(want, n)
        got = False
        try:
            for k, s, info in e.run('h_fbhash', [P('buf', 0), n, seed], st):
                got = True
                goal = S.eq(s.ret, want, 32) if k == 'ret' else 0
                v = pr.prove(s.conds(), goal) if type(goal) is int or n <= 3 else None
                if v is True:
                    continue
                cands = [v] if type(v) is dict else []
                rnd = random.Random(n)
                for j in range(6):
                    env = {'w%d' % i: rnd.getrandbits(32) for i in range(n)}
                    env['seed'] = rnd.getrandbits(32) if j else 0
                    cands.append(env)
                for env in cands:
                    t = [env.get('w%d' % i, 0) for i in range(n)]
                    bad = replay(t, env.get('seed', 0))
                    if bad:
                        out['violations'].append((bad, dict(words=t[:64], count=n, seed=env.get('seed', 0))))
                        break
                if out['violations']:
                    break
                out['errors'].append('%d words: %s path not shown equal to the reference' % (n, k))
        except (ex.Unsupported, ex.Budget) as x:
            out['errors'].append('%d words: %s: %s' % (n, type(x).__name__, x))
        core.add_stats(out['stats'], core.engine_stats(e))
        core.add_stats(out['stats'], dict(outcomes=1, functions={'blitstr::m3hash::frame_buffer (inlined into its harness entry)'}))
        if out['violations']:
            break
    core.add_stats(out['stats'], pr.stats())
    out['samples'].append('%s words, all symbolic' % (ns if len(ns) < 4 else '%d..%d' % (ns[0], ns[-1])))
    return out


def lemmas():
    """the reference's step is injective in the word and in the state, its finaliser in the state:
    each is undone by an explicit inverse, for all values"""
    S.reset()
    out = dict(stats={}, violations=[], errors=[], samples=[])
    import z3
    h, k, x = z3.BitVecs('h k x', 32)
    C = lambda v: z3.BitVecVal(v & M, 32)
    rl, rr = z3.RotateLeft, z3.RotateRight

    def mix(k):
        return rl(k * C(0xcc9e2d51), 15) * C(0x1b873593)

    def step(h, m):
        return rl(h ^ m, 13) * C(5) + C(0xe6546b64)

    def unstep(y):
        return rr((y - C(0xe6546b64)) * C(pow(5, -1, 1 << 32)), 13)

    def unshift(y, s):
        r = y
        for _ in range(32 // s + 1):
            r = y ^ z3.LShR(r, s)
        return r
    goals = [('k *= 0xcc9e2d51 is undone', k * C(0xcc9e2d51) * C(pow(0xcc9e2d51, -1, 1 << 32)) == k),
             ('k = rotl(k, 15) is undone', rr(rl(k, 15), 15) == k),
             ('k *= 0x1b873593 is undone', k * C(0x1b873593) * C(pow(0x1b873593, -1, 1 << 32)) == k),
             ('the mixed word is recovered from two states', unstep(step(h, k)) ^ h == k),
             ('the state is recovered from the next one', unstep(step(h, k)) ^ k == h),
             ('x ^= x >> 16 is undone', unshift(x ^ z3.LShR(x, 16), 16) == x),
             ('x ^= x >> 13 is undone', unshift(x ^ z3.LShR(x, 13), 13) == x),
             ('x *= 0x85ebca6b is undone', x * C(0x85ebca6b) * C(pow(0x85ebca6b, -1, 1 << 32)) == x),
             ('x *= 0xc2b2ae35 is undone', x * C(0xc2b2ae35) * C(pow(0xc2b2ae35, -1, 1 << 32)) == x)]
    for name, g in goals:
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(z3.Not(g))
        t0 = time.time()
        r = s.check()
        core.add_stats(out['stats'], dict(obligations=1, queries=1, solver_s=time.time() - t0))
        if r == z3.unsat:
            core.add_stats(out['stats'], dict(z3=1))
        else:
            out['errors'].append('lemma "%s": %s' % (name, r))
    # and the terms compared with the library are that reference
    rnd = random.Random(5)
    for _ in range(50):
        a, b = rnd.getrandbits(32), rnd.getrandbits(32)
        z = z3.simplify(step(C(a), mix(C(b)))).as_long()
        assert z == r_block(a, b)
    out['samples'].append('one-word changes always change the reference hash: %d lemmas' % len(goals))
    return out


def run1(*t):
    return lemmas() if t == ("lemmas",) else task(*t)


def main(pid):
    ck = core.Check(pid, 110, 1500)
    build.module()
    for p in ('checked', 'release'):
        native._lib(p)
    tasks, names = [('lemmas',)], ['lemmas on the reference']
    tasks.append(((FULL,), None))
    names.append('the whole frame buffer')
    top = 300 if ck.quick else 2200
    for a in range(0, top, 12):
        tasks.append((tuple(range(a, min(top, a + 12))), None))
        names.append('%d.. words' % a)
    for n in (2000, 4096, 5895, 5897, 10007) + (() if ck.quick else (1 << 13, 16385, 40000)):
        tasks.append(((n,), None))
        names.append('%d words' % n)
    ck.tasks(run1, tasks, names, 240)
    ck.assumptions = ['the reference hash is Murmur3 over 32-bit blocks as described at the function (public constants), finalised with the number of words',
                      'LLVM IR of the library (opt-level 2, overflow checks on); code generation below IR is trusted']
    ck.coverage['bounds'] = 'buffers of 0..%d words, the full frame buffer of %d words and some other sizes; every word and the seed symbolic' % (top - 1, FULL)
    ck.finish()
