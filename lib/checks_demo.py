"""C19: the demo screens, run symbolically over an arbitrary initial frame buffer."""
import time

import build
import core
import ex
import native
import paint
import random
import sym as S
from ll import P

T = S.T
RUNS = [('sample_text', 'h_demo', 0), ('short_greeting', 'h_demo', 1), ('goose_poem', 'h_demo', 2), ('wasm init', 'h_wasm_init', None)]


def visible(i):
    return 0xffff if i % 11 == 10 else 0xffffffff


def margin(i):
    """bits of word i that lie in the 6-pixel margin (or 0)"""
    y, k = divmod(i, 11)
    if y < 6 or y >= 530:
        return visible(i)
    return 0x3f if k == 0 else 0xfc00 if k == 10 else 0


def native_check(fn, k, seeds):
    """two runs over different initial contents natively"""
    res = []
    for fb in seeds:
        if fn == 'h_demo':
            r, g = native.demo(fb, k)
        else:
            r, g = native.wasm_init(fb)
        if r != 'ok':
            return r
        res.append(g)
        for i, w in enumerate(g):
            if w & margin(i) != margin(i):
                return 'margin word %d is %08x' % (i, w)
    for i in range(5896):
        ws = {g[i] & visible(i) for g in res}
        if len(ws) > 1:
            return 'word %d (line %d) depends on the previous contents: %s' % (i, i // 11, ['%08x' % w for w in sorted(ws)])
    return None


def task(name, fn, k, cut):
    S.reset()
    out = dict(stats={}, violations=[], errors=[], samples=[])
    pr = core.Prover(10000)
    e = ex.Engine(build.module())
    e.max_steps = 10 ** 7
    e.deadline = time.time() + 300
    seeds = [[0] * 5896, [0xffffffff] * 5896, paint.rnd_fb(1)]
    st = ex.State()
    F = {}

    def init(i):
        if i not in F:
            F[i] = S.var('F%d' % i, 32)
        return F[i]
    if fn == 'h_demo':
        key = 'fb'
        args = [P('fb', 0), k]
    else:
        # the frame buffer is wherever frame_buf_ptr says
        r = ex.Engine(build.module()).run('h_wasm_ptr', [], ex.State())
        key = r[0][1].ret.o if len(r) == 1 and type(r[0][1].ret) is P and r[0][1].ret.f == 0 else None
        args = []
    err = None
    try:
        if key is None:
            raise ex.Unsupported('frame buffer static not found')
        st.objs[key] = ex.FB(5896, 'cells', init)
        outs = e.run(fn, args, st)
        core.add_stats(out['stats'], core.engine_stats(e))
        core.add_stats(out['stats'], dict(outcomes=len(outs)))
        if not outs:
            raise ex.Unsupported('no outcome')
        for kind, s, info in outs:
            if kind != 'ret':
                err = '%s %s' % (kind, info)
                break
            if s.conds():
                # control flow depends on the old contents: both sides must give the same picture
                err = 'control flow depends on the previous contents'
                break
            fb = s.objs[key]
            n = 0
            for i in range(5896):
                w = fb.d.get(i)
                if w is None:
                    w = init(i)
                vis = S.and_(w, visible(i), 32)
                if type(vis) is int:
                    pr.folded += 1
                else:
                    # w with F_i against w with a second, unrelated value
                    w2 = S.subst(w, {'F%d' % i: S.var('G%d' % i, 32)}, {})
                    r = pr.prove(s.conds(), S.eq(S.and_(w2, visible(i), 32), vis, 32))
                    if r is not True:
                        err = 'word %d depends on the previous contents' % i
                        seeds = seeds + [[(r or {}).get('F%d' % j, 0) for j in range(5896)]]
                        break
                m = margin(i)
                if m:
                    r = pr.prove(s.conds(), S.eq(S.and_(w, m, 32), m, 32))
                    if r is not True:
                        err = 'word %d: margin not cleared' % i
                        break
            if err:
                break
            # witness: prediction against the native code
            fb0 = paint.rnd_fb(5)
            r, g = native.demo(fb0, k) if fn == 'h_demo' else native.wasm_init(fb0)
            env = {'F%d' % i: x for i, x in enumerate(fb0)}
            memo = {}
            pred = [S.evalt(fb.d[i], env, memo) if i in fb.d else fb0[i] for i in range(5896)]
            core.add_stats(out['stats'], dict(witnesses=1))
            if r != 'ok' or pred != g:
                out['errors'].append('%s: encoding and native code disagree (%s)' % (name, r))
            out['samples'].append('%s: %d words written, %d instructions' % (name, len(fb.d), e.instrs))
    except (ex.Unsupported, ex.Budget) as x:
        err = '%s: %s' % (type(x).__name__, x)
    if err:
        d = native_check(fn, k, seeds)
        core.add_stats(out['stats'], dict(fallback_replays=len(seeds)))
        if d:
            out['violations'].append(('%s: %s' % (name, d), dict(demo=name, initial='zeros, ones and random seed 1')))
        else:
            out['errors'].append('%s: %s' % (name, err))
    core.add_stats(out['stats'], pr.stats())
    core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
    return out


def main(prop):
    ck = core.Check(prop, 200, 400)
    build.module()
    for p in ('checked', 'release'):
        native._lib(p)
    tasks = [r + (0,) for r in RUNS]
    ck.tasks(task, tasks, [r[0] for r in RUNS], 400)
    ck.assumptions = ['initial frame buffer: all values, one symbolic 32-bit variable per word',
                      'LLVM IR of the library and of wasm_demo/src/lib.rs built for the host (opt-level 2, overflow checks on)']
    ck.coverage['bounds'] = 'none: the demos have no other input; every path of each is followed to its end'
    ck.finish()
