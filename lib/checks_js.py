"""C24: the web demo's JavaScript, executed symbolically over an arbitrary frame buffer."""
import base64
import glob
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

import build
import core
import jsex
import sym as S
from jsex import Accessor, Arr, Buffer, JSThrow, Native, Obj, Typed, UNDEF

T = S.T
WEB = os.path.join(build.REPO, 'wasm_demo')
HERE = os.path.join(build.VERIF, 'harness', 'js')
WIDTH, LINES, LINE = 336, 536, 44
SIZE = LINES * LINE
PAGES = 65536


def sources():
    return sorted(f for f in glob.glob(os.path.join(WEB, '*.js')))


def trees():
    r = subprocess.run(['node', os.path.join(HERE, 'ast.js')] + sources(), capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError('JavaScript does not parse: ' + r.stderr[-2000:])
    return {os.path.basename(k): v for k, v in json.loads(r.stdout).items()}


# ------------------------------------------------------------------ the browser

class Canvas:
    def __init__(self, m):
        self.m = m
        self.w, self.h = 300, 150
        self.reset()
        ctx = Obj({}, 'CanvasRenderingContext2D')
        el = Obj({}, 'HTMLCanvasElement')
        nat = lambda f: Native(lambda m, t, a: f(a))
        ctx.p.update(canvas=el, getImageData=nat(self.get), putImageData=nat(self.put), createImageData=nat(self.create),
                     clearRect=nat(self.clear), imageSmoothingEnabled=True)
        el.p.update(getContext=nat(lambda a: ctx if a and a[0] == '2d' else None), addEventListener=nat(lambda a: UNDEF), style=Obj({}))

        def setw(v):
            self.w = jsex.toint(v)
            self.reset()
            return UNDEF

        def seth(v):
            self.h = jsex.toint(v)
            self.reset()
            return UNDEF
        el.p['width'] = Accessor(nat(lambda a: self.w), nat(lambda a: setw(a[0])))
        el.p['height'] = Accessor(nat(lambda a: self.h), nat(lambda a: seth(a[0])))
        self.el = el

    def reset(self):
        if self.m.log is not None:
            raise jsex.Unsupported('canvas resized under a symbolic condition')
        self.px = jsex.Bytes([0] * (self.w * self.h * 4))

    @staticmethod
    def image(w, h, b=None):
        return Obj(dict(width=w, height=h, data=Typed('Uint8ClampedArray', Buffer([0] * (w * h * 4)) if b is None else b, 0, w * h * 4)), 'ImageData')

    def create(self, a):
        if isinstance(a[0], Obj):
            return self.image(a[0].p['width'], a[0].p['height'])
        return self.image(jsex.toint(a[0]), jsex.toint(a[1]))

    def get(self, a):
        x, y, w, h = [jsex.toint(v) for v in a[:4]]
        if w < 1 or h < 1:
            raise JSThrow('IndexSizeError')
        d = self.image(w, h)
        b = d.p['data'].buf.b
        for j in range(h):
            for i in range(w):
                X, Y = x + i, y + j
                if 0 <= X < self.w and 0 <= Y < self.h:
                    p, q = (j * w + i) * 4, (Y * self.w + X) * 4
                    b[p:p + 4] = self.px[q:q + 4]
        return d

    def put(self, a):
        d = a[0]
        if not isinstance(d, Obj) or d.cls != 'ImageData':
            raise JSThrow('TypeError: not an ImageData')
        x, y = jsex.toint(a[1]), jsex.toint(a[2])
        w, h = d.p['width'], d.p['height']
        dx, dy, dw, dh = [jsex.toint(v) for v in a[3:7]] if len(a) >= 7 else (0, 0, w, h)
        t = d.p['data']
        b = t.buf.b
        for j in range(max(dy, 0), min(dy + dh, h)):
            for i in range(max(dx, 0), min(dx + dw, w)):
                X, Y = x + i, y + j
                if 0 <= X < self.w and 0 <= Y < self.h:
                    p, q = t.off + (j * w + i) * 4, (Y * self.w + X) * 4
                    if self.m.log is None:
                        self.px[q:q + 4] = b[p:p + 4]
                    else:
                        for k in range(4):
                            self.m.write(self.px, q + k, b[p + k])
        return UNDEF

    def clear(self, a):
        x, y, w, h = [jsex.toint(v) for v in a[:4]]
        for Y in range(max(y, 0), min(y + h, self.h)):
            for X in range(max(x, 0), min(x + w, self.w)):
                for k in range(4):
                    self.m.write(self.px, (Y * self.w + X) * 4 + k, 0)
        return UNDEF


def browser(m, streaming, ptr, mem, after):
    """globals of the page; mem: the WebAssembly memory (bytes), after: the frame buffer init() leaves"""
    g = m.globals
    nat = lambda f: Native(lambda m, t, a: f(a))
    c = Canvas(m)
    buf = Buffer(mem)
    noop = nat(lambda a: UNDEF)
    element = lambda: Obj(dict(addEventListener=noop, style=Obj({}), appendChild=noop, classList=Obj(dict(add=noop, remove=noop))))

    def init(a):
        for i, x in enumerate(after):
            m.write(buf.b, ptr + i, x)
        return UNDEF

    def listen(names):
        def f(a):
            if a[0] in names:
                m.timers.append(lambda: m.call(a[1], UNDEF, [Obj({})]))
            return UNDEF
        return nat(f)
    exports = Obj(dict(memory=Obj(dict(buffer=buf)), init=nat(init), frame_buf_ptr=nat(lambda a: ptr)))
    result = lambda: Obj(dict(instance=Obj(dict(exports=exports)), module=Obj({})))
    reject = lambda t: jsex.promise(m, None, Obj({'name': 'TypeError', 'message': t}, 'Error'))

    def fetch(a):
        u = a[0] if a else UNDEF
        if u in ('demo.wasm', './demo.wasm'):
            return jsex.promise(m, Obj(dict(ok=True, status=200, arrayBuffer=nat(lambda a: jsex.promise(m, Obj({}, 'wasm bytes')))), 'Response'))
        return reject('not found')

    def stream(m_, t, a):
        def got(m, t, b):
            if not (b and isinstance(b[0], Obj) and b[0].cls == 'Response'):
                raise JSThrow('TypeError: not a response')
            return result()
        p = a[0] if a and isinstance(a[0], Obj) and a[0].cls == 'Promise' else jsex.promise(m, jsex.arg(a, 0))
        return jsex.then(m, p, [Native(got)])

    def inst(a):
        if a and isinstance(a[0], Obj) and a[0].cls == 'wasm bytes':
            return jsex.promise(m, result())
        return reject('not wasm bytes')
    w = Obj(dict(instantiate=nat(inst)))
    if streaming:
        w.p['instantiateStreaming'] = Native(stream)
    g['WebAssembly'] = w
    g['fetch'] = nat(fetch)
    g['document'] = Obj(dict(querySelector=nat(lambda a: c.el if a[0] in ('#screen', 'canvas') else element()),
                             getElementById=nat(lambda a: c.el if a[0] == 'screen' else element()), createElement=nat(lambda a: element()),
                             addEventListener=listen(('DOMContentLoaded',)), body=element()))

    def imagedata(m, a):
        if isinstance(a[0], Typed):
            wd = jsex.toint(a[1])
            h = jsex.toint(a[2]) if len(a) > 2 else a[0].n // 4 // wd
            if wd * h * 4 != a[0].n:
                raise JSThrow('InvalidStateError')
            return Obj(dict(width=wd, height=h, data=a[0]), 'ImageData')
        return Canvas.image(jsex.toint(a[0]), jsex.toint(a[1]))
    g['ImageData'] = Native(lambda m, t, a: None, imagedata, {'name': 'ImageData'})
    g['addEventListener'] = listen(('load',))
    win = Obj(g, 'Window')
    g['window'] = g['globalThis'] = g['self'] = win
    return c


# ------------------------------------------------------------------ the real code

def replay(streaming, ptr, before, after):
    """the modules themselves under node: dict(width, height, error, pixels)"""
    d = tempfile.mkdtemp(prefix='vjs')
    try:
        for f in sources():
            shutil.copy(f, d)
        with open(os.path.join(d, 'package.json'), 'w') as f:
            f.write('{"type": "module"}')
        spec = os.path.join(d, 'spec.json')
        with open(spec, 'w') as f:
            json.dump(dict(out=os.path.join(d, 'out.json'), streaming=streaming, ptr=ptr, before=base64.b64encode(bytes(before)).decode(),
                           after=base64.b64encode(bytes(after)).decode()), f)
        r = subprocess.run(['node', os.path.join(HERE, 'run.mjs'), d, spec], capture_output=True, text=True, timeout=120)
        try:
            with open(os.path.join(d, 'out.json')) as f:
                o = json.load(f)
        except (OSError, ValueError):
            return dict(width=0, height=0, error='node failed: ' + r.stderr[-300:], pixels=b'')
        o['pixels'] = base64.b64decode(o['pixels'])
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(o, after):
    """None or what is wrong with a canvas for this frame buffer"""
    if o['error']:
        return 'the page fails: %s' % o['error'][:200]
    if (o['width'], o['height']) != (WIDTH, LINES):
        return 'the canvas is %d x %d' % (o['width'], o['height'])
    px = o['pixels']
    for y in range(LINES):
        for x in range(WIDTH):
            bit = after[y * LINE + x // 8] >> (x % 8) & 1
            p = (y * WIDTH + x) * 4
            r, g, b, a = px[p:p + 4]
            if bit and a or not bit and (a != 255 or max(r, g, b) >= 128):
                return 'pixel (%d, %d) of a frame buffer whose bit there is %d is rgba(%d, %d, %d, %d)' % (x, y, bit, r, g, b, a)
    return None


def fill(env, names, seed):
    r = random.Random(seed)
    return [env.get(n, r.randrange(256)) for n in names]


def same(pr, a, k, f, cache):
    """is alpha value a 0 exactly when bit k of byte f is set?  Terms that differ only in the name
    of the byte are decided once."""
    goal = lambda a, f: S.eq(a, S.ite(S.slice_(f, k, 1, 8), 0, 255, 8), 8)
    if type(a) is T:
        vs = S.term_vars(a)
        if len(vs) == 1:
            c = S.var('C', 8)
            a2 = S.subst(a, {next(iter(vs)): c}, {})
            if list(S.term_vars(f)) == list(vs):
                key = a2, k
                if key in cache:
                    pr.folded += 1
                    return True
                r = pr.prove([], goal(a2, c))
                if r is True:
                    cache[key] = 1
                    return True
    return pr.prove([], goal(a, f))


def task(streaming, ptr, pages, seed):
    S.reset()
    out = dict(stats={}, violations=[], errors=[], samples=[])
    pr = core.Prover(10000)
    r = random.Random(seed)
    size = pages * PAGES
    mem = [r.randrange(256) for _ in range(size)]
    names = {}
    for i in range(max(0, ptr - 4096), min(size, ptr + SIZE + 4096)):
        names[i] = 'M%d' % i
        mem[i] = S.var(names[i], 8)
    after = [S.var('F%d' % i, 8) for i in range(SIZE)]
    err, env = None, {}
    m = jsex.Machine(jsex.base_globals())
    pixels = None
    cache = {}
    try:
        c = browser(m, streaming, ptr, list(mem), after)
        jsex.load(m, trees(), 'main.js')
        m.drain()
        if (c.w, c.h) != (WIDTH, LINES):
            err = 'the canvas is %d x %d' % (c.w, c.h)
        else:
            pixels = c.px
            for y in range(LINES):
                if err:
                    break
                for x in range(WIDTH):
                    bit = S.slice_(after[y * LINE + x // 8], x % 8, 1, 8)
                    p = (y * WIDTH + x) * 4
                    want = S.ite(bit, 0, 255, 8)
                    a = pixels[p + 3]
                    if a is want:
                        pr.folded += 1
                        ok = True
                    else:
                        ok = same(pr, a, x % 8, after[y * LINE + x // 8], cache)
                    for k in range(3):
                        v = pixels[p + k]
                        if ok is True:
                            ok = pr.prove([], int(v < 128) if type(v) is int and v < 128 else S.bor(bit, S.ult(v, 128, 8) if type(v) is not int else int(v < 128)))
                    if ok is not True:
                        err = 'pixel (%d, %d)' % (x, y) + ('' if ok else ' not decided')
                        env = ok or {}
                        break
    except JSThrow as e:
        err = str(e)
    except (jsex.Unsupported, RecursionError) as e:
        err = '%s: %s' % (type(e).__name__, e)
    core.add_stats(out['stats'], dict(outcomes=1, instructions=m.steps, merges=m.merges, functions=m.seen))

    def real(e, s):
        mm = [x if type(x) is int else e.get(names[i], random.Random(s * 7 + i).randrange(256)) for i, x in enumerate(mem)]
        aa = fill(e, ['F%d' % i for i in range(SIZE)], s) if s >= 0 else [0xff if s == -1 else 0] * SIZE
        return mm, aa, replay(streaming, ptr, mm, aa)
    if err is None:
        mm, aa, o = real({}, seed)
        bad = judge(o, aa)
        e = {'F%d' % i: v for i, v in enumerate(aa)}
        e.update({n: mm[i] for i, n in names.items()})
        memo = {}
        pred = bytes(x if type(x) is int else S.evalt(x, e, memo) for x in pixels)
        core.add_stats(out['stats'], dict(witnesses=1))
        if pred != o['pixels'] or bad:
            out['errors'].append('encoding and node disagree (%s)' % bad)
        out['samples'].append(dict(streaming=streaming, ptr=ptr, functions=sorted(m.seen), loop_steps=m.steps))
    else:
        for k, (e, s) in enumerate([(env, seed), ({}, -1), ({}, -2), ({}, seed + 1)]):
            mm, aa, o = real(e, s)
            core.add_stats(out['stats'], dict(fallback_replays=1))
            bad = judge(o, aa)
            if bad:
                out['violations'].append((bad, dict(streaming=streaming, frame_buf_ptr=ptr, seed=s, model={k: v for k, v in list(e.items())[:40]})))
                break
        else:
            out['errors'].append(err)
    core.add_stats(out['stats'], pr.stats())
    core.add_stats(out['stats'], dict(queries=pr.solver.queries, solver_s=pr.solver.time))
    return out


def main(prop):
    ck = core.Check(prop, 300, 800)
    r = random.Random(ck.seed)
    tasks = [(True, 0x100000, 17, 1), (False, 0x100000 + 4 * r.randrange(1, 2000), 18, 2)]
    if not ck.quick:
        tasks += [(k % 2 == 0, 4 * r.randrange(0, 60000), 5, 3 + k) for k in range(6)] + [(True, 5 * PAGES - SIZE, 5, 11), (False, 0, 5, 12)]
    ck.tasks(task, tasks, ['%s, frame buffer at %d' % ('streaming' if t[0] else 'fallback', t[1]) for t in tasks], 600)
    ck.assumptions = ['the WebAssembly memory does not grow (the library allocates nothing)', 'init() leaves any contents in the frame buffer',
                      'stand-ins for canvas, fetch and WebAssembly as in lib/checks_js.py and harness/js/run.mjs']
    ck.coverage['bounds'] = 'every frame buffer (one symbolic variable per byte, and for the bytes around it), every canvas pixel, both loading paths; %d addresses of the frame buffer' % len(tasks)
    ck.finish()
