"""Runs the natively compiled library in a child process (a panic, crash or endless loop is
reported, not suffered)."""
import ctypes
import os
import pickle
import select
import signal
import struct
import time
import build

WORDS = 5896
_libs = {}


def _lib(profile):
    l = _libs.get(profile)
    if l is None:
        l = ctypes.CDLL(build.native_lib(profile))
        l.r_quiet()
        _libs[profile] = l
    return l


def isolated(fn, timeout=20):
    """fn() in a forked child -> ('ok', value) | ('timeout', None) | ('crash', status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            v = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(v)
            os._exit(0)
        except BaseException as e:
            os.write(2, ('native: %r\n' % e).encode())
            os._exit(99)
    os.close(w)
    data = b''
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return 'timeout', None
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        return 'crash', st
    return 'ok', pickle.loads(data)


def _paint(lib, fb, clip, cur, st, text):
    b = text.encode() if isinstance(text, str) else text
    A = ctypes.c_uint32 * WORDS
    buf = A(*fb)
    C4 = (ctypes.c_uint64 * 4)(*clip)
    C3 = (ctypes.c_uint64 * 3)(*cur)
    rc = lib.r_paint(buf, C4, C3, ctypes.c_uint64(st), b, ctypes.c_uint64(len(b)))
    return rc, list(buf), list(C3)


def paint(fb, clip, cur, st, text, profile='checked', timeout=20):
    """(outcome, fb, cursor): outcome 'ok', 'panic', 'timeout' or 'crash'"""
    lib = _lib(profile)
    k, v = isolated(lambda: _paint(lib, fb, clip, cur, st, text), timeout)
    if k != 'ok':
        return k, None, None
    return ('panic' if v[0] else 'ok'), v[1], v[2]


def clear(fb, clip, profile='checked', timeout=20):
    lib = _lib(profile)

    def f():
        buf = (ctypes.c_uint32 * WORDS)(*fb)
        rc = lib.r_clear(buf, (ctypes.c_uint64 * 4)(*clip))
        return rc, list(buf)
    k, v = isolated(f, timeout)
    if k != 'ok':
        return k, None
    return ('panic' if v[0] else 'ok'), v[1]


def demo(fb, which, profile='checked', timeout=20):
    lib = _lib(profile)

    def f():
        buf = (ctypes.c_uint32 * WORDS)(*fb)
        rc = lib.r_demo(buf, ctypes.c_uint64(which))
        return rc, list(buf)
    k, v = isolated(f, timeout)
    if k != 'ok':
        return k, None
    return ('panic' if v[0] else 'ok'), v[1]


def chash(text, seed, limit, profile='checked'):
    b = text.encode() if isinstance(text, str) else text
    lib = _lib(profile)
    o = (ctypes.c_uint64 * 2)()

    def f():
        rc = lib.r_hash(b, ctypes.c_uint64(len(b)), ctypes.c_uint32(seed), ctypes.c_uint32(limit), o)
        return rc, list(o)
    k, v = isolated(f)
    if k != 'ok':
        return k, None
    return ('panic' if v[0] else 'ok'), v[1]


def fbhash(words, seed, profile='checked'):
    lib = _lib(profile)
    n = len(words)

    def f():
        b = (ctypes.c_uint32 * max(1, n))(*words)
        o = ctypes.c_uint32()
        rc = lib.r_fbhash(b, ctypes.c_uint64(n), ctypes.c_uint32(seed), ctypes.byref(o))
        return rc, o.value
    k, v = isolated(f)
    if k != 'ok':
        return k, None
    return ('panic' if v[0] else 'ok'), v[1]


def small(k, args, profile='checked'):
    """('ok' | 'panic' | ..., [4 results])"""
    lib = _lib(profile)

    def f():
        a = (ctypes.c_uint64 * 8)(*(list(args) + [0] * (8 - len(args))))
        o = (ctypes.c_uint64 * 4)()
        rc = lib.r_small(ctypes.c_uint64(k), a, o)
        return rc, list(o)
    r, v = isolated(f)
    if r != 'ok':
        return r, None
    return ('panic' if v[0] else 'ok'), v[1]


def wasm_init(fb, profile='checked', timeout=20):
    """frame buffer after the WebAssembly demo's init, from contents fb"""
    lib = _lib(profile)

    def f():
        lib.r_wasm_fb.restype = ctypes.c_void_p
        A = ctypes.c_uint32 * WORDS
        buf = A.from_address(lib.r_wasm_fb())
        buf[:] = fb
        rc = lib.r_wasm_init()
        return rc, list(buf)
    k, v = isolated(f, timeout)
    if k != 'ok':
        return k, None
    return ('panic' if v[0] else 'ok'), v[1]
