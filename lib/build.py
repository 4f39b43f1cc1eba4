"""Builds what the checks need from /repo's current working tree: LLVM IR of the harness
entry points with the library inlined (for the symbolic executor) and native shared
libraries (for replaying counterexamples).  Outputs are keyed by a hash of the sources."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def source_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for d in ('src', 'wasm_demo/src', '.cargo'):
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            files += [os.path.join(root, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'build.rs', 'wasm_demo/Cargo.toml')]
    for d in ('harness', 'replay'):
        files += [os.path.join(VERIF, d, 'Cargo.toml')] + glob.glob(os.path.join(VERIF, d, 'src', '*.rs'))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:16]


def sysroot():
    return subprocess.run(['rustc', '--print', 'sysroot'], env=dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN),
                          capture_output=True, text=True, check=True).stdout.strip()


def cargo(crate, target, flags, args, toolchain=TOOLCHAIN):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=toolchain, RUSTFLAGS=flags, CARGO_TARGET_DIR=target,
               CARGO_NET_OFFLINE='true')
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'build', '--offline'] + args, cwd=os.path.join(VERIF, crate), env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('cargo build of %s failed:\n%s' % (crate, r.stderr[-4000:]))


def keyed(kind, key, make):
    """directory build/<kind>-<key>, made by make(dir) once"""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, '%s-%s' % (kind, key))
    with open(os.path.join(BUILD, kind + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'ok')):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            make(d)
            with open(os.path.join(d, 'ok'), 'w') as f:
                f.write('1')
        os.utime(d)
        old = sorted(glob.glob(os.path.join(BUILD, kind + '-*')), key=os.path.getmtime)
        for o in old[:-6]:
            if time.time() - os.path.getmtime(o) > 3600:
                shutil.rmtree(o, ignore_errors=True)
    return d


IR_FLAGS = '-C no-vectorize-loops -C no-vectorize-slp -C save-temps --cfg verif_hooks'


def ir_text():
    def make(d):
        t = os.path.join(d, 't')
        cargo('harness', t, IR_FLAGS, ['--release'])
        bc = glob.glob(os.path.join(t, 'release/deps/harness.harness.*-cgu.0.rcgu.bc'))
        if len(bc) != 1:
            raise BuildError('expected one bitcode file, found %s' % bc)
        dis = glob.glob(os.path.join(sysroot(), 'lib/rustlib/*/bin/llvm-dis'))
        subprocess.run([dis[0], bc[0], '-o', os.path.join(d, 'h.ll')], check=True)
        shutil.rmtree(t, ignore_errors=True)
    d = keyed('ir', source_hash([IR_FLAGS]), make)
    with open(os.path.join(d, 'h.ll')) as f:
        return f.read()


def native_lib(profile):
    """path of the native library; profile 'release' or 'checked' (overflow checks on)"""
    def make(d):
        t = os.path.join(d, 't')
        cargo('replay', t, '--cfg verif_hooks', ['--profile', profile])
        shutil.copy(os.path.join(t, profile, 'libreplay.so'), os.path.join(d, 'libreplay.so'))
        shutil.rmtree(t, ignore_errors=True)
    return os.path.join(keyed('native-' + profile, source_hash([profile]), make), 'libreplay.so')


_mod = None


def module():
    global _mod
    if _mod is None:
        import ll
        _mod = ll.Module(ir_text())
    return _mod
