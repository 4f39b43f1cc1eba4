"""Builds, from /repo/codegen's current source: the SSA dump for goex.py and a native driver."""
import glob
import hashlib
import json
import os
import shutil
import subprocess

import build
import goex

ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', CGO_ENABLED='0', GO111MODULE='on', GOTOOLCHAIN='local')
CODEGEN = os.path.join(build.REPO, 'codegen')


def files():
    out = []
    for root, dirs, fs in os.walk(CODEGEN):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.go') or f in ('go.mod', 'go.sum')]
    return out


def key():
    h = hashlib.sha256()
    for f in files() + sorted(glob.glob(os.path.join(build.VERIF, 'gossa', '*'))) + \
            sorted(glob.glob(os.path.join(build.VERIF, 'harness', 'godriver', '*'))):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def go(args, cwd, out=None):
    r = subprocess.run(['go'] + args, cwd=cwd, env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError('go %s failed:\n%s' % (' '.join(args), r.stderr[-3000:]))


def made():
    def make(d):
        src = os.path.join(d, 'codegen')
        for f in files():
            if f.endswith('_test.go'):
                continue
            to = os.path.join(src, os.path.relpath(f, CODEGEN))
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copy(f, to)
        gd = os.path.join(d, 'gossa')
        shutil.copytree(os.path.join(build.VERIF, 'gossa'), gd)
        go(['build', '-o', os.path.join(d, 'gossa.bin'), '.'], gd)
        r = subprocess.run([os.path.join(d, 'gossa.bin'), src, './...'], env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError('gossa failed:\n' + r.stderr[-3000:])
        with open(os.path.join(d, 'ssa.json'), 'w') as f:
            f.write(r.stdout)
        dd = os.path.join(src, 'zzverifdriver')
        shutil.copytree(os.path.join(build.VERIF, 'harness', 'godriver'), dd)
        go(['build', '-o', os.path.join(d, 'driver'), './zzverifdriver'], src)
    return build.keyed('go', key(), make)


_prog = None


def program():
    global _prog
    if _prog is None:
        with open(os.path.join(made(), 'ssa.json')) as f:
            _prog = goex.Program(json.load(f))
    return _prog


def native(reqs, timeout=60):
    """answers of the natively compiled generator functions"""
    data = '\n'.join(json.dumps(r) for r in reqs) + '\n'
    r = subprocess.run([os.path.join(made(), 'driver')], input=data, capture_output=True, text=True, timeout=timeout)
    return [json.loads(l[2:]) for l in r.stdout.splitlines() if l.startswith('@@')]
